// A device and its reference model side by side.
#pragma once
#include "model.hpp"
struct Diverged {};                                    // device and model parted in a way this check does not judge
struct Step { Apdu a; bool ses = false; const char *what = ""; };   // ses: P2 is the session id of the operation
typedef std::vector<Step> Plan;

struct Session {
    Case &c; Mask mask; Model m;
    bool ui_open = false;                              // the device shows a review that was not answered
    unsigned p_reject = 0;                             // percent of reviews that are rejected
    unsigned p_wander = 0;                             // percent of reviews with random browsing
    unsigned p_probe = 0;                              // percent of reviews with host commands in between
    std::function<Apdu(Session &)> probe;              // what the host sends meanwhile
    unsigned p_menu = 0;                               // percent of commands that arrive after browsing the main menu
    unsigned wander_len = 24, probe_len = 3;
    Bytes last_sig; Reply last; bool browsing = false;   // the last answer came while the user looked through a review
    Bytes last_frame; std::string last_final;
    std::vector<host::Screen> walked;                  // screens of the last review in order
    std::string trace; bool tracing = false;           // deterministic part of everything seen
    std::function<void(Session &)> settled;            // after every command and button
    struct Ev { int what; Apdu a; }; std::vector<Ev> *record = nullptr;   // concrete host and user actions
    unsigned n_ok = 0, n_err = 0, n_ui = 0, n_sig = 0, n_frames = 0;
    Session(Case &cc, Mask mk) : c(cc), mask(mk) {}
    void boot(const Bytes &seed, uint64_t rng_seed, dev::RngFn rng = nullptr); unsigned boots = 0;
    Exp::What step(const Apdu &a);                     // one command; returns what was expected
    Tx last_tx; Path last_path;                        // what last_sig signs
    bool answer(bool approve);                         // answers the open review
    bool decide();                                     // answers it at random
    bool run(const Plan &p, size_t from = 0, size_t to = ~(size_t) 0);   // all steps, approving; false when a step was refused or a review rejected
    Apdu fill(const Step &s);
    uint8_t last_session = 0;
    Reply press(int b);
    void deviates(Kind k, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
    bool exec(const Step &s);                          // step and decide
private:
    Exp::What step1(const Apdu &a);
    void walk();
    void wander(); void foreign();
    void probes();
    void menu();
    bool at(const char *title);
    size_t pos = 0;
};
extern std::string show_screens(const std::vector<host::Screen> &v);
