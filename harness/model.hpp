// Reference model of the command protocol. For every command it says what must happen: an error (and the
// status word documented for it), an answer with given data, or a review with given screens.
#pragma once
#include "ref.hpp"
#include <memory>
#include <map>
#include <set>

// What kind of deviation from the model was seen. A check names the kinds that violate its property.
enum Kind : unsigned {
    // accepted although it had to be refused, by reason
    A_CLASS, A_INS, A_P1P2, A_LC, A_BUSY, A_SESSION, A_NOCMD, A_STATE, A_SUBCMD, A_PATH, A_SHORT, A_TRAILING, A_COUNT, A_SIZE, A_SURPLUS, A_CHUNK,
    A_MAC, A_FRAMEORDER, A_OVERFLOW, A_NET, A_DUP, A_INDEX, A_FORMAT, A_MISSING,
    // refused although it was correct
    R_EPK, R_DA, R_ATT, R_SIGN, R_INFO,
    // prompted or not prompted
    P_TOKEN, NP_TOKEN, P_OUT, NP_OUT, NP_OTHER,
    // wrong content
    D_XPUB, D_ADDR, D_SESSION, D_COUNT, D_FRAME, D_SIG, D_EXTRA, D_INFO,
    S_EPK, S_DA, S_ATT, S_START, S_OUT, S_FINAL,
    // wrong answers
    W_SW, W_ERRDATA, W_RESP, W_ANSWER, W_NAV, W_MENU, W_OTHER,
    N_KINDS
};
typedef uint64_t Mask;
constexpr Mask M(Kind k) { return 1ull << k; }
constexpr Mask M_ACCEPT = (1ull << R_EPK) - 1;
constexpr Mask M_REFUSE = M(R_EPK) | M(R_DA) | M(R_ATT) | M(R_SIGN);
extern const char *kind_name[];
static_assert(N_KINDS <= 64, "mask");

struct Review {
    enum Type { NONE, EPK, DA, ATT, START, OUT, FINAL } type = NONE;
    std::vector<std::pair<std::string, std::string>> screens;     // title, text; the approve and reject screens follow
    Kind skind = W_OTHER;
    // what the approval answers
    enum Ans { EMPTY, DATA, SESSION, SIG } ans = EMPTY; Bytes data; Kind dkind = W_OTHER;
    uint32_t token = 0;
    bool unshowable = false;                           // a screen of it cannot be formatted: looking at it ends the operation
};
struct Exp {
    enum What { ERR, OK, UI, UNSPEC } what = UNSPEC;
    uint16_t sw = 0; Kind reason = W_OTHER; bool sw_exact = true;   // ERR
    enum Data { EMPTY, EXACT, SESSION, ANYDATA } data = EMPTY; Bytes bytes; Kind dkind = D_EXTRA;   // OK
    Kind refuse = R_INFO;                                       // kind when a correct command is refused
    Kind noprompt = NP_OTHER, prompt = P_TOKEN;
};

struct Model {
    // ---- device session
    Bytes seed; bool nanos = false; bool debug = false;
    bool busy = false; Review review; uint32_t token = 0;
    std::map<Bytes, bool> authentic;                               // frames attested in this session (with MAC)
    enum Cmd { NONE, EPK, DA, ATT, SIGN } cmd = NONE;
    int session = 0; bool approved = false;
    // ---- attestation
    Box box; uint32_t tree_left = 0, regs_left = 0; unsigned toks_left = 0; enum BoxState { B_TREE, B_TOKENS, B_REGS, B_DONE } bst = B_DONE;
    B32 boxid{}; bool tree_started = false; bool att_done = false;
    // ---- signing
    uint8_t net = 0; Path path;
    enum Phase { S_INIT, S_TOKENS, S_INPUTS, S_DATA, S_OUTPUTS, S_DONE, S_FINALIZED } phase = S_INIT;
    unsigned n_in = 0, n_data = 0, n_tok = 0, n_out = 0;            // declared
    Tx tx; std::vector<B32> table; std::vector<__int128> net_tokens;
    enum InState { I_IDLE, I_FRAMES, I_EXT } ist = I_IDLE; unsigned fr_count = 0, fr_done = 0; uint32_t ext_left = 0; B32 cur_id{};
    __int128 value = 0, fee = 0;
    bool out_open = false; BoxState ost = B_DONE; uint32_t o_tree_left = 0, o_regs_left = 0; unsigned o_toks_left = 0; bool o_tree_started = false; std::set<uint32_t> o_seen_zero;
    Path last_change;
    // expectations
    Exp expect(const Apdu &a);                                     // also moves to the state after the expected outcome
    void failed_review() { busy = false; reset_op(); review = Review(); }
    void answered(bool approve);                                   // the review on screen was answered
    void learn_session(uint8_t s) { session = s; }
    void reset_op() { cmd = NONE; approved = false; session = 0; }
    unsigned frames_count() const { return box.tokens.empty() ? 1 : (box.tokens.size() + 3) / 4; }
private:
    Exp err(uint16_t sw, Kind reason, bool hard = true, bool exact = true);
    Exp ok(Kind refuse); Exp ui(Kind refuse);
    Exp epk(const Apdu &), da(const Apdu &), att(const Apdu &), sign(const Apdu &);
    Exp att_done_or_ok(); Exp out_step(); void out_review(); void final_review();
    void finish_input();
};
