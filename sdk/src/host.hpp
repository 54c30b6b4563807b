// What the stub SDK shows to a test harness: responses, screens, buttons, randomness, injected faults.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <functional>
namespace host {
typedef std::vector<uint8_t> Bytes;
struct Resp { Bytes data; uint16_t sw; };
struct Screen {
    std::string layout, title, text; const void *icon = nullptr;
    bool at_end = false;                  // a text of several pages is entered at its last page
    bool operator==(const Screen &o) const { return layout == o.layout && title == o.title && text == o.text && icon == o.icon; }
    bool operator!=(const Screen &o) const { return !(*this == o); }
};
extern std::vector<Resp> responses;       // since the last clear
extern Screen screen;                     // what is on the display
extern uint64_t layouts;                  // number of times something was drawn
extern bool exited;                       // os_sched_exit called
extern Bytes seed;                        // device seed
extern std::function<void(uint8_t *, size_t)> rng;
struct Draw { Bytes data; };
extern uint8_t last_byte;                   // the last random byte that was drawn alone, which is what a session id is made from
extern std::vector<Draw> draws;           // every output of the random generator since the last clear
// Fault injection: when fault_hook returns true the call reports an error (and leaves or trashes its output).
extern std::function<bool(const char *)> fault_hook;
extern uint64_t fallible_calls;
extern uint32_t fault_code;
extern bool fault_trash;
extern std::vector<const char *> fault_log;
extern uint64_t sdk_calls;
void reset();
// buttons
void left(); void right(); void both();
void redraw();                            // draw the current step again from the live data
unsigned flow_index(); unsigned flow_length();
extern std::function<int(uint8_t *buf, size_t cap)> recv;  // feeds io_recv_command
}  // namespace host
