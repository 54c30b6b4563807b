// The application under test, loaded as a shared library next to the stub SDK.
#pragma once
#include "engine.hpp"
#include "../sdk/src/host.hpp"
#include "../sdk/src/prim.hpp"
#include <array>
#include <string>
#include <vector>
typedef std::array<uint8_t, 32> B32;
inline Bytes operator+(Bytes a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
inline Bytes &operator+=(Bytes &a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
inline Bytes be(uint64_t v, unsigned n) { Bytes b(n); for (unsigned i = 0; i < n; i++) b[n - 1 - i] = v >> (8 * i); return b; }
inline std::string hx(const Bytes &b) { return prim::hex(b); }
inline std::string hx(const B32 &b) { return prim::hex(b.data(), 32); }

struct Apdu { uint8_t cla = 0xE0, ins = 0, p1 = 0, p2 = 0; Bytes data; };
std::string show(const Apdu &a);
struct Reply { int n = 0; uint16_t sw = 0; Bytes data; bool ui = false; };   // n: number of responses sent

namespace lib {                                       // library loading
extern std::string app_so, plain_so, unit_so, nanos_so, debug_so;
void load(const char *which);                         // "app" | "plain" | "unit" | "nanos" | "debug"
void *sym(const char *name);                          // symbol of the loaded library or null
void restore();                                       // writable memory back to the state after loading
struct Region { uint8_t *lo, *hi; };
const std::vector<Region> &regions();                 // writable memory of the library
}  // namespace lib

namespace dev {
typedef std::function<void(uint8_t *, size_t)> RngFn;
void boot(const Bytes &seed, uint64_t rng_seed, RngFn rng = nullptr);   // power on: fresh memory, app_init, main menu
Reply send(Case &c, const Apdu &a);                   // one command through the dispatcher
Reply press(Case &c, int button);                     // 0 left, 1 right, 2 both
extern bool exact_buffer;                             // command data in an exact heap copy instead of the transfer buffer
extern uint8_t garbage;                               // what lies behind the command in the transfer buffer
extern int stack_fill;                                // the stack is filled with this before each call
extern Bytes init_random;                             // random bytes drawn while starting
extern host::Screen menu;                             // first screen after start
extern bool guarded;                                   // run on the guarded stack (library "plain" only)
std::pair<const uint8_t *, const uint8_t *> used_stack();   // what the last guarded call left on its stack
bool is(const char *title);                           // current screen has this title
}
