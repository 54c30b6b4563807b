// Property-based testing engine: every random choice of a case goes through a Tape, so that a case is
// a pure function of its tape; tapes are generated from VERIF_SEED, mutated under coverage feedback,
// shrunk on failure and stored as replay files.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <initializer_list>
typedef std::vector<uint8_t> Bytes;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
};

struct Tape {
    std::vector<uint64_t> in; size_t pos = 0; bool tail = false; Rng rng;   // tail: random beyond `in`, else zeros
    uint64_t *rec = nullptr; volatile uint32_t *nrec = nullptr; uint32_t cap = 0;
    uint64_t below(uint64_t n);                      // uniform 0..n-1 (n = 0: any 64 bit value); 0 is the simplest
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }   // false is the simplest
    size_t weighted(std::initializer_list<unsigned> w);                          // index; 0 is the simplest
    uint64_t u64();                                  // biased towards boundaries
    uint32_t u32(); uint16_t u16();
    void fill(uint8_t *p, size_t n);                 // pseudo random bytes from one choice (cheap on tape)
    Bytes bytes(size_t n) { Bytes b(n); fill(b.data(), n); return b; }
};

struct Failure { std::string msg; };
struct Discard {};

struct Case {
    Tape &t;
    bool nontrivial = false;
    uint64_t fp = 1469598103934665603ull;            // fingerprint of what was actually executed
    std::string desc;                                // written out sample
    bool want_desc = false;
    explicit Case(Tape &tape) : t(tape) {}
    void label(const char *name);                    // distribution counters of this run
    void mix(const void *p, size_t n) { const uint8_t *b = (const uint8_t *) p; for (size_t i = 0; i < n; i++) { fp ^= b[i]; fp *= 1099511628211ull; } }
    void mix64(uint64_t v) { mix(&v, 8); }
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void count(uint64_t n = 1);                      // executions inside this case beyond the case itself
};
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define CHECK(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)

typedef void (*PartFn)(Case &);
struct Part { const char *name; PartFn fn; uint64_t quick, thorough; const char *so; };   // so: which library the part drives
struct CheckDef { const char *id; const char *rule; std::vector<Part> parts; };
const std::vector<CheckDef> &all_checks();
void engine_before_part(const Part &p);              // loads the library of a part
int engine_main(int argc, char **argv);
