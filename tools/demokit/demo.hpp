// Drives the real application through commands and buttons; used by the demonstrations of planted bugs.
#pragma once
#include "harness/ref.hpp"
extern "C" {
#include "sdk/include/parser.h"
#include "sdk/include/io.h"
void app_init(void); void ui_menu_main(void); int apdu_dispatcher(const command_t *);
extern unsigned char G_io_apdu_buffer[];
}
#include <cstdio>
#include <cstdlib>
#include <cstring>
#define EXPECT(c, ...) do { if (!(c)) { printf("FAILED at line %d: %s: ", __LINE__, #c); printf(__VA_ARGS__); printf("\n"); exit(1); } } while (0)
struct R { int n = 0; unsigned sw = 0; Bytes data; bool ui = false; };
static host::Screen menu; static Bytes SEED(32, 7);
static uint64_t rng_state = 1;
static inline void boot(Bytes seed = Bytes(32, 7)) {
    SEED = seed; host::reset(); host::seed = seed;
    host::rng = [](uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) { rng_state = rng_state * 6364136223846793005ull + 1442695040888963407ull; p[i] = rng_state >> 40; } };
    app_init(); ui_menu_main(); host::draws.clear(); host::responses.clear(); menu = host::screen;
}
static inline R collect(uint64_t l) { R r; r.n = host::responses.size(); if (r.n) { r.sw = host::responses.back().sw; r.data = host::responses.back().data; } r.ui = !r.n && host::layouts != l && host::screen != menu; return r; }
static inline R send(uint8_t ins, uint8_t p1, uint8_t p2, const Bytes &d = {}, uint8_t cla = 0xE0) {
    host::responses.clear(); uint64_t l = host::layouts; command_t c; c.cla = cla; c.ins = ins; c.p1 = p1; c.p2 = p2; c.lc = d.size(); c.data = nullptr;
    uint8_t *b = G_io_apdu_buffer; memset(b, 0, 260); b[0] = cla; b[1] = ins; b[2] = p1; b[3] = p2; b[4] = d.size(); if (!d.empty()) { memcpy(b + 5, d.data(), d.size()); c.data = b + 5; }
    apdu_dispatcher(&c); return collect(l);
}
static inline R press(int b) { host::responses.clear(); uint64_t l = host::layouts; if (b == 0) host::left(); else if (b == 1) host::right(); else host::both(); return collect(l); }
static inline std::vector<host::Screen> screens() { std::vector<host::Screen> v{host::screen}; for (int i = 0; i < 60; i++) { R r = press(1); if (r.n || host::screen == v[0]) break; v.push_back(host::screen); } return v; }
static inline std::string text(const std::vector<host::Screen> &v) { std::string s; for (auto &x : v) s += x.title + (x.text.empty() ? "" : "=" + x.text) + ";"; return s; }
static inline R answer(bool yes) { for (int i = 0; i < 80 && host::screen.title != (yes ? "Approve" : "Reject"); i++) { R r = press(1); if (r.n) return r; } return press(2); }
static inline R approve() { return answer(true); }
static inline R reject() { return answer(false); }
// one command; a review is approved
static inline R go(uint8_t ins, uint8_t p1, uint8_t p2, const Bytes &d = {}) { R r = send(ins, p1, p2, d); return r.ui ? approve() : r; }
constexpr uint32_t H = 0x80000000u;
static inline Path path(uint32_t acc = 0, uint32_t change = 0, uint32_t index = 0) { return {44 | H, 429 | H, acc | H, change, index}; }
static inline B32 tid(uint8_t k) { B32 b; b.fill(k); b[0] = 0xA0; return b; }
static inline Bytes tokb(const B32 &t, uint64_t v) { Bytes r(t.begin(), t.end()); return r + be(v, 8); }
static inline Box box(uint64_t value, std::vector<Token> t = {}, uint16_t index = 0) { Box b; b.value = value; b.tree = Bytes{1, 2, 3}; b.tokens = t; b.index = index; b.txid.fill(9); return b; }
static inline Bytes box_header(const Box &b) { return Bytes(b.txid.begin(), b.txid.end()) + be(b.index, 2) + be(b.value, 8) + be(b.tree.size(), 4) + be(b.height, 4) + Bytes{(uint8_t) b.tokens.size()} + be(b.regs.size(), 4); }
#define OK(call) ({ R _r = (call); EXPECT(_r.n == 1 && _r.sw == 0x9000, "got %d answers, status %04x", _r.n, _r.sw); _r; })
static inline uint8_t att_start(const Box &b, Bytes tok = {}) { R r = OK(go(0x20, 1, tok.empty() ? 1 : 2, box_header(b) + tok)); EXPECT(r.data.size() == 1, "session"); return r.data[0]; }
static inline unsigned att_body(uint8_t s, const Box &b, size_t chunk = 200) {
    R r; for (size_t i = 0; i < b.tree.size(); i += chunk) r = OK(send(0x20, 2, s, Bytes(b.tree.begin() + i, b.tree.begin() + std::min(b.tree.size(), i + chunk))));
    for (size_t i = 0; i < b.tokens.size(); i += 6) { Bytes d; for (size_t k = i; k < i + 6 && k < b.tokens.size(); k++) d += tokb(b.tokens[k].id, b.tokens[k].amount); r = OK(send(0x20, 3, s, d)); }
    for (size_t i = 0; i < b.regs.size(); i += chunk) r = OK(send(0x20, 4, s, Bytes(b.regs.begin() + i, b.regs.begin() + std::min(b.regs.size(), i + chunk))));
    EXPECT(r.data.size() == 1, "frame count"); return r.data[0];
}
static inline std::vector<Bytes> attest(const Box &b) { uint8_t s = att_start(b); unsigned n = att_body(s, b); std::vector<Bytes> f; for (unsigned i = 0; i < n; i++) f.push_back(OK(send(0x20, 5, s, {(uint8_t) i})).data); return f; }
static inline Bytes path_arg(const Path &p) { return ref::path_bytes(p); }
static inline uint8_t sign_start(const Path &p, uint8_t net = 0) { R r = OK(go(0x21, 1, 1, Bytes{net} + path_arg(p))); EXPECT(r.data.size() == 1, "session"); return r.data[0]; }
static inline R tx_start(uint8_t s, unsigned in, unsigned data, unsigned tok, unsigned out) { return send(0x21, 0x10, s, be(in, 2) + be(data, 2) + Bytes{(uint8_t) tok} + be(out, 2)); }
static inline R tx_tokens(uint8_t s, const std::vector<B32> &t) { Bytes d; for (auto &x : t) d += Bytes(x.begin(), x.end()); return send(0x21, 0x11, s, d); }
static inline void add_input(uint8_t s, const std::vector<Bytes> &f, const Bytes &ext = {}) {
    for (size_t i = 0; i < f.size(); i++) OK(send(0x21, 0x12, s, f[i] + (i == 0 ? be(ext.size(), 4) : Bytes())));
    for (size_t i = 0; i < ext.size(); i += 200) OK(send(0x21, 0x13, s, Bytes(ext.begin() + i, ext.begin() + std::min(ext.size(), i + 200))));
}
static inline R out_start(uint8_t s, uint64_t value, unsigned tree, unsigned height = 1, unsigned tok = 0, unsigned regs = 0) { return send(0x21, 0x15, s, be(value, 8) + be(tree, 4) + be(height, 4) + Bytes{(uint8_t) tok} + be(regs, 4)); }
static inline Bytes otok(std::vector<std::pair<uint32_t, uint64_t>> t) { Bytes d; for (auto &x : t) d += be(x.first, 4) + be(x.second, 8); return d; }
static inline Bytes p2pk_of(uint8_t k) { Bytes seed(32, k); uint8_t pk[33]; ref::pub33(seed, path(), pk); return ref::p2pk_tree(pk); }
