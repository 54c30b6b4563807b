// Application-level parts of the properties whose unit-level parts are in checks_unit.cpp: the same codecs,
// arithmetic, buffers, trees and serialisers, reached through commands.
#include "checks.hpp"
static uint64_t edge(Case &c, unsigned bits) {          // where a variable length integer takes another byte
    uint64_t v = c.t.below(4) ? (1ull << std::min(63u, 7 * (1 + (unsigned) c.t.below(9)))) + c.t.below(3) - 1 : c.t.u64();
    if (c.t.chance(1, 6)) v = UINT64_MAX - c.t.below(2); return bits < 64 ? v & ((1ull << bits) - 1) : v;
}
static B32 id_at(unsigned i) { B32 r; r.fill(0x40 + i); r[31] = i; return r; }
// ---------------------------------------------------------------- C13
void p_c13_wire(Case &c) {                              // numbers as they enter box ids and signed bytes
    scene(c, M(D_FRAME) | M(D_SIG) | M(R_ATT) | M(R_SIGN), [&](Session &s) {
        GenOpts o; o.big = false; GTx g = gen::request(c); Box b; b.value = edge(c, 64); b.height = edge(c, 32); b.index = edge(c, 16); b.tree = c.t.bytes(1 + c.t.below(9)); b.txid = gen::id(c);
        unsigned nt = c.t.below(4); std::vector<__int128> net(nt, 0); for (unsigned i = 0; i < nt; i++) { g.tokens.push_back(id_at(i)); uint64_t a = edge(c, 64) & INT64_MAX; if (c.t.below(3)) { b.tokens.push_back({id_at(i), a}); net[i] = a; } }
        for (unsigned i = nt; i < 20 && c.t.chance(1, 3); i++) b.tokens.push_back({id_at(i), edge(c, 64) & INT64_MAX});
        Box b2 = b; for (auto &t : b2.tokens) t.amount = edge(c, 64); b2.value = edge(c, 64); b2.index = edge(c, 16); b2.height = edge(c, 32); if (!s.run(gen::attest(c, b2, 0, false))) return;   // any amounts
        g.boxes = {b}; g.in = {0}; g.ext = {Bytes()}; g.frames.resize(1);
        unsigned nd = c.t.chance(1, 12) ? 126 + c.t.below(4) : c.t.below(3); for (unsigned i = 0; i < nd; i++) g.data.push_back(id_at(i & 15));
        unsigned no = c.t.chance(1, 30) ? 126 + c.t.below(4) : 1 + c.t.below(4); uint64_t left = b.value;
        for (unsigned i = 0; i < no; i++) {
            Output q; q.height = edge(c, 32); q.value = edge(c, 64); if (no > 4 || c.t.chance(1, 3)) { q.kind = Output::FEE; q.value = no > 4 ? 0 : std::min(q.value, left); left -= q.value; } else q.tree = c.t.bytes(1 + c.t.below(9));
            if (no <= 4) for (unsigned k = 0; k < nt; k++) if (c.t.below(2)) { __int128 room = net[k] - (__int128) INT64_MIN; uint64_t a = edge(c, 64); if (a > room) a = (uint64_t) room; net[k] -= a; q.tokens.push_back({k, a}); }
            g.out.push_back(q);
        }
        if (!gen::attest_all(s, g)) return;
        s.run(gen::sign(c, g)); c.nontrivial = s.n_sig > 0; if (s.n_sig) c.label("signatures over boundary numbers"); if (nd > 100) c.label("count of two bytes");
    });
}
// ---------------------------------------------------------------- C14
void p_c14_amounts(Case &c) {                           // every running total is driven to its limits and one beyond
    scene(c, M(A_OVERFLOW) | M(S_FINAL) | M(S_OUT) | M(R_SIGN) | M(A_NOCMD) | M(A_MISSING), [&](Session &s) {
        GTx g = gen::request(c); unsigned nt = c.t.below(4), nd = nt ? 1 + c.t.below(nt) : 0; std::vector<__int128> net(nt, 0); for (unsigned i = 0; i < nd; i++) g.tokens.push_back(id_at(i));
        const __int128 U = UINT64_MAX, I = INT64_MAX; __int128 value = 0; bool over = false;
        // an amount that leaves the total at, just below or just above the limit, or anything
        auto amount = [&](__int128 room) -> uint64_t { __int128 a; switch (c.t.weighted({4, 3, 2, 1, 4})) { case 0: a = room; break; case 1: a = room - 1 - c.t.below(3); break; case 2: a = room / 2; break; case 3: a = room + 1 + c.t.below(2); break; default: a = c.t.u64(); if (c.t.below(2)) a = room ? (__int128) (uint64_t) a % room : 0; } if (a < 0) a = 0; if (a > U) a = U; if (a > room) over = true; return (uint64_t) a; };
        unsigned nb = 1 + c.t.below(3);
        for (unsigned i = 0; i < nb; i++) {
            Box b; b.tree = Bytes(3, 1); b.txid = id_at(i); b.height = 1; b.index = i; b.value = amount(i + 1 < nb ? (U - value) / 2 : U - value); value += b.value;
            for (unsigned k = 0; k < nt; k++) if (c.t.below(4)) { uint64_t a = amount(i + 1 < nb ? (I - net[k]) / 2 : I - net[k]); net[k] += a; b.tokens.push_back({id_at(k), a}); }
            g.boxes.push_back(b); g.in.push_back(i); g.ext.push_back(c.t.chance(1, 4) ? Bytes(2, 1) : Bytes());
        }
        unsigned no = 1 + c.t.below(5);
        for (unsigned i = 0; i < no; i++) {
            Output q; q.height = 1; q.kind = (Output::Kind) c.t.weighted({2, 3, 3}); if (q.kind == Output::TREE) q.tree = Bytes(4, 3), q.value = c.t.u64(); else { q.value = amount(value > 0 ? value : 0); value -= q.value; if (q.kind == Output::CHANGE) { q.path = g.path; if (q.path.size() > 5) q.path.resize(5); } }
            for (unsigned k = 0; k < nd; k++) if (c.t.below(3)) { uint64_t a = amount(net[k] + I + 1); net[k] -= a; q.tokens.push_back({k, a}); } g.out.push_back(q);
        }
        g.frames.resize(nb); if (!gen::attest_all(s, g)) return;
        Plan p = gen::sign(c, g); size_t i = 0; for (; i < p.size(); i++) if (!s.exec(p[i])) break;
        if (i < p.size()) { c.label("overflow refused"); for (unsigned k = 0; k < 4 && i + k < p.size(); k++) if (s.exec(p[i + k])) break; Step z; z.a.ins = 0x21; z.a.p1 = 0x20; z.ses = true; s.exec(z); }
        c.nontrivial = !s.last_final.empty() || s.n_err; if (!s.last_final.empty()) { c.label("final reviews"); for (auto &x : net) if (x == I || x == -I - 1) c.label("token total at a limit"); }
    });
}
// ---------------------------------------------------------------- C15
void p_c15_cuts(Case &c) {                              // commands in exactly allocated buffers, cut off or continued anywhere
    scene(c, M(A_SHORT) | M(A_TRAILING) | M(W_RESP), [&](Session &s) {
        dev::exact_buffer = true; GenOpts o; o.big = false; o.max_in = 2; o.max_out = 2; o.max_tok = 9; o.app_tok = 50; Plan p; bool stateful = c.t.below(2);
        if (!stateful) {
            bool h = c.t.below(2); switch (c.t.below(4)) { case 0: p = gen::epk(c, gen::epk_path(c), gen::app_token(c), h); break; case 1: p = gen::da(c, c.t.below(2), 16 * c.t.below(2), gen::addr_path(c, 59), gen::app_token(c), h); break; case 2: p = gen::attest(c, gen::box(c, o, gen::ids(c, 3)), gen::app_token(c), h); break; default: { GTx g; g.path = gen::addr_path(c, 59); g.has_tok = h; g.tok = gen::app_token(c); Apdu a; a.ins = 0x21; a.p1 = 1; a.p2 = h ? 2 : 1; a.data = Bytes{0} + ref::path_bytes(g.path) + (h ? be(g.tok, 4) : Bytes()); Step x; x.a = a; p = {x}; } }
            Apdu full = p[0].a;                         // every proper prefix, then some surplus
            for (size_t k = 0; k < full.data.size(); k++) { Step x = p[0]; x.a.data.resize(k); if (s.exec(x)) break; }
            for (int k = 0; k < 3; k++) { Step x = p[0]; x.a.data += c.t.bytes(1 + c.t.below(40)); s.exec(x); }
            c.nontrivial = s.n_err > 3; c.label("every prefix of a command"); return;
        }
        GTx g = gen::tx(c, o); if (c.t.below(3)) { if (!gen::attest_all(s, g)) return; p = gen::sign(c, g); } else p = gen::attest(c, g.boxes[0], gen::app_token(c), c.t.below(2));
        size_t at = c.t.below(p.size()); Apdu &a = p[at].a; if (c.t.below(3) && !a.data.empty()) a.data.resize(c.t.below(a.data.size())); else { size_t n = 1 + c.t.below(c.t.below(2) ? 4 : 100); if (a.data.size() + n <= 255) a.data += c.t.bytes(n); }
        for (size_t i = 0; i < p.size(); i++) if (!s.exec(p[i]) && i > at + 3) break;
        c.nontrivial = s.n_ok > 0; c.label(s.n_err ? "cut or continued, refused" : "harmless");
    });
}
// ---------------------------------------------------------------- C17
void p_c17_shown(Case &c) {                             // what the user sees as the destination of near misses
    scene(c, M(S_OUT) | M(R_SIGN), [&](Session &s) {
        GTx g = gen::request(c); Box b; b.tree = Bytes(3, 1); b.txid = id_at(1); b.value = 1000; g.boxes = {b}; g.in = {0}; g.ext = {Bytes()}; g.frames.resize(1); unsigned n = 1 + c.t.below(5);
        for (unsigned i = 0; i < n; i++) {
            Output q; q.value = c.t.below(1000); q.height = c.t.below(1000);
            switch (c.t.weighted({8, 2, 2})) {
                case 0: { q.tree = special(c); unsigned k = c.t.below(3); for (unsigned j = 0; j < k; j++) near(c, q.tree); break; }
                case 1: {                               // a special form behind, or before, a lot of script
                    Bytes t = special(c), x = c.t.bytes(c.t.below(2) ? 255 : 255 + c.t.below(300)); q.tree = c.t.below(3) ? x + t : t + x; c.label("special form inside a longer tree"); break; }
                default: if (c.t.below(3)) q.kind = Output::FEE, q.value = 0; else q.tree = ref::fee_tree; break;
            }
            if (q.kind == Output::TREE && q.tree.empty()) q.tree.push_back(0);
            if (q.kind == Output::TREE) { c.mix(q.tree.data(), q.tree.size()); c.label(ref::is_p2pk(q.tree) ? "public key" : ref::is_p2sh(q.tree) ? "script hash" : q.tree == ref::fee_tree ? "fee contract sent as a tree" : "script"); }
            g.out.push_back(q);
        }
        if (!gen::attest_all(s, g)) return; unsigned before = s.n_ui; s.run(gen::sign(c, g, false)); c.nontrivial = s.n_ui > before + 1;
    });
}
void p_c17_derive(Case &c) {                            // addresses of own keys on all networks
    scene(c, M(S_DA) | M(D_ADDR) | M(R_DA) | M(A_NET), [&](Session &s) {
        unsigned n = 2 + c.t.below(4);
        for (unsigned i = 0; i < n; i++) { uint8_t net = c.t.below(3) == 0 ? 16 * c.t.below(2) : c.t.below(2) ? c.t.below(256) : 250 + c.t.below(6); bool show = c.t.below(2); s.run(gen::da(c, show, net, gen::addr_path(c, 59), 0, false)); c.label(net > 252 ? "network out of range" : net == 0 || net == 16 ? "known network" : "other network"); c.mix64(net * 2 + show); }
        c.nontrivial = s.n_ui > 0;
    });
}
// ---------------------------------------------------------------- C27
void p_c27_streams(Case &c) {                           // boxes and transactions in random splittings and with deviations
    scene(c, M(D_FRAME) | M(D_COUNT) | M(D_SIG) | M(R_ATT) | M(R_SIGN) | M(A_SURPLUS) | M(A_MISSING) | M(A_STATE) | M(A_CHUNK) | M(A_NOCMD) | M(A_FRAMEORDER) | M(A_DUP) | M(A_INDEX), [&](Session &s) {
        GenOpts o; o.big = c.t.chance(1, 8); o.max_in = 2; o.max_out = 3; o.max_tok = 20; o.app_tok = 0; GTx g = gen::tx(c, o); Plan p; bool box = c.t.chance(1, 3);
        if (box) p = gen::attest(c, g.boxes[0], 0, false); else { if (!gen::attest_all(s, g)) return; p = gen::sign(c, g); }
        bool dev = c.t.below(2); if (dev) gen::mutate(c, p, s); size_t i = 0; for (; i < p.size(); i++) if (!s.exec(p[i])) break;
        if (i < p.size()) { for (unsigned k = 0; k < 5 && i + k < p.size(); k++) s.exec(p[i + k]); c.label("steps after a refusal"); }   // nothing is accepted any more
        c.nontrivial = s.n_sig || s.n_frames || s.n_err; if (s.n_sig) c.label("signatures"); if (s.n_frames) c.label("frames");
    });
}

// ---------------------------------------------------------------- C26: a long life
// Hundreds of operations of mostly one kind since the start, then the operation under the model: nothing may wear out.
static void life(Case &c, Mask mask) {
    scene(c, mask, [&](Session &s) {
        GenOpts o; o.big = false; o.few_sizes = true; o.max_in = 1; o.max_out = 2; o.max_tok = 4; o.app_tok = 30; static const unsigned len[] = {20, 40, 80, 140, 270, 300};
        unsigned total = len[c.t.weighted({4, 3, 3, 3, 2, 1})], fav = c.t.below(11), n = 0; GTx g = gen::tx(c, o); g.has_tok = false; Box b = gen::box(c, o, gen::ids(c, c.t.below(6))); b.tree = Bytes(2, 7); b.regs.clear(); Path ep = gen::epk_path(c), ap = gen::addr_path(c, 59); uint32_t tok = gen::app_token(c); bool have = gen::attest_all(s, g);
        for (; n < total; n++) {
            unsigned k = c.t.chance(9, 10) ? fav : c.t.below(11); Step x; if (c.t.below(2)) { b.value = 1 + c.t.below(1000000); b.index = c.t.u32(); }
            switch (k) {
                case 0: s.run(gen::epk(c, ep, tok, c.t.below(2))); break;
                case 1: s.run(gen::da(c, c.t.below(2), 16, ap, tok, c.t.below(2))); break;
                case 2: s.run(gen::attest(c, b, tok, c.t.below(2), true, true)); break;
                case 3: { Plan p = gen::attest(c, b, tok, true, false, true); s.run(p); for (unsigned j = 0; j < 3; j++) { Step f; f.a.ins = 0x20; f.a.p1 = 5; f.a.data = {(uint8_t) c.t.below(2)}; f.ses = true; s.exec(f); } have = have && s.n_frames; break; }
                case 4: s.p_reject = 100; c.t.below(2) ? s.run(gen::epk(c, ep, 0, false)) : s.run(gen::da(c, true, 0, ap, 0, false)); s.p_reject = 0; break;
                case 5: { Plan p = gen::sign(c, g, false, true); p.resize(1 + c.t.below(2)); s.run(p); break; }
                case 6: if (have) s.run(gen::sign(c, g, c.t.below(2), true)); break;
                case 7: x.a.ins = 1 + c.t.below(2); s.exec(x); break;
                case 8: x.a = gen::junk(c, s); s.exec(x); break;
                case 9: switch (c.t.below(3)) { case 0: s.run(gen::epk(c, gen::any_path(c), tok, true)); break; case 1: s.run(gen::da(c, c.t.below(2), 16, gen::any_path(c), tok, true)); break; default: { GTx h = g; h.path = gen::any_path(c); Plan p = gen::sign(c, h, false, true); p.resize(1); s.run(p); } } break;
                default: { Plan p = gen::attest(c, b, 0, false, false, true); if (c.t.below(2)) p.pop_back(); else gen::mutate(c, p, s); s.run(p); }
            }
            if (s.ui_open) s.answer(true);
        }
        bool r = false; switch (c.t.below(4)) { case 0: r = gen::op_epk(s, o); break; case 1: r = gen::op_da(s, o); break; case 2: r = gen::op_attest(s, o); break; default: r = gen::op_sign(s, o); }
        c.nontrivial = r && n >= 40; if (n > 256) c.label("more than 256 operations");
    });
}
void p_c26_life(Case &c) { life(c, ~0ull); }
void p_c01_life(Case &c) { life(c, M(D_SIG) | M(R_SIGN) | M(D_EXTRA)); }
void p_c04_life(Case &c) { life(c, M(D_FRAME) | M(D_COUNT) | M(R_ATT) | M(A_INDEX)); }
void p_c05_life(Case &c) { life(c, M(R_SIGN) | M(A_MAC) | M(A_FRAMEORDER) | M(S_FINAL)); }
void p_c07_life(Case &c) { life(c, M(NP_TOKEN) | M(NP_OTHER) | M(NP_OUT) | M(W_ANSWER) | M(D_EXTRA) | M(A_NOCMD) | M(D_SESSION) | M(W_NAV) | M(S_EPK) | M(S_DA) | M(S_ATT) | M(S_START) | M(S_OUT) | M(S_FINAL)); }
void p_c09_life(Case &c) { life(c, M(D_XPUB) | M(D_ADDR) | M(S_EPK) | M(S_DA) | M(R_EPK) | M(R_DA)); }
void p_c10_life(Case &c) { life(c, M(W_RESP) | M(W_ERRDATA) | M(A_INDEX) | M(A_COUNT)); }
void p_c20_life(Case &c) { life(c, M(D_SESSION) | M(A_SESSION) | M(A_NOCMD) | M(R_SIGN) | M(R_ATT)); }
void p_c02_life(Case &c) { life(c, M(S_OUT) | M(NP_OUT)); }
void p_c03_life(Case &c) { life(c, M(S_FINAL) | M(A_OVERFLOW) | M(R_SIGN)); }
void p_c06_life(Case &c) { life(c, M(A_STATE) | M(A_SURPLUS) | M(A_MISSING) | M(A_FRAMEORDER) | M(A_NOCMD) | M(A_SUBCMD) | M(A_INDEX) | M(R_SIGN) | M(R_ATT)); }
void p_c08_life(Case &c) { life(c, M(A_PATH) | M(A_SHORT) | M(A_FORMAT) | M(R_EPK) | M(R_DA) | M(R_SIGN)); }
void p_c12_life(Case &c) { life(c, M(R_SIGN) | M(R_ATT) | M(A_SIZE) | M(A_COUNT) | M(A_DUP) | M(A_INDEX)); }
void p_c18_life(Case &c) { life(c, M(W_NAV) | M(W_MENU) | M(S_EPK) | M(S_DA) | M(S_ATT) | M(S_START) | M(S_OUT) | M(S_FINAL)); }
void p_c22_life(Case &c) { life(c, M(W_SW) | M(W_ERRDATA) | M(W_ANSWER) | M(R_INFO) | M(R_EPK) | M(R_DA) | M(R_ATT) | M(R_SIGN)); }
void p_c24_life(Case &c) { life(c, M(NP_TOKEN) | M(P_TOKEN) | M(NP_OTHER) | M(S_EPK) | M(S_DA) | M(S_ATT) | M(S_START)); }
void p_c25_life(Case &c) { life(c, M(NP_OUT) | M(P_OUT) | M(D_SIG)); }
// ---------------------------------------------------------------- C28: the menu
// A model of the menu: two rings of three pages. The walk goes on wherever no review is open, between all steps of a history.
namespace {
struct MenuModel {
    std::vector<std::pair<std::string, std::string>> pages[2] = {{{"Ergo", "is ready"}, {"About", ""}, {"Quit", ""}}, {{"Ergo App", "(c) 2024 Ergo"}, {"Version", "3.7.5"}, {"Back", ""}}};
    unsigned menu = 0, page = 0;
    std::string show() const { return "{" + pages[menu][page].first + "|" + pages[menu][page].second + "}"; }
    bool shown() const { return host::screen.title == pages[menu][page].first && (host::screen.text == pages[menu][page].second || (menu == 1 && page == 0)); }   // (the line below the name is free)
    void button(unsigned b) {
        if (b == 1) page = (page + 1) % 3;
        else if (b == 0) page = (page + 2) % 3;
        else if (menu == 0 && page == 1) menu = 1, page = 0;
        else if (menu == 1 && page == 2) menu = 0, page = 0;
    }
};
}  // namespace
static void c28(Case &c, const char *v) {
    scene(c, M(W_MENU) | M(W_NAV) | M(W_RESP), [&](Session &s) {
        MenuModel m; unsigned walks = 0, commands = 0; bool fresh = false;
        auto look = [&](const char *when) { if (!m.shown()) fail("%s the display shows {%s|%s} instead of %s", when, host::screen.title.c_str(), host::screen.text.c_str(), m.show().c_str()); };
        auto walk = [&](unsigned n) {
            for (unsigned i = 0; i < n; i++) {
                unsigned b = c.t.below(3); if (b == 2 && m.menu == 0 && m.page == 2) b = c.t.below(2);
                std::string was = m.show(); Reply r = dev::press(c, b); m.button(b);
                CHECK(r.n == 0, "%s on %s sent an answer %04x", b == 0 ? "left" : b == 1 ? "right" : "both buttons", was.c_str(), r.sw);
                CHECK(!host::exited, "%s on %s ended the application", b == 0 ? "left" : b == 1 ? "right" : "both buttons", was.c_str());
                look(b == 0 ? "after left" : b == 1 ? "after right" : "after both buttons");
            }
            walks += n; if (n) s.mask |= M_REFUSE;           // from here on the operation in progress was, perhaps, disturbed
        };
        look("at the start"); walk(c.t.below(8));
        s.settled = [&](Session &) {
            CHECK(!host::exited, "a command or a review ended the application");
            if (s.ui_open) { fresh = true; return; }
            // a review ended, or a command was answered: the main menu again, or where the user was
            if (fresh || !m.shown()) m.menu = m.page = 0;
            look(fresh ? "after a review" : "after a command"); fresh = false; commands++; if (c.t.chance(1, 4)) walk(1 + c.t.below(c.t.chance(1, 200) ? 600 : 6));
        };
        GenOpts o; o.big = false; o.few_sizes = true; o.max_in = 1; o.max_out = 2; o.app_tok = 40; o.unshowable = true; s.p_wander = 20; s.p_reject = 20; s.p_probe = 10; s.probe = gen::probe;
        gen::history(s, o, 1 + c.t.below(3), 60); s.settled = nullptr;
        if (s.ui_open) return;
        walk(c.t.below(6)); if (walks && commands) c.nontrivial = true;
        // the way out: to the main menu and its last page
        if (m.menu == 1) { while (m.page != 2) { dev::press(c, 1); m.button(1); } dev::press(c, 2); m.button(2); look("after Back"); }
        while (m.page != 2) { dev::press(c, 1); m.button(1); } look("on the way to Quit"); CHECK(!host::exited, "the application ended before Quit was confirmed");
        Reply r = dev::press(c, 2); CHECK(host::exited && r.n == 0, "Quit did not end the application"); c.label("quit");
    }, v);
}
void p_c28_menu(Case &c) { c28(c, "app"); }
void p_c28_nanos(Case &c) { c28(c, "nanos"); }
