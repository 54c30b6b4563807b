// Parts that drive the whole application through commands, buttons and screens.
#include "checks.hpp"
void scene(Case &c, Mask mask, const std::function<void(Session &)> &f, const char *variant) {
    Session s(c, mask); s.m.nanos = !strcmp(variant, "nanos"); s.m.debug = !strcmp(variant, "debug");
    dev::exact_buffer = false; dev::stack_fill = 0xA5; dev::garbage = 0xA5;
    Bytes sd = gen::seed(c); s.boot(sd, c.t.below(0));
    try { f(s); } catch (const Diverged &) { c.label("parted from the model"); }
    dev::exact_buffer = false; dev::stack_fill = 0xA5;
    c.count(s.n_ok + s.n_err + s.n_ui);
}
static const Mask M_S = M(S_EPK) | M(S_DA) | M(S_ATT) | M(S_START) | M(S_OUT) | M(S_FINAL);

// ---------------------------------------------------------------- C01
static void c01_sign(Case &c, GenOpts o, const char *v = "app") {
    scene(c, M(D_SIG) | M(R_SIGN) | M(R_ATT) | M(D_EXTRA), [&](Session &s) {
        GTx g = gen::tx(c, o); if (!gen::attest_all(s, g)) return;
        s.run(gen::sign(c, g)); c.nontrivial = s.n_sig > 0; if (s.n_sig) c.label("signatures");
        if (g.out.size() > 20 || g.in.size() > 20 || g.data.size() > 20) c.label("many items");
        if (!g.tokens.empty()) c.label("with tokens"); if (!g.data.empty()) c.label("with data inputs");
        for (auto &e : g.ext) if (!e.empty()) { c.label("with extension"); break; }
    }, v);
}
// one of the three counts is large; the long lists come from a seed and not from the tape
static GTx counted(Case &c, Session &s) {
    static const unsigned edge[] = {127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 2048, 4095, 4096, 8192, 16383, 16384, 16385, 32767, 32768, 65535};
    GenOpts o; o.big = false; o.few_sizes = true; o.max_tok = 2; GTx g = gen::request(c); unsigned n = edge[c.t.weighted({8, 8, 4, 8, 8, 4, 4, 4, 4, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2})]; if (c.t.chance(1, 4)) n = 20 + c.t.below(n); int which = c.t.below(3); Rng r(c.t.below(0));
    std::vector<B32> pool = gen::ids(c, c.t.below(3)); g.tokens.assign(pool.begin(), pool.begin() + c.t.below(pool.size() + 1)); Box b = gen::box(c, o, pool); b.regs.clear(); b.tree = Bytes(1 + c.t.below(40), 7); for (auto &t : b.tokens) t.amount &= 0xffffffffffull; b.value &= 0xffffffffffull; g.boxes = {b}; g.frames.resize(1); g.in.assign(which == 0 ? n : 1 + c.t.below(2), 0); g.ext.resize(g.in.size());
    auto id = [&] { B32 x; for (auto &y : x) y = r.next() >> 32; return x; }; for (unsigned i = which == 1 ? n : c.t.below(3); i--;) g.data.push_back(id());
    unsigned outs = which == 2 ? n : 1 + c.t.below(2), seen = c.t.below(2) ? c.t.below(outs) : ~0u; bool all = outs <= 300 && c.t.chance(1, 4); if (all && outs > 100) c.label("over a hundred reviews"); unsigned __int128 left = (unsigned __int128) b.value * g.in.size();
    for (unsigned i = 0; i < outs; i++) { Output q; q.kind = Output::FEE; q.height = r.next() >> 32; q.value = (uint64_t) (left / outs); if (i == seen || all) { q.kind = Output::TREE; q.tree = gen::tree(c, o); if (!all) q.value = c.t.u64(); } g.out.push_back(q); }
    c.label(n >= 16384 ? "count of at least 16384" : n >= 128 ? "count of 128 to 16383" : "count below 128"); c.label(which == 0 ? "many inputs" : which == 1 ? "many data inputs" : "many outputs");
    gen::attest_all(s, g); return g;
}
void p_c01_counts(Case &c) { scene(c, M(D_SIG) | M(R_SIGN) | M(R_ATT) | M(D_EXTRA), [&](Session &s) { GTx g = counted(c, s); s.run(gen::sign(c, g, true, true)); c.nontrivial = s.n_sig > 0; }); }
void p_c25_counts(Case &c) { scene(c, M(NP_OUT) | M(P_OUT) | M(D_SIG), [&](Session &s) { GTx g = counted(c, s); unsigned before = s.n_ui; s.run(gen::sign(c, g, true, true)); c.nontrivial = s.n_sig > 0 && s.n_ui > before + 1; }); }
void p_c02_counts(Case &c) { scene(c, M(S_OUT) | M(NP_OUT), [&](Session &s) { GTx g = counted(c, s); unsigned before = s.n_ui; s.run(gen::sign(c, g, false, true)); c.nontrivial = s.n_ui > before + 1; }); }
void p_c03_counts(Case &c) { scene(c, M(S_FINAL) | M(A_OVERFLOW) | M(R_SIGN), [&](Session &s) { GTx g = counted(c, s); s.run(gen::sign(c, g, true, true)); c.nontrivial = !s.last_final.empty(); }); }
void p_c01_small(Case &c) { GenOpts o; o.big = false; c01_sign(c, o); }
void p_c01_general(Case &c) { GenOpts o; o.extreme = c.t.below(2); c01_sign(c, o); }
void p_c01_history(Case &c) {
    scene(c, M(D_SIG) | M(R_SIGN) | M(D_EXTRA) | M(A_MISSING) | M(A_STATE) | M(A_SURPLUS) | M(A_NOCMD) | M(A_FRAMEORDER), [&](Session &s) {
        GenOpts o; o.big = false; o.max_in = 2; o.max_out = 3; s.p_reject = 8;
        gen::history(s, o, 1 + c.t.below(3), 45);
        s.p_reject = 0; unsigned before = s.n_sig; gen::op_sign(s, o); c.nontrivial = s.n_sig > before && (s.n_err > 0 || before); if (c.nontrivial) c.label("signature after errors or earlier operations");
    });
}
// the random numbers the nonce comes from are at times not usable as one, or the smallest or largest that are
void p_c01_nonces(Case &c) {
    scene(c, M(D_SIG) | M(R_SIGN) | M(D_EXTRA), [&](Session &s) {
        GenOpts o; o.big = false; o.max_in = 2; o.max_out = 3; GTx g = gen::tx(c, o); if (!gen::attest_all(s, g)) return;
        auto real = host::rng; static unsigned bad; static int share; static Rng r(0); bad = 0; share = 1 + c.t.below(9); r = Rng(c.t.below(0));
        host::rng = [real](uint8_t *p, size_t n) {
            real(p, n); if (n != 32 || (int) (r.next() % 10) >= share) return;
            switch (r.next() % 7) { case 0: memset(p, 0, n); bad++; break; case 1: memset(p, 0xFF, n); bad++; break; case 2: case 3: case 4: { prim::U256 x = prim::N; x.v[0] += (int64_t) (r.next() % 3) - 1; if (x.v[0] >= prim::N.v[0]) bad++; prim::u256_to_be(x, p); break; } case 5: memset(p, 0, n); p[31] = 1 + r.next() % 3; break; default: p[0] = p[1] = p[2] = p[3] = 0xFF; break; }
        };
        s.run(gen::sign(c, g, true, true)); host::rng = real; c.nontrivial = s.n_sig > 0 && bad; if (c.nontrivial) c.label("signature after unusable nonces"); if (bad > 3) c.label("more than 3 unusable nonces");
    });
}
// ---------------------------------------------------------------- C02
static void c02(Case &c, const char *v) {
    scene(c, M(S_OUT) | M(NP_OUT), [&](Session &s) {
        GenOpts o; o.big = c.t.chance(1, 4); o.extreme = c.t.below(2); o.max_out = 5; o.max_in = 2; o.max_tok = 20; o.unshowable = true;
        GTx g = gen::tx(c, o); if (!gen::attest_all(s, g)) return;
        unsigned before = s.n_ui; s.p_wander = c.t.below(2) ? 40 : 0;
        s.run(gen::sign(c, g, false)); c.nontrivial = s.n_ui > before + 1; if (c.nontrivial) c.label("transactions with reviewed outputs");
        for (auto &q : g.out) { if (q.tokens.size() > 5) c.label("output with more than 5 tokens"); c.label(q.kind == Output::TREE ? (ref::is_p2pk(q.tree) ? "p2pk output" : ref::is_p2sh(q.tree) ? "script hash output" : "script output") : q.kind == Output::FEE ? "fee output" : "change output"); }
    }, v);
}
void p_c02_outputs(Case &c) { c02(c, "app"); }
void p_c02_nanos(Case &c) { c02(c, "nanos"); }
void p_c02_reviewed(Case &c) {                          // all outputs ask, with tokens in all slots
    scene(c, M(S_OUT) | M(NP_OUT), [&](Session &s) {
        GenOpts o; o.big = false; o.max_in = 1; GTx g = gen::tx(c, o);
        g.tokens = gen::ids(c, 1 + c.t.below(20)); for (auto &b : g.boxes) b.tokens.clear(); g.boxes.resize(1); g.in = {0}; g.ext = {Bytes()}; g.data.clear(); g.out.clear();
        unsigned n = 1 + c.t.below(4);
        std::vector<__int128> net(g.tokens.size(), 0);
        for (unsigned i = 0; i < n; i++) {
            Output q; q.value = c.t.u64(); q.height = c.t.u32(); q.tree = gen::tree(c, o); if (c.t.chance(1, 5)) { q.kind = Output::FEE; q.tree.clear(); q.value = 0; } else if (c.t.chance(1, 6)) { q.kind = Output::CHANGE; q.tree.clear(); q.path = gen::addr_path(c, 69); q.value = 0; }
            std::vector<unsigned> ix(g.tokens.size()); for (unsigned k = 0; k < ix.size(); k++) ix[k] = k;
            unsigned nt = c.t.below(g.tokens.size() + 1);
            for (unsigned k = 0; k < nt; k++) { std::swap(ix[k], ix[k + c.t.below(ix.size() - k)]); uint64_t a = c.t.chance(1, 8) ? 0 : c.t.u64(); __int128 room = net[ix[k]] - (__int128) INT64_MIN; if (a > room) a = room; net[ix[k]] -= a; q.tokens.push_back({ix[k], a}); }
            g.out.push_back(q);
        }
        if (!gen::attest_all(s, g)) return;
        unsigned before = s.n_ui; s.p_wander = 30; s.run(gen::sign(c, g, false)); c.nontrivial = s.n_ui > before + 1; if (c.nontrivial) c.label("transactions with reviewed outputs");
    });
}
// ---------------------------------------------------------------- C03
void p_c03_totals(Case &c) {
    bool nanos = false; (void) nanos;
    scene(c, M(S_FINAL) | M(A_OVERFLOW) | M(R_SIGN), [&](Session &s) {
        GenOpts o; o.big = c.t.chance(1, 5); o.extreme = c.t.below(3) != 0; o.max_tok = c.t.below(3) ? 5 : 20; o.max_in = 4;
        GTx g = gen::tx(c, o); if (!gen::attest_all(s, g)) return;
        s.p_wander = 25; s.run(gen::sign(c, g)); c.nontrivial = !s.last_final.empty(); if (c.nontrivial) c.label("final reviews");
        if (s.last_final.find("Minting") != std::string::npos) c.label("minting"); if (s.last_final.find("Burning") != std::string::npos) c.label("burning");
    });
}
void p_c03_edges(Case &c) {                             // sums that just fit or just do not
    scene(c, M(S_FINAL) | M(A_OVERFLOW) | M(R_SIGN), [&](Session &s) {
        GenOpts o; o.big = false; GTx g = gen::request(c);
        unsigned nt = 1 + c.t.below(3); std::vector<B32> pool = gen::ids(c, nt); unsigned nd = c.t.below(nt + 1); g.tokens.assign(pool.begin(), pool.begin() + nd);
        auto pick = [&](uint64_t lim) { switch (c.t.below(6)) { case 0: return lim; case 1: return lim / 2; case 2: return lim / 2 + 1; case 3: return lim + 1 ? lim + 1 : lim; case 4: return lim ? c.t.below(lim) : 0; default: return c.t.u64(); } };
        unsigned nb = 1 + c.t.below(3);
        for (unsigned i = 0; i < nb; i++) { Box b = gen::box(c, o, {}); b.regs.clear(); b.tree = Bytes(3, 1); b.value = pick(c.t.below(2) ? UINT64_MAX : 1000); for (unsigned k = 0; k < nt; k++) if (c.t.below(3)) b.tokens.push_back({pool[k], c.t.below(2) ? pick(INT64_MAX) : c.t.u64()}); g.boxes.push_back(b); g.in.push_back(i); g.ext.push_back(Bytes()); }
        unsigned no = 1 + c.t.below(4); 
        for (unsigned i = 0; i < no; i++) { Output q; q.height = 1; q.kind = (Output::Kind) c.t.below(3); q.value = c.t.below(2) ? pick(UINT64_MAX) : c.t.below(2) ? g.boxes[0].value : c.t.below(1000); if (q.kind == Output::TREE) q.tree = Bytes(3, 2); if (q.kind == Output::CHANGE) q.path = gen::addr_path(c, 69);
            for (unsigned k = 0; k < nd; k++) if (c.t.below(3)) q.tokens.push_back({k, c.t.below(3) == 0 ? pick((uint64_t) INT64_MAX + 1) : c.t.below(2) ? c.t.u64() : pick(UINT64_MAX)}); g.out.push_back(q); }
        g.frames.resize(nb);
        if (!gen::attest_all(s, g)) return;
        s.run(gen::sign(c, g)); c.nontrivial = !s.last_final.empty() || s.n_err; c.label(s.n_err ? "overflow refused" : "final reviews");
    });
}
// ---------------------------------------------------------------- C04
void p_c04_frames(Case &c) {
    scene(c, M(D_FRAME) | M(D_COUNT) | M(R_ATT) | M(A_INDEX), [&](Session &s) {
        GenOpts o; o.extreme = true; unsigned n = 1 + c.t.below(3);
        for (unsigned i = 0; i < n; i++) {
            Box b = gen::box(c, o, gen::ids(c, c.t.below(21))); if (c.t.chance(1, 60)) b.tree.clear();
            if (!s.run(gen::attest(c, b, gen::app_token(c), c.t.below(2)))) return;
            if (b.tokens.size() > 4) c.label("more than one frame");
            if (c.t.chance(1, 4)) { unsigned k = s.m.frames_count(); Step x; x.a.ins = 0x20; x.a.p1 = 5; x.ses = true; x.a.data = Bytes{(uint8_t) (c.t.below(2) ? k : k + c.t.below(256 - k))}; s.exec(x); c.label("frame beyond the last"); }
            if (s.m.cmd && c.t.chance(1, 80)) { unsigned k = s.m.frames_count(), m = 60 + c.t.below(260), at = c.t.below(3); for (unsigned j = 0; j < m; j++) { Step x; x.a.ins = 0x20; x.a.p1 = 5; x.ses = true; x.a.data = Bytes{(uint8_t) (at == 0 ? 0 : at == 1 ? j % k : c.t.below(k))}; s.exec(x); } c.label("hundreds of requests for one box"); }
        }
        c.nontrivial = s.n_frames > 0; if (c.nontrivial) c.label("attested boxes");
    });
}
// ---------------------------------------------------------------- C05
void p_c05_frames(Case &c) {
    Mask mask = M(A_MAC) | M(A_FRAMEORDER) | M(A_NOCMD) | M(S_FINAL) | M(A_MISSING) | M(A_SHORT);
    scene(c, mask, [&](Session &s) {
        GenOpts o; o.big = false; o.few_sizes = true; o.max_tok = 12; o.max_out = 1; o.max_data = 1;
        std::vector<Bytes> foreign;
        if (c.t.chance(1, 4)) {                          // frames of an earlier device session
            Box b = gen::box(c, o, gen::ids(c, c.t.below(8))); Plan p = gen::attest(c, b, 0, false); if (!s.run(p)) return; foreign.push_back(s.last_frame); s.boot(s.m.seed, c.t.below(0)); c.label("frames of an earlier session");
        }
        GTx g = gen::tx(c, o);
        if (c.t.below(2)) { std::vector<B32> pool = gen::ids(c, 12); Box b = g.boxes[0]; b.tokens.clear(); unsigned n = c.t.below(13); for (unsigned i = 0; i < n; i++) b.tokens.push_back({pool[i], c.t.below(1000)}); g.boxes[0] = b; g.tokens.clear(); g.out.resize(1); g.out[0].tokens.clear(); for (size_t i = 1; i < g.boxes.size(); i++) g.boxes[i].tokens.clear(); }
        if (!gen::attest_all(s, g)) return;
        Plan p = gen::sign(c, g, true, true);
        std::vector<size_t> fi; for (size_t i = 0; i < p.size(); i++) if (p[i].a.p1 == 0x12) fi.push_back(i);
        size_t at = fi[c.t.below(fi.size())]; Apdu &a = p[at].a; size_t tail = a.data.size() - (a.data[33] == 0 ? 4 : 0);
        std::vector<Bytes> all = foreign; for (auto &f : g.frames) for (auto &x : f) all.push_back(x);
        const char *what = "";
        auto whole = [&](const Bytes &f) { return f + (f[33] == 0 ? be(0, 4) : Bytes()); };
        switch (c.t.weighted({6, 2, 3, 2, 2, 2, 3, 2, 2})) {
            case 0: a.data[c.t.below(tail)] ^= 1u << c.t.below(8); what = "flipped bit"; break;
            case 1: { size_t n = 1 + c.t.below(4); for (size_t i = 0; i < n; i++) a.data[c.t.below(tail)] = c.t.u64(); what = "changed bytes"; break; }
            case 2: { Bytes f = all[c.t.below(all.size())]; a.data = whole(f); what = "another frame"; break; }
            case 3: { Bytes f = all[c.t.below(all.size())]; size_t k = c.t.below(std::min(f.size(), tail)); std::copy(f.begin(), f.begin() + k, a.data.begin()); what = "spliced frames"; break; }
            case 4: { Bytes f = all[c.t.below(all.size())]; size_t k = 16; std::copy(f.end() - k, f.end(), a.data.begin() + (tail - k)); what = "MAC of another frame"; break; }
            case 5: a.data.resize(c.t.below(a.data.size())); what = "truncated"; break;
            case 6: { Step x = p[fi[c.t.below(fi.size())]]; p.insert(p.begin() + at, x); what = "repeated or early frame"; break; }
            case 7: p.erase(p.begin() + at); what = "frame left out"; break;
            default: { size_t b = fi[c.t.below(fi.size())]; std::swap(p[at].a, p[b].a); what = "frames swapped"; break; }
        }
        unsigned before = s.n_err; size_t i = 0; for (; i < p.size(); i++) if (!s.exec(p[i])) break;
        c.nontrivial = true; c.label(what); c.label(s.n_err > before ? "refused" : "harmless");
        if (s.n_err > before) for (; i < p.size() && i < at + 6; i++) s.exec(p[i]);    // the operation is dead
    });
}
// The key of the frames is random: with all else the same, at least 128 random bits drawn since the start decide the MAC
void p_c05_key(Case &c) {
    scene(c, M(A_MAC) | M(A_NOCMD), [&](Session &s) {
        GenOpts o; o.big = false; o.few_sizes = true; o.max_in = 1; o.max_tok = 2; o.max_out = 1; o.max_data = 0; o.app_tok = 0;
        GTx g = gen::tx(c, o); g.att_tok = false; g.boxes.resize(1); const Bytes seed = s.m.seed; const uint64_t stream = c.t.below(0); const unsigned bits = c.t.below(0) & 0xFFFFFF;
        size_t drawn = 0, flip = ~(size_t) 0; uint8_t mask = 0; Rng r(stream);
        auto rng = [&](uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++, drawn++) { p[i] = (uint8_t) (r.next() >> 32); if (drawn == flip) p[i] ^= mask; } };
        auto frame = [&](size_t at, uint8_t m) -> Bytes { r = Rng(stream); drawn = 0; flip = at; mask = m; s.boot(seed, 0, rng); if (!s.run(gen::attest(c, g.boxes[0], 0, false))) throw Diverged(); return s.last_frame; };
        Bytes f = frame(~(size_t) 0, 0); size_t n = std::min<size_t>(drawn, 96); unsigned deciding = 0; std::string dead;
        for (size_t i = 0; i < n; i++) {
            uint8_t m = 1u << ((bits >> (3 * (i & 7))) & 7); Bytes x = frame(i, m); c.count();
            CHECK(x.size() == f.size() && std::equal(x.begin(), x.end() - 16, f.begin()), "the frame of the same box differs after another start: %s and %s", hx(f).c_str(), hx(x).c_str());
            if (std::equal(x.end() - 16, x.end(), f.end() - 16)) { dead += " " + std::to_string(i); continue; }
            deciding++; if (deciding == 1 + (bits & 15)) { g.frames.assign(g.boxes.size(), {f}); Plan p = gen::sign(c, g, true, true); for (auto &st : p) { bool done = st.a.p1 == 0x12; if (!s.exec(st) || done) break; } c.label("frame of another start sent"); }
        }
        CHECK(deciding >= 16, "only %u of the %zu random bytes drawn from the start to the first frame decide its MAC (bit masks of %06x; not:%s)", deciding, drawn, bits, dead.c_str());
        c.nontrivial = true;
    });
}
// ---------------------------------------------------------------- C06
static const Mask M_ORDER = M(A_STATE) | M(A_SURPLUS) | M(A_MISSING) | M(A_FRAMEORDER) | M(A_NOCMD) | M(A_SUBCMD) | M(A_INDEX);
void p_c06_sign(Case &c) {
    scene(c, M_ORDER | M(R_SIGN) | M(NP_OUT) | M(NP_OTHER), [&](Session &s) {
        GenOpts o; o.big = false; o.few_sizes = c.t.below(2); o.max_in = 2; o.max_out = 3; o.max_tok = 6; o.app_tok = 0;
        GTx g = gen::tx(c, o); if (!gen::attest_all(s, g)) return;
        Plan p = gen::sign(c, g); unsigned k = c.t.weighted({1, 8, 3}); for (unsigned i = 0; i < k; i++) gen::mutate(c, p, s);
        bool stop = false; unsigned after = 0;
        for (auto &st : p) { if (!s.exec(st)) stop = true; if (stop && ++after > 12) break; }
        c.nontrivial = s.n_err > 0 || s.n_sig > 0; c.label(s.n_err ? "refused deviation" : s.n_sig ? "complete" : "incomplete");
        if (c.t.chance(1, 3)) { GTx h = gen::tx(c, o); if (gen::attest_all(s, h)) s.run(gen::sign(c, h)); }   // starting over works
    });
}
void p_c06_attest(Case &c) {
    scene(c, M_ORDER | M(R_ATT), [&](Session &s) {
        GenOpts o; o.big = false; o.app_tok = 0; Box b = gen::box(c, o, gen::ids(c, c.t.below(9))); Plan p = gen::attest(c, b, 0, false);
        unsigned k = c.t.weighted({1, 8, 3}); for (unsigned i = 0; i < k; i++) gen::mutate(c, p, s);
        bool stop = false; unsigned after = 0;
        for (auto &st : p) { if (!s.exec(st)) stop = true; if (stop && ++after > 8) break; }
        c.nontrivial = s.n_err > 0 || s.n_frames > 0; c.label(s.n_err ? "refused deviation" : "complete");
        if (c.t.chance(1, 3)) s.run(gen::attest(c, b, 0, false));
    });
}
// two operations interleaved: steps of each inside the other
void p_c06_mixed(Case &c) {
    scene(c, M_ORDER | M(A_SESSION) | M(R_SIGN) | M(R_ATT), [&](Session &s) {
        GenOpts o; o.big = false; o.few_sizes = true; o.max_in = 1; o.max_out = 2; o.app_tok = 0; s.p_reject = 4;
        GTx g = gen::tx(c, o); if (!gen::attest_all(s, g)) return;
        Plan a = gen::sign(c, g), b = gen::attest(c, g.boxes[0], 0, false); size_t i = 0, j = 0; unsigned n = 0;
        while (i < a.size() && n++ < 60) { if (j < b.size() && c.t.chance(1, 6)) { s.exec(b[j++]); continue; } if (c.t.chance(1, 12)) i = c.t.below(a.size()); s.exec(a[i++]); }
        c.nontrivial = s.n_err > 0;
    });
}
// ---------------------------------------------------------------- C07
void p_c07_consent(Case &c) {
    scene(c, M(NP_TOKEN) | M(NP_OTHER) | M(NP_OUT) | M(W_ANSWER) | M(D_EXTRA) | M(A_NOCMD) | M(A_BUSY) | M(D_SESSION) | M(W_RESP) | M(W_ERRDATA) | M(W_NAV) | M_S, [&](Session &s) {
        GenOpts o; o.big = false; o.few_sizes = true; o.max_in = 2; o.max_out = 3; o.app_tok = 50; s.p_reject = 25; s.p_wander = 25;
        unsigned n = 2 + c.t.below(4);
        for (unsigned i = 0; i < n; i++) {
            bool h = c.t.chance(1, 2); Plan p;
            s.p_reject = 0; unsigned w = c.t.below(4); GTx g; if (w == 3) { g = gen::tx(c, o); if (!gen::attest_all(s, g)) return; }
            s.p_reject = c.t.below(2) ? 30 : 8;
            p = w == 0 ? gen::epk(c, gen::epk_path(c), gen::app_token(c), h) : w == 1 ? gen::da(c, c.t.below(2), 0, gen::addr_path(c, 59), gen::app_token(c), h) : w == 2 ? gen::attest(c, gen::box(c, o, gen::ids(c, c.t.below(6))), gen::app_token(c), h) : gen::sign(c, g);
            if (w >= 2 && c.t.chance(1, 4)) gen::mutate(c, p, s);
            size_t k = 0; for (; k < p.size(); k++) if (!s.exec(p[k])) break;
            if (k < p.size()) {                          // nothing continues it
                c.label("stopped by rejection or refusal"); size_t from = c.t.below(3) ? k + 1 : k; if (p.size() > 1 && c.t.chance(1, 3)) from = 1 + c.t.below(p.size() - 1);
                for (size_t x = from; x < p.size() && x < from + 14; x++) s.exec(p[x]);
                if (w == 3 && c.t.below(2)) s.exec(p.back());
            }
        }
        c.nontrivial = s.n_ui > 1;
    });
}
// ---------------------------------------------------------------- C08
void p_c08_paths(Case &c) {
    scene(c, M(A_PATH) | M(A_SHORT) | M(A_FORMAT) | M(R_EPK) | M(R_DA) | M(R_SIGN), [&](Session &s) {
        unsigned n = 4 + c.t.below(8);
        for (unsigned i = 0; i < n; i++) {
            Path p = c.t.chance(1, 3) ? (c.t.below(2) ? gen::epk_path(c) : gen::addr_path(c, 59)) : c.t.chance(1, 5) ? gen::long_path(c, c.t.below(2)) : gen::any_path(c);
            if (c.t.chance(1, 8)) { p.clear(); unsigned k = c.t.below(13); for (unsigned j = 0; j < k; j++) p.push_back(c.t.u32()); }
            Plan q; bool has = c.t.chance(1, 5);
            switch (c.t.below(3)) { case 0: q = gen::epk(c, p, 7, has); break; case 1: q = gen::da(c, c.t.below(2), c.t.below(2) ? 0x10 : 0, p, 7, has); break; default: { GTx g; g.path = p; g.net = 0; g.has_tok = has; g.tok = 7; q = gen::sign(c, g, false, true); q.resize(1); } }
            if (c.t.chance(1, 6) && !q[0].a.data.empty()) q[0].a.data.resize(c.t.below(q[0].a.data.size()));
            if (c.t.chance(1, 12)) { size_t at = q[0].a.ins == 0x10 ? 0 : 1; if (at < q[0].a.data.size()) q[0].a.data[at] = c.t.u64(); }
            c.label(s.exec(q[0]) ? "accepted path" : "refused path");
        }
        c.nontrivial = s.n_err > 0 && s.n_ui > 0;
    });
}
void p_c08_change(Case &c) {                            // the paths of change outputs
    scene(c, M(A_PATH) | M(A_SHORT) | M(A_FORMAT) | M(R_SIGN), [&](Session &s) {
        GenOpts o; o.big = false; o.few_sizes = true; Session *sp = &s; (void) sp;
        GTx g = gen::request(c); Box b = gen::box(c, o, {}); b.regs.clear(); b.tree = Bytes(3, 1); b.value = 1000; g.boxes = {b}; g.in = {0}; g.ext = {Bytes()}; g.frames.resize(1);
        unsigned n = 1 + c.t.below(6); for (unsigned i = 0; i < n; i++) { Output q; q.kind = Output::CHANGE; q.path = gen::addr_path(c, 69); g.out.push_back(q); }
        if (!gen::attest_all(s, g)) return;
        Plan p = gen::sign(c, g, false, true); size_t last = p.size() - 1;
        Path x = c.t.chance(1, 6) ? gen::long_path(c, true) : gen::any_path(c); p[last].a.data = ref::path_bytes(x); if (c.t.chance(1, 5)) p[last].a.data.resize(c.t.below(p[last].a.data.size()));
        c.label(s.run(p) ? "accepted path" : "refused path"); c.nontrivial = true;
    });
}
// ---------------------------------------------------------------- C09
void p_c09_keys(Case &c) {
    scene(c, M(D_XPUB) | M(D_ADDR) | M(S_EPK) | M(S_DA) | M(R_EPK) | M(R_DA) | M(A_FORMAT), [&](Session &s) {
        GenOpts o; o.app_tok = 40; unsigned n = 1 + c.t.below(4); s.p_wander = 25;
        if (c.t.chance(1, 10)) s.boot(c.t.bytes(16 + c.t.below(49)), c.t.below(0));
        for (unsigned i = 0; i < n; i++) if (c.t.chance(1, 6)) { bool ad = c.t.below(2); Path p = gen::long_path(c, ad); s.run(ad ? gen::da(c, c.t.below(2), 0, p, gen::app_token(c), c.t.below(2)) : gen::epk(c, p, gen::app_token(c), c.t.below(2))); c.label("long paths"); } else if (c.t.below(2)) { gen::op_epk(s, o); c.label("keys"); } else { gen::op_da(s, o); c.label("addresses"); }
        c.nontrivial = s.n_ui > 0 || s.n_ok > 0;
    });
}
void p_c09_derive(Case &c) {                            // address = public derivation from the exported account key
    scene(c, M(R_EPK) | M(R_DA), [&](Session &s) {
        Path ad = gen::addr_path(c, 59); Path acc(ad.begin(), ad.begin() + 3); uint8_t net = c.t.below(2) ? 0x10 : 0;
        if (!s.run(gen::epk(c, acc, 0, false))) return; Bytes k = s.last.data;
        if (!s.run(gen::da(c, false, net, ad, 0, false))) return; Bytes a = s.last.data;
        CHECK(k.size() == 65, "extended key of %zu bytes", k.size());
        prim::Point p; CHECK(prim::decompress(k.data(), p), "exported key is not a point"); uint8_t ch[32]; memcpy(ch, k.data() + 33, 32);
        for (size_t i = 3; i < ad.size(); i++) { prim::Point q; uint8_t nc[32]; if (!prim::bip32_pub_child(p, ch, ad[i], q, nc)) return; p = q; memcpy(ch, nc, 32); }
        uint8_t pk[33]; prim::compress(p, pk); Bytes want = ref::p2pk_address(net, pk);
        CHECK(a == want, "address %s of %s is not derivable from the exported account key: %s", hx(a).c_str(), ref::path_str(ad).c_str(), hx(want).c_str());
        c.nontrivial = true;
    });
}
// ---------------------------------------------------------------- C10
static void chaos(Session &s, bool wild) {
    Case &c = s.c; GenOpts o; o.big = c.t.chance(1, 6); o.max_in = 2; o.max_out = 3; o.max_tok = c.t.below(4) ? 5 : 20; o.unshowable = c.t.chance(1, 3); s.p_reject = 15; s.p_wander = o.unshowable ? 50 : 20; s.p_probe = wild ? 20 : 5; s.probe = gen::probe; s.p_menu = 4;
    gen::history(s, o, 1 + c.t.below(3), wild ? 90 : 60);
}
void p_c10_chaos(Case &c) {
    scene(c, M(W_RESP) | M(W_ERRDATA) | M(A_INDEX) | M(A_COUNT), [&](Session &s) { dev::exact_buffer = c.t.below(3) != 0; dev::garbage = c.t.below(2) ? 0xA5 : 0xff; chaos(s, true); c.nontrivial = s.n_err > 0; });
    if (c.t.pos) c.nontrivial = true;
}
// commands without any model: everything goes, the device is only watched
void p_c10_raw(Case &c) {
    scene(c, 0, [&](Session &s) {
        dev::exact_buffer = c.t.below(4) != 0; GenOpts o; o.big = false; o.few_sizes = true; o.max_in = 2; o.max_out = 2; o.unshowable = c.t.chance(1, 4); unsigned acc = 0;
        std::vector<Step> pool; GTx g = gen::tx(c, o); bool ok = gen::attest_all(s, g);
        auto fromPlan = [&](const Plan &p) { for (auto &x : p) pool.push_back(x); };
        if (ok) fromPlan(gen::sign(c, g)); fromPlan(gen::attest(c, g.boxes[0], 1, true)); fromPlan(gen::epk(c, gen::epk_path(c), 1, true)); fromPlan(gen::da(c, true, 0, gen::addr_path(c, 59), 1, true));
        uint8_t session = 0; bool open = false; unsigned n = 5 + c.t.below(60); size_t cur = 0;
        for (unsigned i = 0; i < n; i++) {
            if (open && c.t.chance(5, 6)) {
                auto press = [&](int btn) {             // true: the review goes on
                    Reply r = dev::press(c, btn); CHECK(r.n <= 1, "%d responses to one button", r.n);
                    if (!r.n) { if (host::screen == dev::menu) fail("review ended without a response"); return true; }
                    CHECK(r.data.size() <= 255, "response of %zu bytes", r.data.size()); CHECK(r.sw == 0x9000 || r.data.empty(), "error %04x with data", r.sw);
                    open = false; if (r.data.size() == 1) session = r.data[0]; acc++; if (r.sw != 0x6985 && r.sw != 0x9000) c.label("review ended by an error"); return false;
                };
                unsigned b = c.t.weighted({4, 6, 2}); int btn = b == 0 ? 1 : b == 1 ? 2 : 0; bool on = true;
                if (btn == 2) { for (unsigned k = c.t.below(5); on && k; k--) on = press(0); if (on && c.t.below(2)) for (int k = 0; on && k < 40 && host::screen.title != "Approve"; k++) on = press(1); }
                if (on) press(btn);
                continue;
            }
            Step x; if (cur < pool.size() && c.t.chance(4, 5)) x = pool[cur++]; else if (c.t.below(2)) { cur = c.t.below(pool.size()); x = pool[cur++]; } else x.a = gen::junk(c, s);
            if (x.ses) x.a.p2 = session; if (c.t.chance(1, 5)) x.a = gen::mangle(c, x.a);
            host::Screen before = host::screen;
            Reply r = dev::send(c, x.a); c.note("%s -> %d:%04x", show(x.a).c_str(), r.n, r.sw);
            CHECK(r.n == 1 || (r.n == 0 && r.ui && !open), "%s got %d responses", show(x.a).c_str(), r.n);
            if (r.n) { CHECK(r.data.size() <= 255, "response of %zu bytes", r.data.size()); CHECK(r.sw == 0x9000 || r.data.empty(), "error %04x with data", r.sw); if (r.sw == 0x9000) { acc++; if (r.data.size() == 1 && x.a.p1 == 1) session = r.data[0]; } }
            else { open = true; c.label("reviews"); }
        }
        c.nontrivial = acc > 1;
        c.count(n);
    });
}
// the tables are filled to their end and one further
void p_c10_limits(Case &c) {
    scene(c, M(W_RESP) | M(W_ERRDATA) | M(A_INDEX) | M(A_COUNT), [&](Session &s) {
        dev::exact_buffer = c.t.below(3) != 0; dev::garbage = c.t.below(2) ? 0xA5 : 0xff; s.p_wander = 20;
        GenOpts o; o.big = false; o.few_sizes = true; o.app_tok = 0; unsigned total = c.t.weighted({3, 4, 2, 1, 1}) + 19; if (total > 22) total = 40;
        std::vector<B32> pool = gen::ids(c, total); GTx g = gen::request(c); g.tokens.assign(pool.begin(), pool.begin() + c.t.below(21));
        for (unsigned at = 0; at < total;) { Box b = gen::box(c, o, {}); b.tree = Bytes(3, 1); b.regs.clear(); b.tokens.clear(); b.value = 1000; unsigned k = std::min<unsigned>(total - at, c.t.below(2) ? 20 : 1 + c.t.below(20)); for (unsigned i = 0; i < k; i++) b.tokens.push_back({pool[at++], c.t.chance(1, 8) ? 0 : 1 + c.t.below(9)}); g.in.push_back(g.boxes.size()); g.boxes.push_back(b); g.ext.push_back(Bytes()); }
        if (c.t.below(2)) { std::swap(g.boxes.front(), g.boxes.back()); }
        Output q; q.tree = Bytes(3, 2); q.height = 5; for (unsigned j = 0, n = c.t.below(g.tokens.size() + 1); j < n; j++) q.tokens.push_back({c.t.chance(1, 20) ? (unsigned) c.t.below(24) : j, 1}); g.out.push_back(q);
        g.frames.resize(g.boxes.size()); if (!gen::attest_all(s, g)) return;
        Plan p = gen::sign(c, g, true, c.t.below(2)); if (c.t.chance(1, 6)) for (auto &x : p) if (x.a.p1 == 0x10) { x.a.data[4] = 19 + c.t.below(4); break; }
        for (auto &x : p) if (!s.exec(x)) break;
        c.nontrivial = true; c.label(s.n_sig ? "signed" : s.n_err ? "refused" : "ended");
    });
}
// the same session with different contents of everything uninitialised: all answers must be equal
void p_c10_uninit(Case &c) {
    std::vector<Session::Ev> ev; Bytes sd = gen::seed(c); uint64_t rs = c.t.below(0);
    { Session s(c, 0); s.boot(sd, rs); s.record = &ev; dev::exact_buffer = false; dev::stack_fill = 0x00; dev::garbage = 0; try { chaos(s, false); } catch (const Diverged &) {} }
    auto run = [&](int fill, uint8_t garbage) {
        dev::stack_fill = fill; dev::garbage = garbage; dev::boot(sd, rs); std::vector<std::string> o;
        for (auto &e : ev) { Reply r = e.what == 3 ? dev::send(c, e.a) : dev::press(c, e.what); char b[40]; snprintf(b, sizeof b, "%d:%04x:", r.n, r.sw); o.push_back(b + hx(r.data) + "|" + host::screen.title + "|" + host::screen.text); }
        dev::stack_fill = 0xA5; return o;
    };
    auto a = run(0x00, 0x00), b = run(0xFF, 0xFF), d = run(0x5C, 0x80);
    for (size_t i = 0; i < a.size(); i++) CHECK(a[i] == b[i] && a[i] == d[i], "answer %zu (%s) depends on memory that was never written: %s / %s / %s", i, ev[i].what == 3 ? show(ev[i].a).c_str() : "button", a[i].c_str(), b[i].c_str(), d[i].c_str());
    c.nontrivial = ev.size() > 3; c.count(3 * ev.size()); dev::garbage = 0xA5;
}
// ---------------------------------------------------------------- C11
void p_c11_twice(Case &c) {
    std::string t1, t2; bool done1 = false, done2 = false; unsigned sig = 0;
    Mask mask = M_REFUSE | M(D_COUNT) | M(D_FRAME) | M(D_SIG) | M_S | M(A_SURPLUS);
    GenOpts o; o.big = c.t.chance(1, 3); o.max_in = 2; o.max_out = 3; o.max_tok = 20; Bytes sd = gen::seed(c); GTx g = gen::tx(c, o);
    for (int round = 0; round < 2; round++) {
        Session s(c, mask); dev::exact_buffer = round; s.boot(sd, 5);
        try {
            if (!gen::attest_all(s, g)) continue;
            std::string fr; for (auto &f : g.frames) for (auto &x : f) fr += hx(x);
            Plan p = gen::sign(c, g, true, round == 0); std::string &t = round ? t2 : t1; t = fr; bool ok = true;
            for (auto &st : p) { s.trace.clear(); s.tracing = true; if (!s.exec(st)) { ok = false; break; } size_t k = s.trace.find('{'); if (k != std::string::npos) t += s.trace.substr(k); }
            (round ? done2 : done1) = ok; sig += s.n_sig; c.count(s.n_ok + s.n_ui);
        } catch (const Diverged &) { c.label("parted from the model"); }
    }
    dev::exact_buffer = false;
    CHECK(done1 == done2, "one splitting is accepted, the other refused"); CHECK(t1 == t2, "different splittings show %s and %s", t1.c_str(), t2.c_str());
    c.nontrivial = sig == 2; if (c.nontrivial) c.label("signed in two splittings");
}
void p_c11_surplus(Case &c) {                           // one byte or item too many or too few, at any chunk
    scene(c, M(A_SURPLUS) | M(A_MISSING) | M(A_STATE) | M(A_CHUNK) | M_REFUSE, [&](Session &s) {
        GenOpts o; o.big = false; o.max_in = 2; o.max_out = 2; o.app_tok = 0; unsigned focus = c.t.below(8); if (focus == 0x14 - 0x11) o.max_data = 12; GTx g; Plan p; bool sg = c.t.below(3);
        if (sg) { g = gen::tx(c, o); if (!gen::attest_all(s, g)) return; p = gen::sign(c, g); } else p = gen::attest(c, gen::box(c, o, gen::ids(c, c.t.below(12))), 0, false);
        std::vector<size_t> ix; for (size_t i = 1; i < p.size(); i++) { uint8_t x = p[i].a.p1; if (sg ? x == 0x11 || x == 0x13 || x == 0x14 || x == 0x16 || x == 0x19 || x == 0x1A : x >= 2 && x <= 4) ix.push_back(i); }
        if (!ix.empty()) {
            // one kind of data first, its last chunk preferred: there the surplus lies behind what was declared
            std::vector<size_t> of; for (size_t i : ix) if (sg ? p[i].a.p1 - 0x11u == focus : p[i].a.p1 == 2 + focus % 3) of.push_back(i);
            size_t at = of.empty() ? ix[c.t.below(ix.size())] : c.t.below(2) ? of.back() : of[c.t.below(of.size())]; Bytes &d = p[at].a.data; size_t unit = !sg ? (p[at].a.p1 == 3 ? 40 : 1) : p[at].a.p1 == 0x11 || p[at].a.p1 == 0x14 ? 32 : p[at].a.p1 == 0x19 ? 12 : 1;
            if (c.t.below(2)) { size_t n = unit * (1 + c.t.below(3)); if (d.size() + n <= 255) { Bytes e = c.t.bytes(n); if (unit == 12) e = Bytes(n, 0); d += e; c.label("surplus data"); } }
            else if (d.size() >= unit) { d.resize(d.size() - unit * (1 + c.t.below(d.size() / unit))); c.label("missing data"); }
            c.nontrivial = true;
        }
        for (auto &st : p) if (!s.exec(st)) break;
    });
}
// ---------------------------------------------------------------- C12
void p_c12_box(Case &c) {
    scene(c, M(A_COUNT) | M(A_SIZE) | M(A_DUP) | M(A_SURPLUS) | M(A_NOCMD) | M(R_ATT), [&](Session &s) {
        GenOpts o; o.big = false; static const unsigned tk[] = {20, 19, 21, 0, 1, 22, 64, 255}; static const size_t sz[] = {32768, 32767, 32769, 255, 1, 65536, 40000, 510};
        unsigned n = c.t.below(3) ? tk[c.t.below(8)] : c.t.below(21); Box b; b.tree = Bytes(1 + c.t.below(30), 9); b.value = c.t.u64(); b.height = c.t.u32(); std::vector<B32> pool = gen::ids(c, std::min(n, 22u)); for (unsigned i = 0; i < pool.size(); i++) b.tokens.push_back({pool[i], c.t.u64()});
        size_t ts = b.tree.size(), rs = 0; if (c.t.chance(1, 4)) { ts = sz[c.t.below(8)]; if (ts <= 32768) b.tree = c.t.bytes(ts); } if (c.t.chance(1, 4)) { rs = sz[c.t.below(8)]; if (rs <= 32768) b.regs = c.t.bytes(rs); }
        if (b.tokens.size() > 1 && c.t.chance(1, 3)) { size_t i = c.t.below(b.tokens.size()), j = c.t.below(b.tokens.size()); if (i != j) { b.tokens[i].id = b.tokens[j].id; c.label("duplicate token"); } }
        Plan p = gen::attest(c, b, 0, false); Bytes &d = p[0].a.data; d[50] = n; Bytes x = be(ts, 4); std::copy(x.begin(), x.end(), d.begin() + 42); x = be(rs ? rs : b.regs.size(), 4); std::copy(x.begin(), x.end(), d.begin() + 51);
        s.run(p); c.nontrivial = true; c.label(s.n_err ? "refused" : "accepted"); if (n == 20 && !s.n_err) c.label("20 tokens accepted"); if (ts == 32768 && !s.n_err) c.label("32768 byte tree accepted");
    });
}
void p_c12_tx(Case &c) {
    scene(c, M(A_COUNT) | M(A_SIZE) | M(A_DUP) | M(A_INDEX) | M(A_SURPLUS) | M(A_NOCMD) | M(R_SIGN) | M(R_ATT) | M(S_FINAL), [&](Session &s) {
        GenOpts o; o.big = false; o.few_sizes = true; GTx g = gen::request(c);
        unsigned total = c.t.below(3) ? 18 + c.t.below(5) : c.t.below(23); std::vector<B32> pool = gen::ids(c, total); unsigned nd = c.t.below(std::min(total, 20u) + 1); g.tokens.assign(pool.begin(), pool.begin() + nd);
        unsigned nb = 1 + c.t.below(3); if (total > 20 && nb < 2) nb = 2;
        for (unsigned i = 0; i < nb; i++) { Box b = gen::box(c, o, {}); b.regs.clear(); b.tree = Bytes(3, 1); b.value = 1000; g.boxes.push_back(b); g.in.push_back(i); g.ext.push_back(c.t.chance(1, 4) ? c.t.bytes(c.t.below(4) == 0 ? 32768 : 2 + c.t.below(3)) : Bytes()); }
        bool zeros = c.t.chance(1, 3); auto amt = [&]() -> uint64_t { return zeros && c.t.below(2) ? 0 : 1 + c.t.below(50); };
        for (unsigned i = 0; i < total; i++) { unsigned b = i % nb; if (g.boxes[b].tokens.size() < 20) g.boxes[b].tokens.push_back({pool[i], amt()}); if (c.t.below(4) == 0) { b = (b + 1) % nb; bool dup = false; for (auto &t : g.boxes[b].tokens) dup |= t.id == pool[i]; if (!dup && g.boxes[b].tokens.size() < 20) g.boxes[b].tokens.push_back({pool[i], amt()}); } }
        unsigned no = 1 + c.t.below(2); for (unsigned i = 0; i < no; i++) { Output q; q.tree = Bytes(3, 2); q.height = 5; unsigned k = nd ? c.t.below(nd + 1) : 0; for (unsigned j = 0; j < k; j++) q.tokens.push_back({j, zeros && c.t.below(2) ? 0 : 1 + c.t.below(9)}); g.out.push_back(q); }
        g.frames.resize(nb); if (!gen::attest_all(s, g)) return;
        Plan p = gen::sign(c, g);
        switch (c.t.below(9)) {
            case 0: for (auto &x : p) if (x.a.p1 == 0x10) { x.a.data[0] = x.a.data[1] = 0; break; } c.label("no inputs"); break;
            case 1: for (auto &x : p) if (x.a.p1 == 0x10) { x.a.data[5] = x.a.data[6] = 0; break; } c.label("no outputs"); break;
            case 2: for (auto &x : p) if (x.a.p1 == 0x10) { x.a.data[4] = 20 + c.t.below(3); break; } c.label("declared token count"); break;
            case 3: { std::vector<size_t> ix; for (size_t i = 0; i < p.size(); i++) if (p[i].a.p1 == 0x19 && p[i].a.data.size() >= 12) ix.push_back(i); if (!ix.empty()) { Bytes &d = p[ix[c.t.below(ix.size())]].a.data; size_t at = c.t.below(d.size() / 12) * 12; Bytes v = be(c.t.below(2) ? nd : c.t.below(2) ? 19 + c.t.below(3) : c.t.u32(), 4); std::copy(v.begin(), v.end(), d.begin() + at); c.label("token index"); } break; }
            case 4: { std::vector<size_t> ix; for (size_t i = 0; i < p.size(); i++) if (p[i].a.p1 == 0x11 && p[i].a.data.size() >= 64) ix.push_back(i); if (!ix.empty()) { Bytes &d = p[ix[c.t.below(ix.size())]].a.data; std::copy(d.begin(), d.begin() + 32, d.end() - 32); c.label("duplicate token id"); } break; }
            case 5: { std::vector<size_t> ix; for (size_t i = 0; i < p.size(); i++) if (p[i].a.p1 == 0x12 && p[i].a.data[33] == 0) ix.push_back(i); Bytes &d = p[ix[c.t.below(ix.size())]].a.data; static const uint32_t k[] = {32769, 1, 65536, 0x80000000, 32768 + 256}; Bytes v = be(k[c.t.below(5)], 4); std::copy(v.begin(), v.end(), d.end() - 4); c.label("extension size"); break; }
            case 6: { std::vector<size_t> ix; for (size_t i = 0; i < p.size(); i++) if (p[i].a.p1 == 0x15) ix.push_back(i); Bytes &d = p[ix[c.t.below(ix.size())]].a.data; static const uint32_t k[] = {32769, 65536, 0x80000000, 0xffffffff}; Bytes v = be(k[c.t.below(4)], 4); if (c.t.below(3) == 0) d[16] = 21 + c.t.below(3); else std::copy(v.begin(), v.end(), d.begin() + (c.t.below(2) ? 8 : 17)); c.label("output size"); break; }
            case 7: { std::vector<size_t> ix; for (size_t i = 0; i < p.size(); i++) if (p[i].a.p1 == 0x19 && p[i].a.data.size() >= 24) ix.push_back(i); if (!ix.empty()) { Bytes &d = p[ix[c.t.below(ix.size())]].a.data; std::copy(d.begin(), d.begin() + 4, d.end() - 12); c.label("duplicate output token"); } break; }
            default: break;
        }
        size_t i = 0; for (; i < p.size(); i++) if (!s.exec(p[i])) break;
        if (s.n_err) for (; i < p.size() && i < 60; i++) s.exec(p[i]);
        c.nontrivial = true; c.label(s.n_err ? "refused" : "accepted"); if (total == 20 && !s.n_err) c.label("20 distinct tokens accepted"); if (total > 20) c.label("more than 20 distinct tokens");
    });
}
// large outputs through the whole limits
void p_c12_large(Case &c) {
    scene(c, M(R_SIGN) | M(A_SIZE) | M(A_SURPLUS) | M(D_SIG) | M(S_OUT), [&](Session &s) {
        GenOpts o; o.big = false; GTx g = gen::request(c); Box b = gen::box(c, o, {}); b.regs.clear(); b.tree = Bytes(3, 1); g.boxes = {b}; g.in = {0}; g.frames.resize(1);
        static const size_t sz[] = {32768, 32767, 32640, 32641, 255, 256}; g.ext = {c.t.below(2) ? c.t.bytes(sz[c.t.below(6)]) : Bytes()};
        Output q; q.tree = c.t.bytes(sz[c.t.below(6)]); if (c.t.below(2)) q.regs = c.t.bytes(sz[c.t.below(6)]); g.out = {q}; if (!gen::attest_all(s, g)) return;
        Plan p = gen::sign(c, g, true, true); s.run(p); c.nontrivial = s.n_sig > 0;
    });
}
void p_c12_counts(Case &c) { scene(c, M(R_SIGN) | M(A_SIZE) | M(A_SURPLUS) | M(D_SIG) | M(S_OUT), [&](Session &s) { GTx g = counted(c, s); s.run(gen::sign(c, g, true, true)); c.nontrivial = s.n_sig > 0; }); }
// ---------------------------------------------------------------- C18
void p_c18_browse(Case &c) {
    const char *v = "app";
    scene(c, M(W_NAV) | M(W_MENU) | M_S, [&](Session &s) {
        GenOpts o; o.big = false; o.few_sizes = true; o.max_in = 1; o.max_out = 3; o.max_tok = c.t.below(2) ? 4 : 20; o.app_tok = 50; o.unshowable = true; s.p_wander = 100; s.wander_len = c.t.below(3) ? 12 : c.t.chance(1, 15) ? 600 : 90; s.p_reject = 12; s.p_menu = c.t.below(3) ? 0 : 20;
        unsigned n = 1 + c.t.below(4);
        for (unsigned i = 0; i < n; i++) switch (c.t.weighted({2, 2, 2, 4})) { case 0: gen::op_epk(s, o); break; case 1: gen::op_da(s, o); break; case 2: s.run(gen::attest(c, gen::box(c, o, {}), gen::app_token(c), c.t.below(2), false)); break; default: gen::op_sign(s, o); }
        c.nontrivial = s.n_ui > 0; if (s.n_ui > 1) c.label("consecutive reviews");
    }, v);
}
// the menu itself never disappears and never answers anything
void p_c18_menu(Case &c) {
    scene(c, M(W_NAV) | M(W_MENU) | M_S, [&](Session &s) {
        GenOpts o; unsigned n = 3 + c.t.below(20);
        for (unsigned i = 0; i < n; i++) { if (host::screen.title == "Quit") { dev::press(c, 1); continue; } int b = c.t.below(3); Reply r = dev::press(c, b); CHECK(r.n == 0, "menu button %d sent a response %04x", b, r.sw); CHECK(!host::exited, "the application quit from %s", host::screen.title.c_str()); }
        for (int k = 0; k < 6 && host::screen != dev::menu; k++) { dev::press(c, host::screen.title == "Back" ? 2 : 1); }
        CHECK(host::screen == dev::menu, "menu does not come back: %s", host::screen.title.c_str());
        s.p_wander = 50; gen::op_epk(s, o); gen::op_da(s, o); c.nontrivial = true;
    });
}
// ---------------------------------------------------------------- C19
typedef void (*void_t)(void);
static void c19(Case &c, const char *v) {
    struct F { Bytes raw; bool ui = false; };
    Session s(c, M(W_SW) | M(A_CLASS) | M(A_INS) | M(A_P1P2) | M(A_LC) | M(D_INFO) | M(R_INFO) | M(W_RESP) | M(W_ERRDATA) | M(D_EXTRA) | M_REFUSE); s.m.nanos = !strcmp(v, "nanos"); s.m.debug = !strcmp(v, "debug");
    Bytes sd = gen::seed(c); uint64_t rs = c.t.below(0); static Rng r(0);
    // like dev::boot, but through app_main and its receive loop
    lib::restore(); host::reset(); host::seed = sd; r = Rng(rs * 2 + 1); host::rng = [](uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = r.next() >> 32; };
    s.m.seed = sd;
    GenOpts o; o.big = false; o.few_sizes = true; o.max_in = 1; o.max_out = 2; o.app_tok = 0; Box bx = gen::box(c, o, gen::ids(c, c.t.below(6))); Plan base = gen::attest(c, bx, 0, false); size_t bi = 0; unsigned left = 4 + c.t.below(24); bool first = true, over = false, parted = false; std::string err;
    Apdu a; bool valid = false, pending = false; Bytes sent; unsigned bad = 0, good = 0; host::Screen scr;
    auto judge = [&]() {
        // everything about the previous frame
        size_t n = host::responses.size(); bool review = host::screen != scr && host::screen != dev::menu;
        if (!valid) {
            CHECK(n == 1, "malformed frame %s got %zu responses", hx(sent).c_str(), n); Reply q; q.sw = host::responses[0].sw;
            CHECK(q.sw != 0x9000 && host::responses[0].data.empty(), "malformed frame %s answered %04x %s", hx(sent).c_str(), q.sw, hx(host::responses[0].data).c_str());
            CHECK(q.sw == 0x6A87, "malformed frame %s answered %04x", hx(sent).c_str(), q.sw); CHECK(!review, "malformed frame %s opened a review", hx(sent).c_str()); bad++; return;
        }
        CHECK(n <= 1 && (n == 1 || review), "frame %s got %zu responses", hx(sent).c_str(), n);
        Exp e = s.m.expect(a); uint16_t sw = n ? host::responses[0].sw : 0; Bytes d = n ? host::responses[0].data : Bytes(); good++;
        switch (e.what) {
            case Exp::ERR: if (!n || sw == 0x9000) { s.deviates(e.reason, "%s -> %04x %s", show(a).c_str(), sw, hx(d).c_str()); parted = true; return; } CHECK(d.empty(), "%s: error %04x with data", show(a).c_str(), sw);
                if (e.reason == A_CLASS || e.reason == A_INS || e.reason == A_P1P2 || e.reason == A_LC) CHECK(sw == e.sw, "%s answered %04x instead of %04x", show(a).c_str(), sw, e.sw); break;
            case Exp::OK: if (!n || sw != 0x9000) { s.deviates(e.refuse, "%s -> %04x", show(a).c_str(), sw); parted = true; return; }
                if (e.data == Exp::EXACT && d != e.bytes) s.deviates(e.dkind, "%s -> %s, expected %s", show(a).c_str(), hx(d).c_str(), hx(e.bytes).c_str());
                if (e.data == Exp::SESSION && d.size() == 1) s.m.learn_session(d[0]); break;
            case Exp::UI: if (n) { if (sw == 0x9000) s.deviates(e.noprompt, "no review"); else s.deviates(e.refuse, "%s -> %04x", show(a).c_str(), sw); parted = true; return; } s.ui_open = true; break;
            default: parted = true;
        }
    };
    host::recv = [&](uint8_t *buf, size_t cap) -> int {
        try {
            if (!first) judge(); else { dev::menu = host::screen; dev::init_random.clear(); for (auto &d : host::draws) dev::init_random += d.data; }
            first = false;
            if (parted || left-- == 0) { over = true; return -1; }
            if (s.ui_open && c.t.below(2)) { s.ui_open = false; pending = true; Review rv = s.m.review; for (int i = 0; i < 40 && host::screen.title != "Approve"; i++) dev::press(c, 1); Reply q = dev::press(c, 2); CHECK(q.n == 1, "approval got %d responses", q.n); if (q.sw != 0x9000) { parted = true; return -1; } s.m.answered(true); if (rv.ans == Review::SESSION && q.data.size() == 1) s.m.learn_session(q.data[0]); }
            valid = true; sent.clear(); a = Apdu();
            switch (c.t.weighted({6, 4, 4, 3, 3, 4, 3})) {
                case 0: if (bi < base.size()) { a = s.fill(base[bi++]); break; } bi = 0; [[fallthrough]];
                case 1: a.ins = 1 + c.t.below(2); if (c.t.chance(1, 3)) { if (c.t.below(2)) a.p1 = c.t.u64(); else a.p2 = c.t.u64(); } if (c.t.chance(1, 4)) a.data = c.t.bytes(1 + c.t.below(c.t.below(2) ? 4 : 255)); break;
                case 2: a.cla = c.t.below(2) ? 0xE0 ^ (1u << c.t.below(8)) : c.t.u64(); a.ins = c.t.below(2) ? 1 : c.t.u64(); a.p1 = c.t.below(3); a.p2 = c.t.below(3); a.data = c.t.bytes(c.t.below(20)); break;
                case 3: a.ins = c.t.u64(); a.p1 = c.t.below(3); a.p2 = c.t.below(3); a.data = c.t.bytes(c.t.below(20)); break;
                case 4: { static const uint8_t k[] = {0x10, 0x11, 0x20, 0x21}; a.ins = k[c.t.below(4)]; a.p1 = c.t.below(2) ? 0 : c.t.u64(); a.p2 = c.t.below(2) ? 0 : c.t.u64(); if (a.ins >= 0x20 && a.p1 && a.p2) a.p2 = 0; a.data = c.t.below(2) ? ref::path_bytes(gen::epk_path(c)) : Bytes(); break; }
                case 5: {                               // malformed frame
                    valid = false; size_t n = c.t.below(3) ? 5 + c.t.below(256) : c.t.below(6); sent = c.t.bytes(n); if (n > 0 && c.t.below(3)) sent[0] = 0xE0; if (n > 1) sent[1] = 1 + c.t.below(2); if (n > 3) sent[2] = sent[3] = 0; if (n >= 5 && sent[4] == n - 5) sent[4] ^= 1u << c.t.below(8); if (n >= 5 && c.t.below(2)) { uint8_t w = n - 5 + (c.t.below(2) ? 1 : -1); sent[4] = w; } if (n >= 5 && (size_t) sent[4] == n - 5) sent[4]++; break; }
                default: a = gen::junk(c, s); break;
            }
            if (valid) sent = Bytes{a.cla, a.ins, a.p1, a.p2, (uint8_t) a.data.size()} + a.data;
            if (sent.size() > cap) sent.resize(cap);
            host::responses.clear(); scr = host::screen; if (s.ui_open) dev::menu = dev::menu;
            memset(buf, 0xA5, cap); memcpy(buf, sent.data(), sent.size()); c.mix(sent.data(), sent.size()); c.note("%s", hx(sent).substr(0, 60).c_str());
            return sent.size();
        } catch (const Failure &f) { err = f.msg; return -1; }
    };
    void_t m = (void_t) lib::sym("app_main"); if (!m) abort(); m(); host::recv = nullptr; (void) pending;
    if (!err.empty()) throw Failure{err};
    CHECK(over, "the application stopped after %s", hx(sent).c_str());
    if (parted) c.label("parted from the model");
    c.nontrivial = good > 0 && bad > 0; c.count(good + bad);
}
void p_c19_frames(Case &c) { c19(c, "app"); }
void p_c19_debug(Case &c) { c19(c, "debug"); }
// ---------------------------------------------------------------- C20
void p_c20_sessions(Case &c) {
    Session s(c, M(A_SESSION) | M(A_NOCMD) | M(D_SESSION)); dev::exact_buffer = false;
    GenOpts o; o.big = false; o.few_sizes = true; o.max_in = 1; o.max_out = 2; o.app_tok = 30; uint64_t sd = c.t.below(0); unsigned mode = c.t.below(4); static Rng r(0); r = Rng(sd | 1);
    // the generator repeats itself and likes zero
    s.boot(gen::seed(c), sd, [mode](uint8_t *p, size_t n) { static unsigned k = 0; if (n != 1 || mode == 0) { for (size_t i = 0; i < n; i++) p[i] = r.next() >> 32; return; } k++; uint64_t x = r.next(); p[0] = mode == 1 ? (x >> 20 & 3) : mode == 2 ? ((x >> 20) % 5 ? 0 : x >> 40) : ((x >> 20) & 1 ? 7 : x >> 40); });
    std::vector<uint8_t> olds{0, 1, 255};
    try {
        GTx g = gen::tx(c, o); if (!gen::attest_all(s, g)) return; olds.push_back(s.m.session);
        unsigned n = 1 + c.t.below(4); s.p_reject = 10;
        for (unsigned i = 0; i < n; i++) {
            bool sg = c.t.below(2); Plan p = sg ? gen::sign(c, g, true, true) : gen::attest(c, g.boxes[0], gen::app_token(c), c.t.below(2), true, true);
            size_t stop = c.t.below(3) ? p.size() : c.t.below(p.size());
            for (size_t k = 0; k < stop; k++) {
                bool other = k > 0 && c.t.chance(1, 8);
                if (other) {
                    Step x = p[c.t.below(3) ? k : 1 + c.t.below(p.size() - 1)]; x.ses = false; Apdu a = x.a;
                    switch (c.t.below(4)) { case 0: a.p2 = olds[c.t.below(olds.size())]; break; case 1: a.p2 = s.m.session ^ (1u << c.t.below(8)); break; case 2: a.p2 = s.m.session; a.ins ^= 1; a.p1 = a.ins == 0x20 ? 2 + c.t.below(4) : 0x10 + c.t.below(11); break; default: a.p2 = c.t.u64(); }
                    c.label("foreign session id"); s.exec([&] { Step y; y.a = a; return y; }());
                    if (s.m.cmd == Model::NONE) for (int j = 0; j < 3; j++) s.exec(p[c.t.below(p.size() - 1) + 1]);   // it is over
                    if (s.m.cmd == Model::NONE) break;
                    continue;
                }
                if (!s.exec(p[k])) {
                    // a session that was refused, or broke, goes on for nobody, not even for one who knows the id it had
                    if (host::last_byte && c.t.below(2)) { c.label("steps of a refused session"); olds.push_back(host::last_byte); for (int j = 0; j < 3; j++) { Step x = p[j ? 1 + c.t.below(p.size() - 1) : 1]; x.ses = false; x.a.p2 = host::last_byte; s.exec(x); } }
                    break;
                }
                if (k == 0) { olds.push_back(s.m.session); c.label("sessions started"); }
            }
        }
        c.nontrivial = s.n_ok > 2;
    } catch (const Diverged &) { c.label("parted from the model"); }
    c.count(s.n_ok + s.n_err + s.n_ui);
}
// session ids differ between sessions and cover many values
void p_c20_random(Case &c) {
    scene(c, M(D_SESSION), [&](Session &s) {
        std::set<int> ids; Box b; b.tree = Bytes(2, 1); const unsigned n = 300; unsigned ones[8] = {0}, same = 0; int last = -1; unsigned kind = c.t.below(3); Rng q(c.t.below(0)); Path path = gen::addr_path(c, 59);
        for (unsigned i = 0; i < n; i++) {
            bool sg = kind == 2 ? q.next() >> 63 : kind; Bytes d = {0}; if (sg) { d.push_back((uint8_t) path.size()); for (auto x : path) d += be(x, 4); }
            s.step(sg ? Apdu{0xE0, 0x21, 1, 1, d} : gen::attest(c, b, 5, true, false, true)[0].a); if (s.ui_open) s.answer(true);
            int v = s.m.session; ids.insert(v); same += v == last; last = v; for (int k = 0; k < 8; k++) ones[k] += v >> k & 1;
        }
        // of 300 uniform draws out of 255 values about 176 differ and one or two repeat the one before; the limits are missed with a chance below 1e-15
        CHECK(ids.size() >= 120, "only %zu different session ids in %u sessions", ids.size(), n); CHECK(same <= 25, "%u of %u session ids are the same as the one before", same, n);
        for (int k = 0; k < 8; k++) CHECK(ones[k] >= 75 && ones[k] <= 225, "bit %d is set in %u of %u session ids", k, ones[k], n);
        c.nontrivial = true;
    });
}
// ---------------------------------------------------------------- C22
void p_c22_status(Case &c) {
    scene(c, M(W_SW) | M(W_ERRDATA) | M(W_ANSWER) | M(R_INFO) | M_REFUSE, [&](Session &s) {
        GenOpts o; o.big = false; o.few_sizes = c.t.below(2); o.max_in = 2; o.max_out = 2; o.max_data = 2; o.max_tok = 5; o.app_tok = 20; o.extreme = c.t.below(2);
        if (c.t.chance(1, 3)) gen::op_epk(s, o);
        Plan p; bool has = c.t.chance(1, 4); unsigned w = c.t.weighted({1, 1, 3, 6}); GTx g;
        if (w == 0) p = gen::epk(c, gen::epk_path(c), 3, has); else if (w == 1) p = gen::da(c, c.t.below(2), 0, gen::addr_path(c, 59), 3, has); else if (w == 2) p = gen::attest(c, gen::box(c, o, gen::ids(c, c.t.below(8))), 3, has); else { g = gen::tx(c, o); if (!gen::attest_all(s, g)) return; p = gen::sign(c, g); }
        size_t i = c.t.below(p.size()); Apdu &a = p[i].a; const Apdu a0 = p[0].a; const char *f = ""; bool sub = i > 0;
        auto at = [&](uint8_t p1) { std::vector<size_t> v; for (size_t k = 1; k < p.size(); k++) if (p[k].a.p1 == p1) v.push_back(k); return v; };
        auto put = [&](size_t at, uint64_t v, unsigned n) { if (at + n <= a.data.size()) { Bytes b = be(v, n); std::copy(b.begin(), b.end(), a.data.begin() + at); } };
        switch (c.t.below(27)) {
            case 0: a.cla ^= 1u << c.t.below(8); f = "class"; break;
            case 1: a.ins = c.t.below(2) ? 0x22 + c.t.below(200) : 3 + c.t.below(13); f = "instruction"; break;
            case 2: if (sub) { p[i].ses = false; a.p2 = s.m.session; f = "session"; if (c.t.below(2)) a.p2 = 0x55; } else { a.p1 = 0; f = "p1"; } break;
            case 3: if (!a.data.empty() && (!sub || a.p1 == 0x10 || a.p1 == 0x15)) { a.data.pop_back(); f = "short"; } break;
            case 4: if ((!sub || a.p1 == 0x10 || a.p1 == 0x15 || a.p1 == 0x17 || (a.ins == 0x20 && a.p1 == 5)) && a.data.size() < 250) { a.data.push_back(0); f = "trailing"; } break;
            case 5: if (sub) { a.p1 = a.ins == 0x21 ? 0x1B + c.t.below(5) : 6 + c.t.below(200); f = "subcommand"; } break;
            case 6: if (a.ins == 0x10 || (a.ins == 0x21 && a.p1 == 1) || a.ins == 0x11) { size_t at = a.ins == 0x10 ? 1 : 2; put(at + 4 * c.t.below(3), c.t.below(2) ? 0x8000002d : 44, 4); f = "path"; } break;
            case 7: if (a.ins == 0x21 && a.p1 == 1) { a.data[0] = 1 + c.t.below(15); f = "network"; } else if (a.ins == 0x11) { a.data[0] = 253 + c.t.below(3); f = "network"; } break;
            case 8: if (a.ins == 0x21 && a.p1 == 0x10) { static const int at[] = {0, 5, 4}; int k = at[c.t.below(3)]; if (k == 4) a.data[4] = 21; else a.data[k] = a.data[k + 1] = 0; f = "count"; } else if (a.ins == 0x20 && a.p1 == 1) { a.data[50] = 21; f = "count"; } else if (a.ins == 0x21 && a.p1 == 0x15) { a.data[16] = 21; f = "count"; } break;
            case 9: if (a.ins == 0x20 && a.p1 == 1) { put(c.t.below(2) ? 42 : 51, 32769, 4); f = "size"; } else if (a.ins == 0x21 && a.p1 == 0x15) { put(c.t.below(2) ? 8 : 17, 32769, 4); f = "size"; } break;
            case 10: if (a.ins == 0x21 && a.p1 == 0x12) { size_t fl = a.data.size() - (a.data[33] == 0 ? 4 : 0); a.data[fl - 1 - c.t.below(16)] ^= 1u << c.t.below(8); f = "frame signature"; } break;
            case 11: if (sub && i + 1 < p.size()) { Step x; x.a.ins = a.ins; x.ses = true; x.a.p1 = a.ins == 0x20 ? 5 : 0x20; if (x.a.p1 == 5) x.a.data = Bytes{0}; p.insert(p.begin() + i, x); f = "state"; } break;
            case 12: if (a.ins == 0x21 && (a.p1 == 0x13 || a.p1 == 0x1A || a.p1 == 0x16) && a.data.size() < 250) { a.data.push_back(1); f = "surplus"; } else if (a.ins == 0x20 && (a.p1 == 2 || a.p1 == 4) && a.data.size() < 250) { a.data.push_back(1); f = "surplus"; } break;
            case 13: if (a.ins == 0x21 && a.p1 == 0x19 && a.data.size() >= 12) { if (c.t.below(2)) put(0, 20 + c.t.below(10), 4), f = "token index"; else put(4, UINT64_MAX - c.t.below(100), 8), f = "overflow"; } else if (a.ins == 0x21 && a.p1 == 0x15) { put(0, UINT64_MAX, 8); f = "overflow"; } break;
            case 14: if (a.ins == 0x20 && a.p1 == 5) { a.data[0] = 5 + c.t.below(20); f = "frame index"; } else if (a.ins == 0x20 && a.p1 == 3 && a.data.size() >= 80) { std::copy(a.data.begin(), a.data.begin() + 32, a.data.begin() + 40); f = "duplicate"; } else if (a.ins == 0x21 && a.p1 == 0x11 && a.data.size() >= 64) { std::copy(a.data.begin(), a.data.begin() + 32, a.data.begin() + 32); f = "duplicate"; } break;
            case 15: if (w == 3) { auto ix = at(0x12); Apdu &x = p[ix[c.t.below(ix.size())]].a; if (x.data[33] == 0) { static const uint32_t k[] = {1, 32769, 65536, 0xffffffff}; Bytes v = be(k[c.t.below(4)], 4); std::copy(v.begin(), v.end(), x.data.end() - 4); f = "extension size"; } } break;
            case 16: { static const uint8_t k[] = {0x11, 0x14, 0x19, 3}; auto ix = at(k[w == 2 ? 3 : c.t.below(3)]); if (!ix.empty() && w >= 2) { Bytes &d = p[ix[c.t.below(ix.size())]].a.data; size_t unit = w == 2 ? 40 : p[ix[0]].a.p1 == 0x19 ? 12 : 32; if (d.size() >= unit) { d.resize(d.size() - 1 - c.t.below(unit - 1)); f = "item cut"; } } break; }
            case 17: if (w == 3) { auto ix = at(0x12); size_t i1 = ix[c.t.below(ix.size())], i2 = ix[c.t.below(ix.size())]; if (c.t.below(2)) { std::swap(p[i1].a, p[i2].a); f = "frame order"; } else { p.insert(p.begin() + i1, Step(p[i2])); f = "frame repeated"; } } break;
            case 18: { static const uint8_t k[] = {0x11, 0x14, 0x19, 3}; auto ix = at(k[w == 2 ? 3 : c.t.below(3)]); if (!ix.empty() && w >= 2) { Step x = p[ix.back()]; size_t unit = w == 2 ? 40 : x.a.p1 == 0x19 ? 12 : 32; Bytes e = c.t.bytes(unit); if (x.a.p1 == 0x19) e = be(c.t.below(std::max<size_t>(g.tokens.size(), 1)), 4) + be(0, 8); if (x.a.data.size() + unit <= 255) { p[ix.back()].a.data += e; f = "item too many"; } } break; }
            case 19: { auto ix = at(w == 2 ? 2 : 0x16); std::vector<size_t> big; for (size_t k : ix) if (p[k].a.data.size() > 1 || w == 2) big.push_back(k); if (!big.empty() && w >= 2) { size_t k = big[c.t.below(big.size())]; Bytes &d = p[k].a.data; if (d.size() > 1) { d.resize(c.t.below(d.size())); f = "small chunk"; } } break; }
            case 20: if (w != 2) { Path x = gen::long_path(c, w != 0); size_t head = w == 0 ? 0 : 1, old = 1 + 4 * a0.data[head]; Bytes pb = ref::path_bytes(x); Bytes d(a0.data.begin(), a0.data.begin() + head); d += pb + Bytes(a0.data.begin() + head + old, a0.data.end()); p[0].a.data = d; f = "long path"; } break;
            case 21: if (w == 3) { auto ix = at(0x18); if (!ix.empty()) { Bytes &d = p[ix[c.t.below(ix.size())]].a.data; switch (c.t.below(3)) { case 0: d = ref::path_bytes(gen::any_path(c)); break; case 1: d.resize(c.t.below(d.size())); break; default: d[0] = c.t.below(2) ? 0 : 11 + c.t.below(245); } f = "change path"; } } break;
            case 22: { size_t k = c.t.below(p.size()); if (c.t.below(2)) p[k].a.p1 = 0; else { p[k].ses = false; p[k].a.p2 = 0; if (p[k].a.ins == 0x10) p[k].a.p2 = 1 + c.t.below(255); } f = "p1 p2"; break; }
            case 23: if (p.size() > 2) { size_t k = 1 + c.t.below(p.size() - 1); p.erase(p.begin() + k); f = "step left out"; } break;
            case 24: if (p.size() > 2) { size_t k = 1 + c.t.below(p.size() - 1); p.insert(p.begin() + k, Step(p[k])); f = "step repeated"; } break;
            case 25: if (w == 3) { auto ix = at(0x12); Bytes &d = p[ix[c.t.below(ix.size())]].a.data; switch (c.t.below(3)) { case 0: d.resize(c.t.below(d.size())); break; case 1: d[42] ^= 1u << c.t.below(3); break; default: d[c.t.below(34)] ^= 1u << c.t.below(8); } f = "frame altered"; } break;
            default: s.p_reject = 25; f = "rejection"; break;
        }
        if (f[0]) c.label(f);
        for (auto &st : p) { if (f[0] == 's' && !strcmp(f, "session") && &st == &p[i]) { Apdu x = st.a; if (x.p2 == s.m.session) x.p2 ^= 0x80; Step y; y.a = x; s.exec(y); break; } if (!s.exec(st)) break; }
        if (f[0] == 'r' && !strcmp(f, "rejection") && s.n_err && w >= 2 && host::last_byte) { Step x = p[1]; x.ses = false; x.a.p2 = host::last_byte; s.exec(x); }   // with the id the refused session had
        c.nontrivial = f[0] && (s.n_err > 0 || s.p_reject);
    });
}
void p_c22_busy(Case &c) {
    scene(c, M(W_SW) | M(W_ERRDATA) | M(W_ANSWER) | M(A_BUSY), [&](Session &s) { GenOpts o; o.big = false; o.max_in = 1; o.max_out = 2; s.p_probe = 100; s.probe = [](Session &x) { Apdu a = gen::probe(x); while (a.cla != 0xE0 || (a.ins != 0x10 && a.ins != 0x11 && a.ins != 0x20 && a.ins != 0x21) || a.p1 == 0 || a.p2 == 0 || a.p1 > 2) { a = gen::epk(x.c, gen::epk_path(x.c), 1, false)[0].a; if (a.ins == 0x10) break; } return a; };
        s.p_reject = 20; if (c.t.below(2)) gen::op_epk(s, o); else gen::op_sign(s, o); c.nontrivial = s.n_err > 0; });
}
// ---------------------------------------------------------------- C23
void p_c23_busy(Case &c) {
    scene(c, M(A_BUSY) | M(W_OTHER) | M(W_NAV) | M_S | M(R_INFO) | M(D_INFO) | M(D_XPUB) | M(D_ADDR) | M(D_SIG) | M(W_ANSWER) | M_REFUSE | M(W_RESP), [&](Session &s) {
        GenOpts o; o.big = false; o.few_sizes = true; o.max_in = 1; o.max_out = 3; o.max_tok = 6; o.app_tok = 40; s.p_probe = 80; s.probe = gen::probe; s.probe_len = c.t.chance(1, 40) ? 400 : 3; s.p_wander = 30; s.p_reject = 10; s.p_menu = c.t.below(4) ? 0 : 15;
        unsigned n = 1 + c.t.below(3);
        for (unsigned i = 0; i < n; i++) switch (c.t.weighted({2, 2, 1, 4})) { case 0: gen::op_epk(s, o); break; case 1: gen::op_da(s, o); break; case 2: gen::op_attest(s, o); break; default: gen::op_sign(s, o); }
        c.nontrivial = s.n_ui > 0 && s.n_err > 0;
    });
}
// ---------------------------------------------------------------- C24
void p_c24_token(Case &c) {
    scene(c, M(NP_TOKEN) | M(P_TOKEN) | M(NP_OTHER) | M(S_EPK) | M(S_DA) | M(S_ATT) | M(S_START), [&](Session &s) {
        GenOpts o; o.big = false; o.few_sizes = true; o.max_in = 1; o.max_out = 1; unsigned n = 4 + c.t.below(12); unsigned skips = 0;
        for (unsigned i = 0; i < n; i++) {
            bool has = c.t.chance(3, 4); uint32_t t = gen::app_token(c); if (c.t.below(3) == 0 && s.m.token) t = s.m.token ^ (c.t.below(2) ? 0 : 1u << c.t.below(32)); s.p_reject = 20; unsigned ui = s.n_ui; unsigned ok = s.n_ok; Plan p;
            switch (c.t.weighted({4, 4, 4, 2, 1, 2})) {
                case 0: p = gen::epk(c, gen::epk_path(c), t, has); break;
                case 1: p = gen::da(c, c.t.chance(1, 4), 0, gen::addr_path(c, 59), t, has); break;
                case 2: { Box b = gen::box(c, o, {}); p = gen::attest(c, b, t, has, false, true); p.resize(1); break; }
                case 3: { GTx g; g.path = gen::addr_path(c, 59); g.has_tok = has; g.tok = t; p = gen::sign(c, g, false, true); p.resize(1); break; }
                case 4: s.boot(s.m.seed, c.t.below(0)); c.label("restart"); continue;
                default: { p = c.t.below(2) ? gen::epk(c, gen::any_path(c), t, has) : gen::da(c, c.t.below(2), c.t.u64(), gen::any_path(c), t, has); if (c.t.below(2)) p[0].a = gen::mangle(c, p[0].a); break; }
            }
            s.exec(p[0]); if (s.n_ui == ui && s.n_ok > ok) { skips++; c.label("released without asking"); }
        }
        c.nontrivial = skips > 0;
    });
}
// ---------------------------------------------------------------- C25
void p_c25_auto(Case &c) {
    scene(c, M(NP_OUT) | M(P_OUT) | M(D_SIG), [&](Session &s) {
        GenOpts o; o.big = false; o.few_sizes = true; GTx g = gen::request(c); if (c.t.below(2)) g.path.resize(5); if (c.t.chance(1, 6)) g.path[4] = 0x7fffffff - c.t.below(25);
        std::vector<B32> pool = gen::ids(c, 1 + c.t.below(3)); g.tokens = pool; Box b = gen::box(c, o, {}); b.regs.clear(); b.tree = Bytes(3, 1); b.value = 1000000; g.boxes = {b}; g.in = {0}; g.ext = {Bytes()}; g.frames.resize(1);
        unsigned n = 1 + c.t.below(9); std::vector<Path> used;
        for (unsigned i = 0; i < n; i++) {
            Output q; q.height = c.t.u32(); q.value = c.t.below(1000);
            switch (c.t.weighted({8, 3, 2})) {
                case 0: {
                    q.kind = Output::CHANGE; Path p(g.path.begin(), g.path.begin() + 5);
                    switch (c.t.below(8)) {
                        case 0: p[4] = (uint64_t) p[4] + c.t.below(24) <= 0x7fffffff ? p[4] + c.t.below(2) * (18 + c.t.below(4)) : p[4]; break;
                        case 1: p[4] = c.t.below((uint64_t) p[4] + 1); break;
                        case 2: p[3] ^= 1; break;
                        case 3: p[2] ^= 1u << c.t.below(31); break;
                        case 4: if (!used.empty()) { p = used[c.t.below(used.size())]; } break;
                        case 5: if (!used.empty()) { p = used[c.t.below(used.size())]; if (p.size() > 4) p[4] ^= 1u << c.t.below(31); } break;
                        case 6: if (c.t.below(2)) p.push_back(c.t.below(5)); else p = g.path; break;
                        default: { uint64_t v = (uint64_t) p[4] + 15 + c.t.below(10); if (v < 0x80000000u) p[4] = v; break; }
                    }
                    p[4] &= 0x7fffffff; if (c.t.chance(1, 8) && !used.empty()) { Path u = used.back(); u[2] ^= 1u << c.t.below(31); p = u; } if (c.t.chance(1, 8)) { p = gen::addr_path(c, 59); p.resize(5); }
                    q.path = p; used.push_back(p); break; }
                case 1: q.kind = Output::FEE; break;
                default: q.tree = c.t.below(2) ? gen::tree(c, o) : gen::own_tree(c, used.empty() || c.t.below(2) ? g.path : used.back()); if (i && c.t.chance(1, 3)) { Output e = g.out[c.t.below(i)]; if (e.kind == Output::TREE) { q = e; q.tokens.clear(); } }
            }
            if (c.t.chance(1, 3)) { unsigned nt = 1 + c.t.below(pool.size()); for (unsigned k = 0; k < nt; k++) q.tokens.push_back({k, c.t.chance(1, 3) ? 0 : 1 + c.t.below(9)}); }
            if (c.t.chance(1, 6)) q.regs = c.t.bytes(1 + c.t.below(9));
            g.out.push_back(q);
        }
        if (!gen::attest_all(s, g)) return;
        unsigned ui = s.n_ui; s.run(gen::sign(c, g)); c.nontrivial = s.n_sig > 0; unsigned asked = s.n_ui - ui - 2; if (s.n_sig) { if (asked < n) c.label("with skipped outputs"); if (asked) c.label("with reviewed outputs"); }
    });
}
// ---------------------------------------------------------------- C26
void p_c26_history(Case &c) {
    // the operation under test is run twice: on a fresh device and after a history, which may leave another operation unfinished
    GenOpts o; o.big = false; o.few_sizes = true; o.max_in = 2; o.max_out = 3; o.max_tok = 5; o.app_tok = 0; Bytes sd = gen::seed(c);
    unsigned kind = c.t.weighted({1, 1, 2, 4}); Path ep = gen::epk_path(c), ap = gen::addr_path(c, 59); bool disp = c.t.below(2), has = c.t.below(2); uint32_t tok = 0x77001122; Box bx = gen::box(c, o, gen::ids(c, c.t.below(9))); GTx g = gen::tx(c, o); g.has_tok = has; g.tok = tok;
    uint64_t chs = c.t.below(0);                        // the same splitting both times
    auto plan = [&](const GTx &gg) { Tape t2; t2.tail = true; t2.rng = Rng(chs | 1); Case c2(t2); return kind == 0 ? gen::epk(c2, ep, tok, has) : kind == 1 ? gen::da(c2, disp, 0, ap, tok, has) : kind == 2 ? gen::attest(c2, bx, tok, has) : gen::sign(c2, gg); };
    std::string a, b; unsigned err = 0, n = 0; bool left = false;
    for (int round = 0; round < 2; round++) {
        Session s(c, 0); s.boot(sd, round ? c.t.below(0) : 3);
        try {
            GTx gg = g; if (kind == 3) { gg.att_tok = false; if (!gen::attest_all(s, gg)) return; }
            if (round) {
                GenOpts h; h.big = false; h.few_sizes = true; h.max_in = 1; h.max_out = 2; s.p_reject = 15; s.p_probe = 10; s.probe = gen::probe; s.p_menu = c.t.below(3) ? 0 : 15; unsigned k = c.t.below(4); if (k) gen::history(s, h, k, 60);
                if (c.t.chance(3, 5)) {                 // an operation like the one under test, changed and left unfinished or rejected
                    Plan p; s.p_reject = c.t.below(3) ? 0 : 20; s.p_probe = 0;
                    if (kind == 3) { GTx g2 = gg; g2.has_tok = false; if (c.t.below(3)) { g2.path = gen::addr_path(c, 59); if (c.t.below(2)) g2.net ^= 0x10; } if (c.t.below(3) == 0 && g2.out.size() > 1) std::swap(g2.out[0], g2.out[c.t.below(g2.out.size())]); p = gen::sign(c, g2, c.t.below(2)); }
                    else { Box b2 = bx; if (c.t.below(2)) b2.value = c.t.u64(); if (c.t.below(2) && b2.tokens.size() > 1) b2.tokens.resize(1); p = gen::attest(c, b2, 0, false); }
                    if (c.t.below(3) == 0) gen::mutate(c, p, s);
                    s.run(p, 0, c.t.below(3) ? p.size() - c.t.below(std::min<size_t>(p.size(), 4)) : c.t.below(p.size() + 1)); left = true;
                }
                err = s.n_err; n = s.n_ok + s.n_ui; s.p_reject = 0; s.p_probe = 0; if (s.ui_open) s.answer(true);
                if (s.m.token == tok) return;
            }
            s.p_menu = round && s.p_menu ? 30 : 0; s.mask = ~0ull; s.tracing = true; s.trace.clear(); bool r = s.run(plan(gg)); (round ? b : a) = s.trace + (r ? "done" : "refused"); c.count(s.n_ok + s.n_err + s.n_ui);
        } catch (const Diverged &) { c.label("parted from the model"); return; }
    }
    CHECK(a == b, "fresh: %s -- after a history: %s", a.substr(0, 1500).c_str(), b.substr(0, 1500).c_str());
    c.nontrivial = n > 0; if (err) c.label("history with errors"); if (left) c.label("after an unfinished operation"); c.label(kind == 0 ? "key" : kind == 1 ? "address" : kind == 2 ? "attestation" : "signing");
}
// history including failed platform calls, then the operation under the model
void p_c26_faults(Case &c) {
    GenOpts o; o.big = false; o.few_sizes = true; o.max_in = 1; o.max_out = 2; o.max_tok = 4; o.app_tok = 0; Session s(c, ~0ull); s.boot(gen::seed(c), c.t.below(0));
    try {
        GTx g = gen::tx(c, o); if (!gen::attest_all(s, g)) return; Plan p = c.t.below(3) ? gen::sign(c, g) : gen::attest(c, g.boxes[0], 0, false); Plan raw; uint8_t ses = 0;
        unsigned at = host::fallible_calls + 1 + c.t.below(60); host::fault_hook = [at](const char *) { return host::fallible_calls == at; }; host::fault_trash = c.t.below(2);
        bool hit = false;
        for (auto &st : p) { Apdu a = st.a; if (st.ses) a.p2 = ses; Reply r = dev::send(c, a); if (r.n == 0) { for (int k = 0; k < 60 && !r.n && host::screen.title != "Approve"; k++) r = dev::press(c, 1); if (!r.n) r = dev::press(c, 2); } if (r.n && r.sw == 0x9000 && r.data.size() == 1 && a.p1 == 1) ses = r.data[0]; if (r.n == 0 || r.sw != 0x9000) { hit = true; break; } }
        host::fault_hook = nullptr; if (host::screen != dev::menu) { if (hit) fail("no menu after a failed command"); return; }
        Bytes sd = s.m.seed; auto au = s.m.authentic; s.m = Model(); s.m.seed = sd; s.m.authentic = au; s.ui_open = false;   // nothing else may carry over; no token was used
        bool r = c.t.below(2) ? gen::op_sign(s, o) : gen::op_attest(s, o); c.nontrivial = hit; if (hit) c.label("after a failed platform call"); (void) r;
    } catch (const Diverged &) { c.label("parted from the model"); }
}
