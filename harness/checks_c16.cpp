// C16: nonces come fresh from the random generator, and no key material stays behind. The library "plain" runs on a
// stack of its own (sdk/src/guard.S), so that what a command leaves there can be looked at.
#include "checks.hpp"
#include <functional>
#include <unordered_map>
extern "C" { extern unsigned char G_io_apdu_buffer[]; }
static const size_t IO_SIZE = 260;
#define NOSAN __attribute__((no_sanitize("address")))
typedef prim::U256 U;
static Bytes u_bytes(const U &u) { Bytes b(32); prim::u256_to_be(u, b.data()); return b; }
static std::string at_name(size_t v) { char b[40]; snprintf(b, sizeof b, "+0x%zx", v); return b; }

// Pieces of 12 bytes of secrets, found wherever they are
struct Pieces {
    struct S { Bytes v; std::string name; unsigned op; };
    std::vector<S> secrets; std::unordered_multimap<uint32_t, std::pair<unsigned, unsigned>> by; std::vector<uint64_t> bits = std::vector<uint64_t>(1024, 0);
    static unsigned h(uint32_t x) { return (x * 2654435761u) >> 16; }
    bool add(const Bytes &v, const std::string &name, unsigned op) {
        for (auto &s : secrets) if (s.v == v) { s.op = std::max(s.op, op); return true; }
        static const Bytes n = u_bytes(prim::N); bool any = false;
        for (size_t o = 0; o + 12 <= v.size(); o += 4) {
            bool seen[256] = {}; unsigned d = 0; for (size_t i = 0; i < 12; i++) { d += !seen[v[o + i]]; seen[v[o + i]] = true; }
            if (d < 6 || std::search(n.begin(), n.end(), v.begin() + o, v.begin() + o + 12) != n.end()) continue;
            uint32_t x; memcpy(&x, &v[o], 4); by.insert({x, {(unsigned) secrets.size(), (unsigned) o}}); bits[h(x) >> 6] |= 1ull << (h(x) & 63); any = true;
        }
        if (any) secrets.push_back({v, name, op});
        return any;
    }
    NOSAN const S *find(const uint8_t *lo, const uint8_t *hi, const std::function<bool(const S &)> &judged, size_t *where) const {
        for (const uint8_t *p = lo; p + 12 <= hi; p++) {
            uint32_t x = *(const uint32_t *) p; unsigned k = h(x); if (!(bits[k >> 6] >> (k & 63) & 1)) continue;
            auto r = by.equal_range(x);
            for (auto i = r.first; i != r.second; ++i) { const S &s = secrets[i->second.first]; bool eq = true; for (unsigned j = 4; j < 12 && eq; j++) eq = p[j] == s.v[i->second.second + j]; if (eq && judged(s)) { *where = p - lo; return &s; } }
        }
        return nullptr;
    }
};
// The hardware random generator of a case: what it gave is remembered; requests of 32 bytes may get unusual values
struct Source {
    Rng other{1}, wide{1}; Bytes stream; struct D { size_t at, n; }; std::vector<D> draws; unsigned mode = 0, bad = 0, wides = 0; Bytes lastw; uint64_t sel = 0;
    static Bytes bad_value(Rng &r) {
        Bytes n = u_bytes(prim::N);
        switch (r.next() % 6) { case 0: return Bytes(32, 0); case 1: return n; case 2: return Bytes(32, 0xff);
            case 3: n[31] += 1 + r.next() % 100; return n;
            case 4: { for (int i = 16; i < 32; i++) n[i] = 0xff - (r.next() >> 40) % 60; return n; }
            default: { Bytes v(32, 0xff); for (int i = 17; i < 32; i++) v[i] = r.next() >> 32; return v; } }
    }
    void fill(uint8_t *p, size_t n) {
        Bytes v(n);
        if (n == 32) {
            bool b = false; wides++;
            switch (mode) { case 1: case 2: b = wides <= bad; break; case 3: b = wide.next() % 3 == 0; break; case 4: b = true; break; default: break; }
            if (b) v = bad_value(wide);
            else if (mode == 5 && !lastw.empty() && wide.next() % 3) v = lastw;
            else if (mode == 6 && wide.next() % 2) { v = wide.next() % 2 ? Bytes(32, 0) : u_bytes(prim::N); v[31] = v[31] ? v[31] - 1 - wide.next() % 3 : 1 + wide.next() % 3; }
            else for (auto &x : v) x = wide.next() >> 32;
            if (!b) lastw = v;
        } else for (auto &x : v) x = other.next() >> 32;
        draws.push_back({stream.size(), n}); stream += v; memcpy(p, v.data(), n);
    }
};
static bool in_range(const Bytes &v) { U u = prim::u256_from_be(v.data()); return !prim::u256_is_zero(u) && prim::u256_cmp(u, prim::N) < 0; }
static bool path_of(const Apdu &a, Path &p) {
    size_t at = a.ins == 0x10 ? 0 : a.ins == 0x11 ? 1 : a.ins == 0x21 && a.p1 == 1 ? 1 : a.ins == 0x21 && a.p1 == 0x18 ? 0 : 999;
    if (a.cla != 0xE0 || at >= a.data.size()) return false;
    unsigned n = a.data[at]; if (n == 0 || n > 10 || a.data.size() < at + 1 + 4 * n) return false;
    p.clear(); for (unsigned i = 0; i < n; i++) { const uint8_t *q = &a.data[at + 1 + 4 * i]; p.push_back((uint32_t) q[0] << 24 | q[1] << 16 | q[2] << 8 | q[3]); }
    return true;
}
// Looks at everything the application can have left
struct Watch {
    Case &c; Pieces pc; Source src; unsigned op = 0; bool op_open = false; size_t seen_draws = 0, op_pos = 0, prev_pos = 0; size_t used_to = 0; unsigned n_sig = 0; uint64_t looked = 0; bool after_error = false;
    explicit Watch(Case &cc) : c(cc) {}
    void key(const Bytes &seed, const Apdu &a) { Path p; if (path_of(a, p)) { Bytes d(32); memcpy(d.data(), prim::bip32(seed, p).d, 32); pc.add(d, "the private key of " + ref::path_str(p), 0); } }
    void nonces() {
        for (; seen_draws < src.draws.size(); seen_draws++) { auto &d = src.draws[seen_draws]; if (d.n < 16) continue; Bytes v(src.stream.begin() + d.at, src.stream.begin() + d.at + d.n); if (d.n == 32 && !in_range(v)) continue; pc.add(v, "a nonce", op + 1); }
    }
    // current: the operation draws belong to is still going on
    void look(bool answered, bool current, const Bytes &resp, const char *when) {
        looked++; size_t w = 0; nonces();
        auto any = [](const Pieces::S &) { return true; };
        auto st = dev::used_stack();
        if (auto s = pc.find(st.first, st.second, any, &w)) fail("%s is left on the stack at %s below its top %s", s->name.c_str(), at_name(st.second - st.first - w).c_str() + 1, when);
        if (!resp.empty()) if (auto s = pc.find(resp.data(), resp.data() + resp.size(), any, &w)) fail("%s is part of the answer %s", s->name.c_str(), when);
        if (!answered) return;
        auto judged = [&](const Pieces::S &s) { return s.op == 0 || !current || s.op != op + 1; };
        for (auto &r : lib::regions()) if (auto s = pc.find(r.lo, r.hi, judged, &w)) fail("%s is left in memory at %s %s", s->name.c_str(), at_name(w).c_str(), when);
        if (auto s = pc.find(G_io_apdu_buffer, G_io_apdu_buffer + IO_SIZE, any, &w)) fail("%s is left in the transfer buffer at %s %s", s->name.c_str(), at_name(w).c_str(), when);
    }
    // the nonce of a signature
    void signature(const Bytes &sig, const Bytes &seed, const Path &path) {
        if (sig.size() != 56) return;
        Bytes cb(32, 0); std::copy(sig.begin(), sig.begin() + 24, cb.begin() + 8);
        U ch = prim::u256_from_be(cb.data()), z = prim::u256_from_be(sig.data() + 24), sk = prim::u256_from_be(prim::bip32(seed, path).d);
        U csk = prim::mulmod(ch, sk, prim::N), y = prim::submod(prim::mod(z, prim::N), csk, prim::N); Bytes yb = u_bytes(y);
        CHECK(!prim::u256_is_zero(y), "the signature %s for %s uses the nonce 0", hx(sig).c_str(), ref::path_str(path).c_str());
        auto b = src.stream.begin(); size_t from = std::max(op_pos, used_to); bool old = std::search(b, b + op_pos, yb.begin(), yb.end()) != b + op_pos;
        auto at = std::search(b + from, src.stream.end(), yb.begin(), yb.end());
        CHECK(at != src.stream.end(), "the signature %s for %s uses the nonce %s, %s (drawn in this operation: %s)", hx(sig).c_str(), ref::path_str(path).c_str(), hx(yb).c_str(), old ? "which was drawn for an earlier operation" : "which the random generator never gave", hx(Bytes(b + op_pos, src.stream.end())).substr(0, 600).c_str());
        used_to = at - b + 32; n_sig++;
        bool near = (yb[0] == 0 && yb[1] == 0) || (yb[0] == 0xff && yb[1] == 0xff && yb[14] == 0xff);   // then the product is nearly z, which is public
        if (!near) pc.add(u_bytes(csk), "challenge times private key", 0); pc.add(yb, "a nonce", op + 1);
    }
    void reset_memory() { op++; }
};
static void run_watched(Case &c, const std::function<void(Session &, Watch &)> &f, unsigned mode, unsigned bad) {
    static Watch *W; Watch w(c); W = &w; w.src.mode = mode; w.src.bad = bad; uint64_t sd = c.t.below(0); w.src.other = Rng(sd | 1); w.src.wide = Rng(sd * 3 + 5);
    Session s(c, 0); dev::exact_buffer = false; dev::garbage = 0; dev::stack_fill = 0xA5; std::vector<Session::Ev> ev; s.record = &ev; size_t seen_ev = 0; unsigned sigs = 0;
    s.boot(gen::seed(c), sd, [](uint8_t *p, size_t n) { W->src.fill(p, n); });
    w.seen_draws = w.src.draws.size(); w.prev_pos = w.src.stream.size(); dev::guarded = true;
    s.settled = [&](Session &x) {
        const Session::Ev *e = ev.empty() ? nullptr : &ev.back();
        for (; seen_ev < ev.size(); seen_ev++) if (ev[seen_ev].what == 3) w.key(x.m.seed, ev[seen_ev].a);
        bool start = e && e->what == 3 && e->a.ins == 0x21 && e->a.p1 == 1;
        if (start && ((x.last.n == 0 && x.last.ui) || (x.last.n == 1 && x.last.sw == 0x9000))) { w.nonces(); w.op++; w.op_pos = w.prev_pos; for (auto &q : w.pc.secrets) if (q.op) { if (std::search(w.src.stream.begin() + w.op_pos, w.src.stream.end(), q.v.begin(), q.v.end()) != w.src.stream.end()) q.op = w.op + 1; } }
        if (x.n_sig != sigs) { sigs = x.n_sig; w.signature(x.last_sig, x.m.seed, x.last_path); }
        w.prev_pos = w.src.stream.size();
        char when[120]; snprintf(when, sizeof when, "after %s (answer %04x)", e ? e->what == 3 ? show(e->a).substr(0, 40).c_str() : e->what == 2 ? "the user's answer" : "a button" : "?", x.last.n ? x.last.sw : 0);
        w.look(!x.ui_open, x.m.cmd == Model::SIGN, x.last.n ? x.last.data : Bytes(), when);
        if (x.last.n && x.last.sw != 0x9000) c.label("answers with an error");
    };
    struct Off { ~Off() { dev::guarded = false; dev::garbage = 0xA5; } } off;
    try { f(s, w); } catch (const Diverged &) { c.label("parted from the model"); }
    if (w.n_sig) c.label("signatures"); if (w.n_sig > 1) c.label("several signatures");
    c.nontrivial = c.nontrivial || w.n_sig > 0 || (!w.pc.secrets.empty() && w.looked > 1); c.count(w.looked);
}
static GenOpts small() { GenOpts o; o.big = false; o.few_sizes = true; o.max_in = 1; o.max_out = 2; o.max_tok = 4; o.max_data = 1; o.app_tok = 30; return o; }
void p_c16_nonce(Case &c) {
    static const unsigned bads[] = {98, 99, 100, 101};
    unsigned mode = c.t.weighted({3, 4, 1, 3, 1, 3, 3}), bad = mode == 1 ? 1 + c.t.below(6) : mode == 2 ? bads[c.t.below(4)] : 0;
    run_watched(c, [&](Session &s, Watch &) {
        GenOpts o = small(); o.max_tok = 2; GTx g = gen::tx(c, o); if (!gen::attest_all(s, g)) return;
        unsigned n = 1 + c.t.below(4);
        for (unsigned i = 0; i < n; i++) {
            Plan p = gen::sign(c, g, true, true); size_t to = c.t.below(4) ? p.size() : c.t.below(p.size()); s.run(p, 0, to);
            if (c.t.below(3) == 0) g.path = gen::addr_path(c, 59); if (c.t.below(4) == 0) { g.has_tok = !g.has_tok; g.tok = 7; }
        }
    }, mode, bad);
    if (mode == 1 || mode == 3) c.label("random generator with unusable values"); if (mode == 2 || mode == 4) c.label("random generator with very many unusable values"); if (mode == 5) c.label("random generator repeating itself");
}
void p_c16_memory(Case &c) {
    unsigned mode = c.t.weighted({4, 1, 0, 0, 0, 1}), bad = 1 + c.t.below(3);
    run_watched(c, [&](Session &s, Watch &) {
        GenOpts o = small(); s.p_reject = 12; s.p_probe = 10; s.probe = gen::probe; s.p_wander = 10; s.wander_len = 6; unsigned n = 1 + c.t.below(4);
        for (unsigned i = 0; i < n; i++) switch (c.t.weighted({4, 4, 2, 5})) { case 0: gen::op_epk(s, o); break; case 1: gen::op_da(s, o); break; case 2: gen::history(s, o, 1, 60); break; default: gen::op_sign(s, o, 40); }
    }, mode, bad);
}
// ---- one or two failing platform calls
void p_c16_faults(Case &c) {
    static Watch *W; GenOpts o = small(); o.max_tok = 2; Bytes sd = gen::seed(c); uint64_t rs = c.t.below(0); unsigned kind = c.t.weighted({1, 1, 4});
    struct Off { ~Off() { dev::guarded = false; dev::garbage = 0xA5; host::fault_hook = nullptr; } } off;
    auto power = [&](Watch &w) { W = &w; w.src.other = Rng(rs | 1); w.src.wide = Rng(rs * 3 + 5); dev::guarded = false; dev::boot(sd, rs, [](uint8_t *p, size_t n) { W->src.fill(p, n); }); w.seen_draws = w.src.draws.size(); w.prev_pos = w.src.stream.size(); };
    dev::exact_buffer = false; dev::garbage = 0; dev::stack_fill = 0xA5;
    Watch w0(c); Plan p; GTx g; std::vector<std::string> names; Bytes sig; bool full = true;
    {
        Session s(c, 0); W = &w0; w0.src.other = Rng(rs | 1); w0.src.wide = Rng(rs * 3 + 5); s.boot(sd, rs, [](uint8_t *q, size_t n) { W->src.fill(q, n); });
        try {
            if (kind == 2) { g = gen::tx(c, o); g.has_tok = false; if (!gen::attest_all(s, g)) return; p = gen::sign(c, g, true, true); } else if (kind == 0) p = gen::epk(c, gen::epk_path(c), 1, false); else p = gen::da(c, c.t.below(2), 0, gen::addr_path(c, 59), 1, false);
            w0.op_pos = w0.src.stream.size(); host::fault_hook = [&](const char *n) { names.push_back(n); return false; };
            full = s.run(p); host::fault_hook = nullptr; if (s.n_sig) { sig = s.last_sig; w0.signature(sig, sd, s.last_path); }
        } catch (const Diverged &) { c.label("parted from the model"); return; }
    }
    host::fault_hook = nullptr; if (!full || names.empty()) return;
    std::vector<size_t> keyed; for (size_t i = 0; i < names.size(); i++) if (names[i] != "hash" && names[i] != "blake2b_256" && names[i] != "blake2b_init" && names[i] != "hmac") keyed.push_back(i);
    unsigned runs = 1 + c.t.below(5);
    for (unsigned k = 0; k < runs; k++) {
        Watch w(c); power(w); for (auto &x : w0.pc.secrets) w.pc.add(x.v, x.name, x.op ? 1 : 0); for (auto &st : p) w.key(sd, st.a);
        // which call of which name fails
        static std::map<std::string, std::set<unsigned>> A; static std::map<std::string, unsigned> N; A.clear(); N.clear(); unsigned nf = c.t.chance(1, 4) ? 2 : 1; host::fault_trash = c.t.chance(1, 4);
        for (unsigned i = 0; i < nf; i++) { size_t x = !keyed.empty() && c.t.below(4) ? keyed[c.t.below(keyed.size())] : c.t.below(names.size()); A[names[x]].insert(std::count(names.begin(), names.begin() + x, names[x])); }
        host::fault_hook = [](const char *n) { unsigned k = N[n]++; auto i = A.find(n); return i != A.end() && i->second.count(k); };
        dev::guarded = true; uint8_t ses = 0; bool over = false;
        auto note = [&](const Reply &r, const Apdu &a) { bool ans = r.n > 0; if (ans && r.sw != 0x9000) over = true; if (ans && r.data.size() == 56) over = true; std::string what; for (auto x : host::fault_log) what += std::string(what.empty() ? "" : " and ") + x; char b[160]; snprintf(b, sizeof b, "after %s (answer %04x, failed: %s)", show(a).substr(0, 30).c_str(), ans ? r.sw : 0, what.empty() ? "nothing" : what.c_str()); w.look(ans, a.ins == 0x21 && !over, r.data, b); };
        for (auto &st : p) {
            Apdu a = st.a; if (st.ses) a.p2 = ses; Reply r = dev::send(c, a); note(r, a);
            if (r.n == 0) { for (int q = 0; q < 70 && !r.n && host::screen.title != "Approve"; q++) { r = dev::press(c, 1); note(r, a); } if (!r.n) { r = dev::press(c, 2); note(r, a); } }
            if (r.n && r.sw == 0x9000 && r.data.size() == 1 && a.p1 == 1) ses = r.data[0];
            if (r.n == 0 || r.sw != 0x9000) { if (r.n) c.label("refused after a failed platform call"); break; }
        }
        dev::guarded = false; host::fault_hook = nullptr; c.count(w.looked); if (!host::fault_log.empty()) { c.nontrivial = true; c.label("with failing platform calls"); } 
    }
}
