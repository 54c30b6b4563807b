// C21: a failing platform call never leads to a released result.
#include "checks.hpp"
#include <algorithm>
namespace {
struct Op { unsigned kind; Plan p; GTx g; Tx tx; Path path; std::vector<std::string> names; std::map<Bytes, bool> authentic; Bytes sd; uint64_t rs; };
struct Hook {                                           // which call of which name fails
    static std::map<std::string, std::set<unsigned>> at; static std::map<std::string, unsigned> n; static std::string all; static unsigned all_from; static uint32_t code; static bool trash;   // booting resets the host's own
    static void set() { host::fault_code = code; host::fault_trash = trash; n.clear(); host::fault_log.clear(); host::fault_hook = [](const char *x) { unsigned k = n[x]++; if (all == x && k >= all_from) return true; auto i = at.find(x); return i != at.end() && i->second.count(k) > 0; }; }
    static void off() { at.clear(); all.clear(); host::fault_hook = nullptr; host::fault_trash = false; host::fault_code = 0xFFFFFF85; }
    static void clear() { off(); code = 0xFFFFFF85; trash = false; }
};
std::map<std::string, std::set<unsigned>> Hook::at; std::map<std::string, unsigned> Hook::n; std::string Hook::all; unsigned Hook::all_from; uint32_t Hook::code = 0xFFFFFF85; bool Hook::trash;
struct Off { ~Off() { Hook::clear(); } };
GenOpts small() { GenOpts o; o.big = false; o.few_sizes = true; o.max_in = 2; o.max_out = 2; o.max_tok = 4; o.max_data = 2; o.app_tok = 0; return o; }
// the operation without faults: its platform calls and what it signs
bool clean(Case &c, Op &op, const GenOpts &o, bool simple) {
    op.kind = c.t.weighted({1, 1, 2, 5}); op.sd = gen::seed(c); op.rs = c.t.below(0); Session s(c, 0); s.boot(op.sd, op.rs);
    try {
        switch (op.kind) {
            case 0: op.p = gen::epk(c, gen::epk_path(c), 3, c.t.below(2)); break;
            case 1: op.p = gen::da(c, c.t.below(2), c.t.below(2) ? 0x10 : 0, gen::addr_path(c, 59), 3, c.t.below(2)); break;
            case 2: op.p = gen::attest(c, gen::box(c, o, gen::ids(c, c.t.below(9))), 3, c.t.below(2), true, simple); break;
            default: op.g = gen::tx(c, o); if (!gen::attest_all(s, op.g)) return false; op.authentic = s.m.authentic; op.p = gen::sign(c, op.g, true, simple); break;
        }
        host::fault_hook = [&](const char *n) { op.names.push_back(n); return false; };
        bool r = s.run(op.p); host::fault_hook = nullptr; if (op.kind == 3) { if (!s.n_sig) return false; op.tx = s.last_tx; op.path = s.last_path; }
        if (op.kind == 2) op.authentic = s.m.authentic;
        return r && !op.names.empty();
    } catch (const Diverged &) { host::fault_hook = nullptr; c.label("parted from the model"); return false; }
}
// the operation with the chosen faults, then what the host may try next
bool faulted(Case &c, Op &op, bool after) {
    const Mask mask = ~(M_REFUSE | M(W_NAV) | M(W_MENU) | M(W_SW) | M(R_INFO) | M(NP_OTHER) | M(NP_OUT) | M(NP_TOKEN)); bool hit = false;
    Session s(c, mask); s.boot(op.sd, op.rs); s.m.authentic = op.authentic; Hook::set(); size_t i = 0; bool parted = false;
    auto log = [] { std::string r; for (auto x : host::fault_log) { if (r.size() > 100) break; r += std::string(r.empty() ? "" : ", ") + x; } return r; };
    try { for (; i < op.p.size(); i++) if (!s.exec(op.p[i])) break; }
    catch (const Diverged &) { parted = true; }
    catch (const Failure &f) { std::string l = log(); Hook::clear(); fail("%s (failed: %s)", f.msg.c_str(), l.c_str()); }
    hit = !host::fault_log.empty(); std::string l = log();
    if (parted && !hit) { Hook::clear(); c.label("parted from the model"); return false; }
    if (s.last.n && s.last.sw == 0x9000 && parted) c.label("unspecified answer");
    host::fault_hook = nullptr; Hook::clear();
    if (hit) c.label(parted ? "refused" : "correct all the same");
    uint8_t ses = s.last_session;
    if (parted && op.kind >= 2 && c.t.below(2)) {        // the host carries on, from the failed command or behind it
        c.label("host carried on");
        for (size_t k = i + c.t.below(2); k < op.p.size(); k++) {
            Apdu a = op.p[k].a; if (op.p[k].ses) a.p2 = ses; Reply r = dev::send(c, a); c.count();
            for (int q = 0; q < 70 && !r.n && host::screen.title != "Approve" && r.ui; q++) { r = dev::press(c, 1); r.ui = !r.n; } if (!r.n && r.ui) r = dev::press(c, 2);
            if (r.sw != 0x9000 || !r.n) continue;
            if (op.kind == 3 && r.data.size() == 56) { uint8_t pk[33]; ref::pub33(op.sd, op.path, pk); CHECK(ref::signature_ok(r.data, pk, ref::message(op.tx, op.sd)), "after a failed %s the operation went on to the signature %s, which is not one of this transaction", l.c_str(), hx(r.data).c_str()); }
            if (op.kind == 2 && a.p1 == 5 && r.data.size() > 1) { bool ok = op.authentic.count(r.data); CHECK(ok, "after a failed %s the operation went on to the frame %s", l.c_str(), hx(r.data).c_str()); }
        }
        if (host::screen != dev::menu && op.kind >= 2) { for (int q = 0; q < 70 && host::screen.title != "Reject" && host::screen != dev::menu; q++) dev::press(c, 1); if (host::screen != dev::menu) dev::press(c, 2); }
    }
    if (after && parted) {                               // the device keeps working
        Model m; m.seed = op.sd; m.authentic = op.authentic; s.m = m; s.ui_open = false; s.mask = ~0ull; GenOpts o = small(); o.max_in = 1; o.max_out = 1;
        try { bool r = false; switch (c.t.weighted({1, 1, 1, 1})) { case 0: r = gen::op_epk(s, o); break; case 1: r = gen::op_da(s, o); break; case 2: r = gen::op_attest(s, o); break; default: r = gen::op_sign(s, o); } (void) r; c.label("operation after a failure"); }
        catch (const Diverged &) { c.label("parted from the model"); }
        catch (const Failure &f) { fail("after a failed %s: %s", l.c_str(), f.msg.c_str()); }
    }
    c.count(s.n_ok + s.n_err + s.n_ui); if (hit) c.nontrivial = true;
    return hit;
}
const uint32_t codes[] = {0xFFFFFF85, 0xFFFFFF81, 1, 0xFFFFFF88, 0xFFFFFF41, 0xFFFFFFA2, 0xFFFFFFA3, 0xFFFFFF21};
void pick(Case &c, const Op &op) {
    Hook::code = codes[c.t.below(8)]; Hook::trash = c.t.below(2);
    std::set<std::string> kinds(op.names.begin(), op.names.end()); std::vector<std::string> kv(kinds.begin(), kinds.end());
    unsigned nf = c.t.weighted({6, 2, 1}) + 1; bool keep = c.t.chance(1, 6);
    for (unsigned i = 0; i < nf; i++) {
        std::string n; size_t x; if (c.t.below(2)) { n = kv[c.t.below(kv.size())]; x = c.t.below(std::count(op.names.begin(), op.names.end(), n)); } else { x = c.t.below(op.names.size()); n = op.names[x]; x = std::count(op.names.begin(), op.names.begin() + x, n); }
        if (keep && i == 0) { Hook::all = n; Hook::all_from = x; } else Hook::at[n].insert(x);
    }
    if (nf > 1) c.label("several faults"); if (keep) c.label("lasting fault");
}
}  // namespace
void p_c21_random(Case &c) {
    Off off; dev::exact_buffer = false; Op op; GenOpts o = small(); if (!clean(c, op, o, c.t.below(2))) return;
    unsigned n = 1 + c.t.below(6); for (unsigned i = 0; i < n; i++) { Hook::clear(); pick(c, op); faulted(c, op, c.t.below(2)); }
}
// every platform call of one operation fails once
void p_c21_every(Case &c) {
    Off off; dev::exact_buffer = false; Op op; GenOpts o = small(); o.max_in = 1; if (!clean(c, op, o, true)) return;
    std::map<std::string, unsigned> n; size_t hits = 0; bool trash = c.t.below(2); uint32_t code = codes[c.t.below(8)]; if (op.names.size() > 220) op.names.resize(220);
    for (auto &x : op.names) { Hook::clear(); Hook::code = code; Hook::trash = trash; Hook::at[x].insert(n[x]++); hits += faulted(c, op, c.t.chance(1, 6)); }
    if (hits >= op.names.size()) c.label("operations with every single call failed");
}
// a frame whose authentication code could not be computed is not believed, whatever it carries
void p_c21_forged(Case &c) {
    Off off; dev::exact_buffer = false; Session s(c, M(A_MAC)); GenOpts o = small(); uint8_t fill = c.t.u64(); dev::stack_fill = fill; s.boot(gen::seed(c), c.t.below(0));
    try {
        GTx g = gen::tx(c, o); if (!gen::attest_all(s, g)) { dev::stack_fill = 0xA5; return; }
        Plan p = gen::sign(c, g, true, true); std::vector<size_t> ix; for (size_t i = 0; i < p.size(); i++) if (p[i].a.p1 == 0x12) ix.push_back(i);
        size_t w = c.t.below(ix.size()), at = ix[w]; Bytes &d = p[at].a.data; size_t end = d.size() - (d[33] == 0 ? 4 : 0); bool trash = c.t.below(2); uint8_t v = trash ? 0x5A : c.t.below(2) ? fill : 0;
        std::fill(d.begin() + end - 16, d.begin() + end, v); if (c.t.below(2)) d[34 + c.t.below(8)] ^= 1 << c.t.below(8);
        s.run(p, 0, at); Hook::at["hmac"] = {0}; Hook::trash = trash; Hook::code = codes[c.t.below(8)]; Hook::set(); s.exec(p[at]); c.nontrivial = !host::fault_log.empty(); if (c.nontrivial) c.label("forged frame with a failed computation");
    } catch (const Diverged &) { c.label("parted from the model"); }
    dev::stack_fill = 0xA5;
}
// ---------------------------------------------------------------- C22: the status word of a failed platform call
void p_c22_faults(Case &c) {
    Off off; dev::exact_buffer = false; Op op; GenOpts o = small(); if (!clean(c, op, o, c.t.below(2))) return;
    size_t x = c.t.below(op.names.size()); std::string n = op.names[x]; Hook::clear(); Hook::code = codes[c.t.below(8)]; Hook::at[n].insert(std::count(op.names.begin(), op.names.begin() + x, n));
    Session s(c, 0); s.boot(op.sd, op.rs); s.m.authentic = op.authentic; Hook::set(); size_t i = 0;
    try { for (; i < op.p.size(); i++) if (!s.exec(op.p[i])) break; } catch (const Diverged &) {}
    bool hit = !host::fault_log.empty(); Hook::clear();
    if (!hit || i >= op.p.size() || !s.last.n || s.last.sw == 0x9000) return;
    // the hash of an address, the parts of a signature, keys, and all other hashes have a status word of their own
    const Apdu &q = op.p[i].a; bool key = n == "derive_bip32" || n == "init_private_key" || n == "generate_pair", hash = n == "hash" || n == "hmac" || n.substr(0, 7) == "blake2b" || n.substr(0, 6) == "sha256"; unsigned want = key ? 0xE013 : q.ins == 0x21 && q.p1 == 0x20 ? 0xE017 : q.ins == 0x21 && q.p1 == 1 ? 0xE013 : q.ins == 0x11 || s.browsing ? 0xE016 : hash ? 0xE00F : 0;
    if (want) CHECK(s.last.sw == want && s.last.data.empty(), "a failed %s in command %02x %02x is reported with %04x instead of %04x", n.c_str(), q.ins, q.p1, s.last.sw, want); c.label(n.c_str());
    c.nontrivial = true;
}
