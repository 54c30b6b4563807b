#include "gen.hpp"
namespace gen {
static const uint32_t H = 0x80000000u;
Bytes seed(Case &c) {                                  // a few seeds, so that derived keys are cached
    static std::vector<Bytes> v; if (v.empty()) for (int i = 0; i < 6; i++) { Bytes b(i == 1 ? 16 : 64); Rng r(77 + i); for (auto &x : b) x = r.next() >> 20; v.push_back(b); }
    return host::seed = v[c.t.below(v.size())];            // known to what is generated before the boot
}
static void put(B32 &o, const Bytes &b) { std::copy(b.begin(), b.end(), o.begin()); }
B32 id(Case &c) { B32 r; put(r, c.t.bytes(32)); if (c.t.chance(1, 12)) r.fill(c.t.below(2) ? 0xff : 0); return r; }
std::vector<B32> ids(Case &c, unsigned n) {
    std::vector<B32> v;
    while (v.size() < n) {
        B32 x = id(c);
        if (!v.empty() && c.t.chance(1, 4)) { x = v[c.t.below(v.size())]; x[c.t.below(3) ? c.t.below(32) : (c.t.below(2) ? 31 : 0)] ^= 1u << c.t.below(8); }
        while (std::find(v.begin(), v.end(), x) != v.end()) { for (int i = 0; i < 32; i++) if (++x[i]) break; }
        v.push_back(x);
    }
    return v;
}
uint64_t erg(Case &c) { return c.t.u64(); }
uint32_t app_token(Case &c) { static const uint32_t k[] = {0x12345678, 1, 0xdeadbeef, 0xffffffff, 0x12345679, 0x01000000, 0}; return k[c.t.weighted({6, 3, 3, 2, 2, 2, 2})]; }
static uint32_t step31(Case &c) { switch (c.t.weighted({5, 3, 1, 1, 2})) { case 0: return c.t.below(30); case 1: return c.t.below(1000); case 2: return 0x7fffffff - c.t.below(3); case 3: return c.t.below(H); default: return 1u << c.t.below(31); } }
Path epk_path(Case &c) {
    for (;;) { Path p{H + 44, H + 429}; unsigned n = c.t.weighted({6, 2, 1, 1, 1, 1, 1, 1}) + 1; for (unsigned i = 0; i < n; i++) p.push_back(H | step31(c)); while (ref::path_str(p).size() > 59) p.back() == H ? (void) p.pop_back() : (void) (p.back() = H); return p; }
}
Path addr_path(Case &c, unsigned maxtext) {
    Path p{H + 44, H + 429, H | step31(c), (uint32_t) c.t.below(2)}; unsigned n = c.t.weighted({8, 2, 1, 1, 1, 1}) + 1; for (unsigned i = 0; i < n; i++) p.push_back(step31(c));
    while (ref::path_str(p).size() > maxtext) { if (p.size() > 5) p.pop_back(); else p.back() = 0; }
    return p;
}
Path long_path(Case &c, bool addr) {                   // text length around the sizes of the screen buffers
    size_t want = c.t.below(3) ? 57 + c.t.below(6) : c.t.below(2) ? 67 + c.t.below(6) : 50 + c.t.below(40);
    Path p{H + 44, H + 429, H | (c.t.below(2) ? (uint32_t) c.t.below(10) : step31(c))}; if (addr) p.push_back(c.t.below(2)); unsigned mark = addr ? 0 : 1;
    while (p.size() < 10) {
        size_t len = ref::path_str(p).size() + 1 + mark; if (len >= want) break;
        size_t d = std::min<size_t>(want - len, 10); if (d == want - len) { } else if (want - len - d < 2 + mark) d -= 2 + mark;
        uint64_t lo = 1; for (size_t i = 1; i < d; i++) lo *= 10; uint64_t v = d == 10 ? 1000000000 + c.t.below(1147483647) : lo == 1 ? c.t.below(10) : lo + c.t.below(lo * 9);
        p.push_back((uint32_t) v | (addr ? 0 : H));
    }
    while (p.size() < (addr ? 5u : 3u)) p.push_back(addr ? 0 : H);
    return p;
}
Path any_path(Case &c) {
    Path p = c.t.below(2) ? epk_path(c) : addr_path(c, 59);
    switch (c.t.below(9)) {
        case 0: break;
        case 1: p[c.t.below(p.size())] ^= H; break;
        case 2: p.resize(c.t.below(p.size() + 1)); break;
        case 3: p[c.t.below(2)] += c.t.below(2) ? 1 : -1; break;
        case 4: p[c.t.below(2)] = c.t.u32(); break;
        case 5: if (p.size() > 3) p[3] = c.t.below(4); break;
        case 6: p.insert(p.begin() + c.t.below(p.size() + 1), c.t.u32() ^ (c.t.below(2) ? H : 0)); break;
        case 7: while (p.size() < 10) p.push_back((p.back() & H) | c.t.below(50)); if (c.t.below(2)) p.push_back(c.t.below(50)); break;
        default: p[c.t.below(p.size())] = c.t.u32() ^ (c.t.below(2) ? H : 0); break;
    }
    return p;
}
size_t size(Case &c, const GenOpts &o) {
    switch (c.t.weighted({10, 6, 3, 2, o.big ? 1u : 0u})) {
        case 0: return 1 + c.t.below(60);
        case 1: return 1 + c.t.below(300);
        case 2: { static const size_t k[] = {254, 255, 256, 257, 509, 510, 511, 127, 128, 129, 1}; return k[c.t.below(o.few_sizes ? 4 : 11)]; }
        case 3: return 1 + c.t.below(o.few_sizes ? 300 : 1100);
        default: { if (o.few_sizes) return 260; static const size_t k[] = {32768, 32767, 32640, 32641, 4080, 4096, 765, 16384}; return k[c.t.weighted({1, 1, 1, 1, 4, 4, 4, 1})]; }
    }
}
// contents that repeat from chunk to chunk now and then
static Bytes filler(Case &c, size_t n) {
    if (!c.t.chance(1, 6)) return c.t.bytes(n);
    static const unsigned k[] = {1, 255, 2, 32, 510, 200}; Bytes p = c.t.bytes(k[c.t.below(6)]), r(n); for (size_t i = 0; i < n; i++) r[i] = p[i % p.size()];
    if (n && c.t.below(3) == 0) r[c.t.below(n)] ^= 1; return r;
}
// the keys of this device: as the host sees them, just another script
Bytes own_tree(Case &c, const Path &of) {
    uint8_t pk[33]; Path p = of; if (p.size() > 4) switch (c.t.below(4)) { case 0: p[4] = (p[4] + c.t.below(22)) & 0x7fffffff; break; case 1: p[3] ^= 1; break; default: break; }
    ref::pub33(host::seed.empty() ? Bytes(64, 7) : host::seed, p, pk); return ref::p2pk_tree(pk);
}
Bytes tree(Case &c, const GenOpts &o) {
    uint8_t pk[33]; 
    switch (c.t.weighted({6, 5, 2, 3, 1, 1})) {
        case 0: { static const Bytes s0(64, 7); ref::pub33(s0, Path{H + 44, H + 429, H, 0, (uint32_t) c.t.below(40)}, pk); return ref::p2pk_tree(pk); }
        case 1: return filler(c, size(c, o));
        case 2: { Bytes h = c.t.bytes(24); return ref::p2sh_tree(h.data()); }
        case 3: {                                      // close to a special form
            Bytes h = c.t.bytes(33), b = c.t.below(2) ? ref::p2sh_tree(h.data()) : ref::p2pk_tree((h[0] = 2 | (h[0] & 1), h.data()));
            switch (c.t.below(4)) {
                case 0: b[c.t.below(b.size())] ^= 1u << c.t.below(8); break;
                case 1: b.pop_back(); break;
                case 2: b.push_back(c.t.below(256)); break;
                default: b[c.t.below(std::min<size_t>(b.size(), 4))] = c.t.below(256); break;
            }
            return b;
        }
        case 4: return ref::fee_tree;
        default: { Bytes b = c.t.below(2) ? ref::fee_tree : ref::p2sh_tree(c.t.bytes(24).data()); b += c.t.bytes(1 + c.t.below(400)); return b; }
    }
}
Bytes regs(Case &c, const GenOpts &o, bool ext) {
    if (!c.t.chance(2, 5)) return Bytes();
    size_t n = size(c, o); if (ext && n < 2) n = 2; return filler(c, n);
}
static uint64_t amount(Case &c, const GenOpts &o) { return o.extreme ? c.t.u64() : c.t.chance(1, 6) ? c.t.u64() >> c.t.below(30) : c.t.below(1000000); }
Box box(Case &c, const GenOpts &o, const std::vector<B32> &pool) {
    Box b; b.value = c.t.u64(); b.tree = tree(c, o); b.height = c.t.u32(); b.regs = regs(c, o); put(b.txid, c.t.bytes(32)); b.index = c.t.u16();
    unsigned n = std::min<size_t>(pool.size(), c.t.weighted({6, 4, 3, 2, 2, 2, 1, 1}) == 7 ? c.t.below(21) : c.t.below(7));
    std::vector<unsigned> ix(pool.size()); for (unsigned i = 0; i < ix.size(); i++) ix[i] = i;
    for (unsigned i = 0; i < n; i++) { std::swap(ix[i], ix[i + c.t.below(ix.size() - i)]); b.tokens.push_back({pool[ix[i]], amount(c, o)}); }
    return b;
}
static Output output(Case &c, const GenOpts &o, const GTx &g, const std::vector<Output> &prev) {
    Output q; q.height = c.t.u32(); q.value = c.t.u64();
    switch (c.t.weighted({5, 3, 4})) {
        case 0: q.kind = Output::TREE; q.tree = tree(c, o); if (c.t.chance(1, 40)) q.tree.clear(); break;
        case 1: q.kind = Output::FEE; break;
        default: {
            q.kind = Output::CHANGE; Path p;
            switch (c.t.weighted({5, 3, 2, 1})) {
                case 0: p = Path(g.path.begin(), g.path.begin() + 5); p[4] = c.t.weighted({3, 1}) == 0 ? (p[4] + c.t.below(23)) & 0x7fffffff : step31(c); if (c.t.chance(1, 4)) p[3] ^= 1; if (c.t.chance(1, 5)) p[2] = H | ((p[2] + 1 + c.t.below(3)) & 0x7fffffff); if (c.t.chance(1, 8)) p.push_back(c.t.below(20)); break;
                case 1: p = c.t.chance(1, o.unshowable ? 4 : 12) ? long_path(c, true) : addr_path(c, 69); break;
                case 2: { std::vector<Path> ps; for (auto &x : prev) if (x.kind == Output::CHANGE) ps.push_back(x.path); if (ps.empty()) p = addr_path(c, 69); else { p = ps[c.t.below(ps.size())]; unsigned k = c.t.below(5); if (k == 1) p[4] ^= 1u << c.t.below(31); else if (k == 2) p[2] ^= 1u << c.t.below(31); else if (k == 3) p[3] ^= 1; } break; }
                default: p = g.path; break;
            }
            while (ref::path_str(p).size() > (o.unshowable ? 999 : 69)) p.pop_back();
            q.path = p;
        }
    }
    q.regs = regs(c, o);
    return q;
}
// only the request to sign: path, network, application
GTx request(Case &c) { GTx g; g.path = addr_path(c, 59); g.net = c.t.below(2) ? 0x10 : 0; g.has_tok = c.t.chance(1, 4); if (g.has_tok) { g.tok = app_token(c); g.att_tok = c.t.chance(2, 3); } return g; }
GTx tx(Case &c, const GenOpts &o) {
    GTx g; g.path = addr_path(c, 59); if (c.t.chance(1, 30)) { g.path = long_path(c, true); while (ref::path_str(g.path).size() > 59) g.path.pop_back(); } g.net = c.t.below(2) ? 0x10 : 0; g.has_tok = c.t.chance(o.app_tok, 100); g.tok = g.has_tok ? app_token(c) : 0; g.att_tok = g.has_tok && c.t.below(2);
    unsigned npool = c.t.weighted({2, 6, 1}) == 2 ? 20 : c.t.below(o.max_tok + 1);
    std::vector<B32> pool = ids(c, npool);
    unsigned ndecl = npool ? c.t.below(npool + 1) : 0;
    g.tokens.assign(pool.begin(), pool.begin() + ndecl);
    unsigned nbox = 1 + c.t.below(o.max_in);
    for (unsigned i = 0; i < nbox; i++) g.boxes.push_back(box(c, o, pool));
    unsigned nin = nbox; if (o.big && c.t.chance(1, 60)) nin = 120 + c.t.below(160); else if (c.t.chance(1, 12)) nin += 1 + c.t.below(2);
    // the totals must be representable
    __int128 sum = 0; std::vector<__int128> net(npool, 0); auto idx = [&](const B32 &t) { return std::find(pool.begin(), pool.end(), t) - pool.begin(); };
    for (unsigned i = 0; i < nin; i++) {
        unsigned b = i < nbox ? i : c.t.below(nbox); g.in.push_back(b); g.ext.push_back(nin > 20 ? Bytes() : regs(c, o, true));
        if (i < nbox) {
            Box &x = g.boxes[b]; if (nin > nbox) { x.value >>= 10; for (auto &t : x.tokens) t.amount >>= 10; }
            if (sum + x.value > UINT64_MAX) x.value = c.t.below(3) ? (uint64_t) (UINT64_MAX - sum) : 0;
            for (auto &t : x.tokens) { __int128 room = (__int128) INT64_MAX - net[idx(t.id)]; if (t.amount > room) t.amount = c.t.below(3) ? (uint64_t) room : 0; }
        }
        sum += g.boxes[b].value; for (auto &t : g.boxes[b].tokens) net[idx(t.id)] += t.amount;
    }
    bool over = false; if (sum > UINT64_MAX) over = true; for (auto &n : net) if (n > INT64_MAX) over = true;
    if (over) { while (g.in.size() > nbox) { g.in.pop_back(); g.ext.pop_back(); } sum = 0; for (auto &n : net) n = 0; for (unsigned b : g.in) { sum += g.boxes[b].value; for (auto &t : g.boxes[b].tokens) net[idx(t.id)] += t.amount; } }
    // the id of an input turns up again: as a new token's, as a data input's
    B32 first = ref::box_id(g.boxes[g.in[c.t.below(3) ? 0 : c.t.below(g.in.size())]]);
    if (npool < 20 && c.t.chance(1, 10) && std::find(pool.begin(), pool.end(), first) == pool.end()) { pool.insert(pool.begin() + ndecl, first); net.insert(net.begin() + ndecl, 0); g.tokens.push_back(first); npool++; ndecl++; }
    unsigned nd = o.big && c.t.chance(1, 50) ? 120 + c.t.below(180) : c.t.below(o.max_data + 1); for (unsigned i = 0; i < nd; i++) g.data.push_back(!c.t.chance(1, 8) ? id(c) : g.data.empty() || c.t.below(2) ? first : g.data[c.t.below(g.data.size())]);
    unsigned no = 1 + c.t.below(o.max_out); if (o.big && c.t.chance(1, 80)) no = 120 + c.t.below(40);
    bool many = no > 20; GenOpts oo = o; if (many) { oo.big = false; oo.few_sizes = true; }
    __int128 left = sum; bool balance = c.t.chance(1, 2);
    for (unsigned i = 0; i < no; i++) {
        Output q = output(c, oo, g, g.out);
        if (!many && i && c.t.chance(1, 10)) { q = g.out[c.t.below(2) ? i - 1 : c.t.below(i)]; q.tokens.clear(); if (c.t.below(2)) q.height = c.t.u32(); }
        else if (q.kind == Output::TREE && c.t.chance(1, 7)) { std::vector<Path> ps{g.path}; for (auto &x : g.out) if (x.kind == Output::CHANGE) ps.push_back(x.path); q.tree = own_tree(c, ps[c.t.below(ps.size())]); }
        if (many && i + 3 < no && q.kind == Output::TREE) q.kind = Output::FEE, q.tree.clear();
        if (q.kind != Output::TREE) { if (q.value > left) q.value = c.t.below(4) == 3 ? (uint64_t) left : left ? c.t.below((uint64_t) std::min<__int128>(left, UINT64_MAX)) : 0; left -= q.value; }
        unsigned nt = ndecl ? c.t.weighted({3, 3, 2, 1}) == 3 ? ndecl : c.t.below(std::min(ndecl, 5u) + 1) : 0; if (many) nt = std::min(nt, 1u);
        std::vector<unsigned> ix(ndecl); for (unsigned k = 0; k < ndecl; k++) ix[k] = k;
        for (unsigned k = 0; k < nt; k++) {
            std::swap(ix[k], ix[k + c.t.below(ndecl - k)]); uint64_t a = amount(c, o); __int128 room = net[ix[k]] - (__int128) INT64_MIN;
            if (balance && net[ix[k]] > 0 && c.t.below(2)) a = (uint64_t) net[ix[k]];
            if (c.t.chance(1, 10)) a = 0;
            if (a > room) a = (uint64_t) room;
            net[ix[k]] -= a; q.tokens.push_back({ix[k], a});
        }
        g.out.push_back(q);
    }
    g.frames.resize(g.boxes.size());
    return g;
}
static Step st(uint8_t ins, uint8_t p1, uint8_t p2, const Bytes &d, const char *w, bool ses = false) { Step s; s.a.ins = ins; s.a.p1 = p1; s.a.p2 = p2; s.a.data = d; s.ses = ses; s.what = w; return s; }
Plan epk(Case &, const Path &p, uint32_t tok, bool has) { return {st(0x10, has ? 2 : 1, 0, ref::path_bytes(p) + (has ? be(tok, 4) : Bytes()), "key")}; }
Plan da(Case &, bool display, uint8_t net, const Path &p, uint32_t tok, bool has) { return {st(0x11, display ? 2 : 1, has ? 2 : 1, Bytes{net} + ref::path_bytes(p) + (has ? be(tok, 4) : Bytes()), "address")}; }
// splits data into chunks; fixed: all but the last have 255 bytes; unit: items of this size stay whole
static void chunks(Case &c, Plan &p, uint8_t ins, uint8_t p1, const Bytes &d, size_t unit, bool fixed, const char *w, bool simple) {
    size_t at = 0, max = 255 / unit * unit; unsigned style = simple || fixed ? 0 : c.t.weighted({4, 2, 2, 2}); unsigned empties = 0;
    if (d.empty()) { p.push_back(st(ins, p1, 0, Bytes(), w, true)); return; }
    if (d.size() / unit > 60 && style == 1) style = 2;
    while (at < d.size()) {
        size_t n = std::min(max, d.size() - at);
        if (style == 1) n = std::min(n, unit); else if (style >= 2) n = std::min(n, unit * (1 + c.t.below(max / unit)));
        if (style == 3 && c.t.chance(1, 8) && empties++ < 3) n = 0;
        p.push_back(st(ins, p1, 0, Bytes(d.begin() + at, d.begin() + at + n), w, true)); at += n;
    }
}
Plan attest(Case &c, const Box &b, uint32_t tok, bool has, bool get, bool simple) {
    Plan p; Bytes d(b.txid.begin(), b.txid.end());
    d += be(b.index, 2) + be(b.value, 8) + be(b.tree.size(), 4) + be(b.height, 4) + Bytes{(uint8_t) b.tokens.size()} + be(b.regs.size(), 4); if (has) d += be(tok, 4);
    p.push_back(st(0x20, 1, has ? 2 : 1, d, "box start"));
    chunks(c, p, 0x20, 2, b.tree, 1, true, "box tree", simple);
    if (!b.tokens.empty()) { Bytes t; for (auto &x : b.tokens) t += Bytes(x.id.begin(), x.id.end()) + be(x.amount, 8); chunks(c, p, 0x20, 3, t, 40, false, "box tokens", simple); }
    if (!b.regs.empty()) chunks(c, p, 0x20, 4, b.regs, 1, false, "box registers", simple);
    if (get) {
        unsigned n = b.tokens.empty() ? 1 : (b.tokens.size() + 3) / 4;
        if (!simple && c.t.chance(1, 4)) { unsigned k = 1 + c.t.below(8); for (unsigned i = 0; i < k; i++) p.push_back(st(0x20, 5, 0, Bytes{(uint8_t) c.t.below(n)}, "frame", true)); }
        for (unsigned i = 0; i < n; i++) p.push_back(st(0x20, 5, 0, Bytes{(uint8_t) i}, "frame", true));
    }
    return p;
}
Plan sign(Case &c, const GTx &g, bool confirm, bool simple) {
    Plan p; p.push_back(st(0x21, 1, g.has_tok ? 2 : 1, Bytes{g.net} + ref::path_bytes(g.path) + (g.has_tok ? be(g.tok, 4) : Bytes()), "sign start"));
    p.push_back(st(0x21, 0x10, 0, be(g.in.size(), 2) + be(g.data.size(), 2) + Bytes{(uint8_t) g.tokens.size()} + be(g.out.size(), 2), "tx start", true));
    Bytes t; for (auto &x : g.tokens) t += Bytes(x.begin(), x.end());
    if (!g.tokens.empty()) chunks(c, p, 0x21, 0x11, t, 32, false, "token ids", simple);
    for (size_t i = 0; i < g.in.size(); i++) {
        const auto &fr = g.frames[g.in[i]];
        for (size_t k = 0; k < fr.size(); k++) p.push_back(st(0x21, 0x12, 0, fr[k] + (k ? Bytes() : be(g.ext[i].size(), 4)), "input frame", true));
        if (!g.ext[i].empty()) chunks(c, p, 0x21, 0x13, g.ext[i], 1, false, "extension", simple);
    }
    if (!g.data.empty()) { Bytes d; for (auto &x : g.data) d += Bytes(x.begin(), x.end()); chunks(c, p, 0x21, 0x14, d, 32, false, "data inputs", simple); }
    for (auto &o : g.out) {
        p.push_back(st(0x21, 0x15, 0, be(o.value, 8) + be(o.kind == Output::TREE ? o.tree.size() : 0, 4) + be(o.height, 4) + Bytes{(uint8_t) o.tokens.size()} + be(o.regs.size(), 4), "output", true));
        if (o.kind == Output::TREE) chunks(c, p, 0x21, 0x16, o.tree, 1, true, "output tree", simple);
        else if (o.kind == Output::FEE) p.push_back(st(0x21, 0x17, 0, Bytes(), "fee tree", true)); else p.push_back(st(0x21, 0x18, 0, ref::path_bytes(o.path), "change tree", true));
        if (!o.tokens.empty()) { Bytes d; for (auto &x : o.tokens) d += be(x.first, 4) + be(x.second, 8); chunks(c, p, 0x21, 0x19, d, 12, false, "output tokens", simple); }
        if (!o.regs.empty()) chunks(c, p, 0x21, 0x1A, o.regs, 1, false, "output registers", simple);
    }
    if (confirm) p.push_back(st(0x21, 0x20, 0, Bytes(), "confirm", true));
    return p;
}
bool attest_all(Session &s, GTx &g) {
    for (size_t i = 0; i < g.boxes.size(); i++) {
        bool same = g.has_tok && g.tok && g.att_tok;
        Plan p = attest(s.c, g.boxes[i], same ? g.tok : 0, same, false);
        if (!s.run(p)) return false;
        unsigned n = g.boxes[i].tokens.empty() ? 1 : (g.boxes[i].tokens.size() + 3) / 4;
        g.frames[i].clear();
        for (unsigned k = 0; k < n; k++) { if (!s.exec(st(0x20, 5, 0, Bytes{(uint8_t) k}, "frame", true))) return false; g.frames[i].push_back(s.last_frame); }
    }
    return true;
}
Apdu mangle(Case &c, Apdu a) {
    switch (c.t.below(8)) {
        case 0: if (!a.data.empty()) a.data.resize(c.t.below(a.data.size())); break;
        case 1: { size_t n = 1 + c.t.below(4); Bytes x = c.t.bytes(n); if (a.data.size() + n <= 255) a.data += x; break; }
        case 2: if (!a.data.empty()) a.data[c.t.below(a.data.size())] ^= 1u << c.t.below(8); break;
        case 3: if (!a.data.empty()) a.data[c.t.below(a.data.size())] = c.t.u64(); break;
        case 4: a.p1 = c.t.u64(); break;
        case 5: a.p2 = c.t.u64(); break;
        case 6: if (!a.data.empty()) a.data.pop_back(); break;
        default: if (a.data.size() >= 4) { size_t at = c.t.below(a.data.size() - 3); uint32_t v = c.t.u32(); for (int i = 0; i < 4; i++) a.data[at + i] = v >> (24 - 8 * i); } break;
    }
    return a;
}
Apdu junk(Case &c, Session &s) {
    Apdu a;
    if (c.t.chance(1, 20)) a.cla = c.t.u64();
    static const uint8_t ins[] = {0x21, 0x20, 0x10, 0x11, 1, 2}; a.ins = c.t.chance(1, 20) ? c.t.u64() : ins[c.t.weighted({6, 4, 2, 2, 1, 1})];
    a.p1 = a.ins == 0x21 ? (c.t.chance(1, 12) ? c.t.u64() : c.t.chance(1, 8) ? 1 : c.t.chance(1, 8) ? 0x20 : 0x10 + c.t.below(11)) : a.ins == 0x20 ? 1 + c.t.below(6) : c.t.below(4);
    a.p2 = c.t.weighted({5, 3, 1, 1}) == 0 ? s.m.session : c.t.below(2) ? 1 + c.t.below(2) : c.t.u64();
    switch (c.t.below(4)) {
        case 0: break;
        case 1: a.data = ref::path_bytes(any_path(c)); break;
        case 2: a.data = c.t.bytes(c.t.below(256)); break;
        default: a.data = Bytes(c.t.below(256), (uint8_t) c.t.u64()); break;
    }
    if (a.data.size() > 255) a.data.resize(255);
    return a;
}
// the id of the session that is open or, while it waits for approval or after it was refused, the id it has got or would have got
static uint8_t likely_id(Session &s) { if (host::last_byte && s.c.t.chance(2, 5)) return host::last_byte; return s.m.session ? s.m.session : 1; }
Apdu probe(Session &s) {
    Case &c = s.c; GenOpts o;
    switch (c.t.below(7)) {
        case 0: { Apdu a; a.ins = 1 + c.t.below(2); return a; }
        case 1: return epk(c, epk_path(c), app_token(c), c.t.below(2))[0].a;
        case 2: return da(c, c.t.below(2), 0, addr_path(c, 59), app_token(c), c.t.below(2))[0].a;
        case 3: { Box b = box(c, o, {}); return attest(c, b, s.m.token, c.t.below(2), false, true)[0].a; }
        case 4: { Apdu a; a.ins = 0x21; a.p1 = c.t.below(3) == 0 ? 0x20 : 0x10 + c.t.below(11); a.p2 = likely_id(s); a.data = c.t.bytes(c.t.below(60)); return a; }
        case 5: { Apdu a; a.ins = 0x20; a.p1 = 1 + c.t.below(5); a.p2 = likely_id(s); a.data = c.t.bytes(c.t.below(60)); return a; }
        default: return junk(c, s);
    }
}
void mutate(Case &c, Plan &p, Session &s) {
    if (p.empty()) return;
    size_t i = c.t.below(p.size());
    switch (c.t.below(16)) {
        case 0: p.erase(p.begin() + i); break;                                             // left out
        case 1: p.insert(p.begin() + i, p[i]); break;                                      // twice
        case 2: { size_t j = c.t.below(p.size()); std::swap(p[i], p[j]); break; }
        case 3: { size_t j = c.t.below(p.size()); Step x = p[j]; p.insert(p.begin() + i, x); break; }   // a step of elsewhere
        case 4: if (i + 1 < p.size()) std::swap(p[i], p[i + 1]); break;
        case 5: case 6: case 7: p[i].a = mangle(c, p[i].a); break;
        case 8: p[i].ses = false; p[i].a.p2 = s.m.session ^ (1u << c.t.below(8)); break;
        case 9: { Step x; x.a = junk(c, s); p.insert(p.begin() + i, x); break; }
        case 10: {                                                                          // declared numbers changed
            for (size_t k = 0; k < p.size(); k++) { size_t j = (i + k) % p.size(); Apdu &a = p[j].a; bool start = a.ins == 0x21 && (a.p1 == 0x10 || a.p1 == 0x15), bx = a.ins == 0x20 && a.p1 == 1;
                if (!start && !bx) continue;
                if (a.p1 == 0x10 && a.data.size() == 7) { static const int at[] = {1, 3, 4, 6}; a.data[at[c.t.below(4)]] += c.t.below(2) ? 1 : -1; }
                else if (a.p1 == 0x15 && a.data.size() == 21) { static const int at[] = {11, 16, 20, 10, 19}; a.data[at[c.t.below(5)]] += c.t.below(2) ? 1 : -1; }
                else if (bx && a.data.size() >= 55) { static const int at[] = {45, 50, 54, 44, 53}; a.data[at[c.t.below(5)]] += c.t.below(2) ? 1 : -1; }
                break; }
            break;
        }
        case 11: {                                                                          // output destination of another kind
            for (size_t k = 0; k < p.size(); k++) { size_t j = (i + k) % p.size(); Apdu &a = p[j].a; if (a.ins != 0x21 || a.p1 < 0x16 || a.p1 > 0x18) continue;
                unsigned w = c.t.below(3); a.p1 = 0x16 + w; a.data = w == 0 ? (c.t.below(2) ? Bytes() : c.t.bytes(c.t.below(40))) : w == 1 ? Bytes() : ref::path_bytes(addr_path(c, 60)); break; }
            break;
        }
        case 12: if (p.size() > 1) { size_t j = c.t.below(p.size()); if (i > j) std::swap(i, j); p.erase(p.begin() + i, p.begin() + j); } break;
        case 13: { size_t k = 1 + c.t.below(3); for (size_t x = 0; x < k; x++) { Step z; z.a.ins = p[i].a.ins; z.a.p1 = z.a.ins == 0x21 ? 0x10 + c.t.below(11) : 1 + c.t.below(5); z.ses = true; z.a.data = c.t.below(2) ? Bytes() : p[i].a.data; p.insert(p.begin() + i, z); } break; }
        case 14: { Step z; z.a.ins = 0x21; z.a.p1 = 0x20; z.ses = true; p.insert(p.begin() + i, z); break; }
        default: if (!p[i].a.data.empty()) { Bytes &d = p[i].a.data; size_t k = c.t.below(d.size()); Step z = p[i]; z.a.data = Bytes(d.begin() + k, d.end()); d.resize(k); p.insert(p.begin() + i + 1, z); } break;   // chunk split
    }
}
bool op_epk(Session &s, const GenOpts &o) { bool h = s.c.t.chance(o.app_tok, 100); Path p = epk_path(s.c); return s.run(epk(s.c, p, app_token(s.c), h)); }
bool op_da(Session &s, const GenOpts &o) { bool h = s.c.t.chance(o.app_tok, 100); Path p = addr_path(s.c, 59); return s.run(da(s.c, s.c.t.below(2), s.c.t.below(3) ? (s.c.t.below(2) ? 0x10 : 0) : s.c.t.below(253), p, app_token(s.c), h)); }
bool op_attest(Session &s, const GenOpts &o) { Case &c = s.c; bool h = c.t.chance(o.app_tok, 100); Box b = box(c, o, ids(c, c.t.below(21))); return s.run(attest(c, b, app_token(c), h)); }
bool op_sign(Session &s, const GenOpts &o, unsigned mut) {
    GTx g = tx(s.c, o); if (!attest_all(s, g)) return false;
    Plan p = sign(s.c, g); if (mut && s.c.t.chance(mut, 100)) mutate(s.c, p, s);
    return s.run(p);
}
void history(Session &s, const GenOpts &o, unsigned n, unsigned mut) {
    Case &c = s.c;
    for (unsigned i = 0; i < n; i++) {
        bool h = c.t.chance(o.app_tok, 100); Plan p;
        switch (c.t.weighted({3, 3, 4, 4, 2})) {
            case 0: p = epk(c, c.t.chance(mut, 200) ? any_path(c) : epk_path(c), app_token(c), h); break;
            case 1: p = da(c, c.t.below(2), c.t.below(3) ? 0 : c.t.below(256), c.t.chance(mut, 200) ? any_path(c) : addr_path(c, 59), app_token(c), h); break;
            case 2: p = attest(c, box(c, o, ids(c, c.t.below(9))), app_token(c), h); break;
            case 3: { if (c.t.chance(mut, 600)) { GTx g = request(c); g.path = long_path(c, true); p = sign(c, g); p.resize(1 + c.t.below(2)); break; } GTx g = tx(c, o); if (!attest_all(s, g)) return; p = sign(c, g); break; }
            default: { unsigned k = 1 + c.t.below(4); for (unsigned j = 0; j < k; j++) { Step z; z.a = junk(c, s); p.push_back(z); } break; }
        }
        if (c.t.chance(mut, 100)) mutate(c, p, s);
        size_t to = p.size(); if (c.t.chance(mut, 300)) to = c.t.below(p.size() + 1);
        // a refused step does not end the history: the host may carry on
        for (size_t k = 0; k < to; k++) if (!s.exec(p[k]) && !c.t.chance(3, 5)) break;
    }
}
}  // namespace gen
