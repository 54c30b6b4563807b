// Parts that drive buffers, codecs, arithmetic, trees and serialisers directly, through the doors in unit/*.c.
#include "checks.hpp"
#include <functional>
#include <memory>
#include <algorithm>
#include <type_traits>
template <class T> static T door(const char *n) { T f = (T) lib::sym(n); if (!f) throw Discard(); return f; }   // absent: this tree has another interface
#define DOOR(type, name) typedef std::add_pointer_t<type> T_##name; T_##name name = door<T_##name>(#name)
typedef void *V;
static std::string hxs(const Bytes &b) { return b.size() > 40 ? hx(Bytes(b.begin(), b.begin() + 40)) + ".." + std::to_string(b.size()) : hx(b); }
struct Area {                                           // exactly n bytes, with red zones around
    uint8_t *p; size_t n; Area(const Bytes &b) : p((uint8_t *) malloc(b.size())), n(b.size()) { if (n) memcpy(p, b.data(), n); } Area(size_t k, uint8_t f = 0x5a) : Area(Bytes(k, f)) {} ~Area() { free(p); }
    Area(const Area &) = delete; Bytes get() const { return Bytes(p, p + n); }
};
// ---------------------------------------------------------------- C15
static size_t any_size(Case &c, size_t a, size_t b) {  // sizes and offsets around the meaningful ones, and huge ones
    switch (c.t.weighted({5, 4, 3, 2, 3, 2, 2})) {
        case 0: return c.t.below(6); case 1: return a ? c.t.below(a + 2) : c.t.below(2); case 2: return a + c.t.below(3) - 1; case 3: return b + c.t.below(3) - 1;
        case 4: return (size_t) 0 - 1 - c.t.below(40); case 5: return (size_t) 0 - a - 1 + c.t.below(3); default: return c.t.u64();
    }
}
void p_c15_queue(Case &c) {
    DOOR(size_t(), vp_rw_sizeof); DOOR(void(V, uint8_t *, size_t, size_t), vp_rw_init); DOOR(size_t(V, int), vp_rw_get); DOOR(int(V, int, size_t), vp_rw_can); DOOR(int(V, int, size_t), vp_rw_seek);
    DOOR(int(V, int, int, uint64_t), vp_rw_write); DOOR(int(V, int, int, uint64_t *), vp_rw_read); DOOR(int(V, const uint8_t *, size_t), vp_rw_write_bytes); DOOR(int(V, uint8_t *, size_t), vp_rw_read_bytes);
    DOOR(int(V, uint8_t *, size_t), vp_rw_copy_bytes); DOOR(int(V, uint32_t *, size_t), vp_rw_read_path); DOOR(void(V), vp_rw_shift); DOOR(void(V), vp_rw_empty);
    size_t n = c.t.chance(1, 8) ? c.t.below(2000) : c.t.below(48); Bytes m = c.t.bytes(n); size_t r = 0, w = c.t.below(3) ? c.t.below(n + 1) : 0;
    Area a(m); Area hb(vp_rw_sizeof(), 0x77); V b = hb.p; vp_rw_init(b, a.p, n, w); c.note("size %zu data %zu", n, w);
    unsigned steps = 1 + c.t.below(40), ok = 0, refused = 0, shifted = 0;
    for (unsigned i = 0; i < steps; i++) {
        size_t r0 = r, w0 = w; int got = 1, want = 1; bool relax = false; char what[96] = "";
        switch (c.t.weighted({6, 5, 6, 5, 4, 3, 2, 1, 2, 2})) {
            case 0: { static const int W[4] = {8, 16, 32, 64}; int k = W[c.t.below(4)], le = c.t.below(2); uint64_t v = c.t.below(0); snprintf(what, sizeof what, "write %d bits %s", k, le ? "LE" : "BE");
                want = n - w >= (size_t) k / 8; got = vp_rw_write(b, k, le, v); if (want) { Bytes e = be(v, k / 8); if (le) std::reverse(e.begin(), e.end()); std::copy(e.begin(), e.end(), m.begin() + w); w += k / 8; } break; }
            case 1: { size_t k = any_size(c, n - w, n); bool self = c.t.chance(1, 6); snprintf(what, sizeof what, "write %zu bytes%s", k, self ? " of its own" : "");
                want = k <= n - w; if (self && want && r + k <= n) { Bytes e(m.begin() + r, m.begin() + r + k); got = vp_rw_write_bytes(b, a.p + r, k); std::copy(e.begin(), e.end(), m.begin() + w); w += k; break; }
                Bytes e = c.t.bytes(k <= 4096 ? k : 7); Area src(e); got = vp_rw_write_bytes(b, src.p, k); if (want) { std::copy(e.begin(), e.end(), m.begin() + w); w += k; } break; }
            case 2: { static const int W[4] = {8, 16, 32, 64}; int k = W[c.t.below(4)], le = c.t.below(2); uint64_t v = 0; snprintf(what, sizeof what, "read %d bits %s", k, le ? "LE" : "BE");
                want = w - r >= (size_t) k / 8; got = vp_rw_read(b, k, le, &v); if (want && got) { Bytes e(m.begin() + r, m.begin() + r + k / 8); if (le) std::reverse(e.begin(), e.end()); CHECK(be(v, k / 8) == e, "step %u: %s gives %llx instead of %s", i, what, (unsigned long long) v, hx(e).c_str()); r += k / 8; } break; }
            case 3: case 4: { bool peek = c.t.below(2); size_t k = any_size(c, w - r, n); snprintf(what, sizeof what, "%s %zu bytes", peek ? "peek" : "read", k); Area dst(k <= 4096 ? k : 3);
                want = k <= w - r; got = peek ? vp_rw_copy_bytes(b, dst.p, k) : vp_rw_read_bytes(b, dst.p, k);
                if (want && got) { CHECK(dst.get() == Bytes(m.begin() + r, m.begin() + r + k), "step %u: %s gives %s", i, what, hxs(dst.get()).c_str()); if (!peek) r += k; } break; }
            case 5: { int k = c.t.below(6); size_t o = any_size(c, k < 3 ? w - r : n - w, k % 3 == 0 ? (k ? w : r) : n); static const char *N[] = {"read set", "read cur", "read end", "write set", "write cur", "write end"}; snprintf(what, sizeof what, "seek %s %zu", N[k], o);
                unsigned __int128 t = 0;
                switch (k) { case 0: want = o <= w; t = o; break; case 1: t = (unsigned __int128) r + o; want = t <= w; break; case 2: want = o <= w; t = w - o; break;
                    case 3: want = o <= n && o >= r; t = o; break; case 4: t = (unsigned __int128) w + o; want = t <= n; break; default: want = o <= n && n - o >= r; t = n - o; }
                got = vp_rw_seek(b, k, o); if (want) (k < 3 ? r : w) = (size_t) t; break; }
            case 6: { snprintf(what, sizeof what, "shift"); vp_rw_shift(b); if (r) shifted++, relax = true; std::copy(m.begin() + r, m.begin() + w, m.begin()); w -= r; r = 0; break; }
            case 7: { snprintf(what, sizeof what, "empty"); vp_rw_empty(b); r = w = 0; break; }
            case 8: { size_t k = c.t.chance(1, 5) ? any_size(c, (w - r) / 4, 10) : c.t.below(12); snprintf(what, sizeof what, "read path of %zu", k); Bytes z(4 * (k <= 64 ? k : 1)); Area dst(z);
                want = k >= 1 && k <= 10 && 4 * k <= w - r; got = vp_rw_read_path(b, (uint32_t *) dst.p, k);
                if (want && got) { for (size_t j = 0; j < k; j++) { uint32_t x; memcpy(&x, dst.p + 4 * j, 4); CHECK(be(x, 4) == Bytes(m.begin() + r + 4 * j, m.begin() + r + 4 * j + 4), "step %u: %s: element %zu is %08x", i, what, j, x); } r += 4 * k; } break; }
            default: { int wr = c.t.below(2); size_t k = any_size(c, wr ? n - w : w - r, n); snprintf(what, sizeof what, "can %s %zu", wr ? "write" : "read", k); want = 1; CHECK(vp_rw_can(b, wr, k) == (k <= (wr ? n - w : w - r)), "step %u: %s with read %zu write %zu size %zu", i, what, r, w, n); break; }
        }
        c.note("%s:%d", what, want); (want ? ok : refused)++; c.mix(what, strlen(what)); c.mix64(want);
        CHECK(!!got == !!want, "step %u: %s %s with read %zu write %zu size %zu", i, what, got ? "succeeds" : "fails", r0, w0, n);
        CHECK(vp_rw_get(b, 0) == r && vp_rw_get(b, 1) == w, "step %u: %s moves the positions to %zu, %zu instead of %zu, %zu", i, what, vp_rw_get(b, 0), vp_rw_get(b, 1), r, w);
        CHECK(vp_rw_get(b, 2) == w - r && vp_rw_get(b, 3) == n - w, "step %u: after %s lengths are %zu, %zu instead of %zu, %zu", i, what, vp_rw_get(b, 2), vp_rw_get(b, 3), w - r, n - w);
        CHECK(vp_rw_get(b, 4) == (size_t) a.p + r && vp_rw_get(b, 5) == (size_t) a.p + w, "step %u: after %s wrong pointers", i, what);
        if (relax) { Bytes g = a.get(); CHECK(!memcmp(g.data() + r, m.data() + r, w - r), "step %u: shift leaves %s instead of %s", i, hxs(Bytes(g.begin(), g.begin() + w)).c_str(), hxs(Bytes(m.begin(), m.begin() + w)).c_str()); m = g; }
        else CHECK(a.get() == m, "step %u: %s leaves %s instead of %s", i, what, hxs(a.get()).c_str(), hxs(m).c_str());
    }
    c.count(steps); c.nontrivial = ok > 1 && refused > 0; if (shifted) c.label("shifted unread bytes");
}
void p_c15_reader(Case &c) {
    DOOR(size_t(), vp_buf_sizeof); DOOR(void(V, const uint8_t *, size_t), vp_buf_init); DOOR(size_t(V, int), vp_buf_get); DOOR(int(V, int, uint8_t *, size_t), vp_buf_bytes);
    size_t n = c.t.below(60); Bytes m = c.t.bytes(n); Area a(m), hb(vp_buf_sizeof(), 0x77); V b = hb.p; vp_buf_init(b, a.p, n); size_t r = 0; unsigned ok = 0, refused = 0, steps = 1 + c.t.below(20);
    for (unsigned i = 0; i < steps; i++) {
        bool eat = c.t.below(2); size_t k = any_size(c, n - r, n); Area dst(k <= 4096 ? k : 3); bool want = k <= n - r; bool got = vp_buf_bytes(b, eat, dst.p, k); c.note("%s %zu:%d", eat ? "read" : "peek", k, want); c.mix64(k); c.mix64(want);
        CHECK(got == want, "step %u: %s of %zu bytes %s with %zu left", i, eat ? "read" : "peek", k, got ? "succeeds" : "fails", n - r);
        if (want) { ok++; CHECK(dst.get() == Bytes(m.begin() + r, m.begin() + r + k), "step %u: wrong bytes", i); if (eat) r += k; } else { refused++; CHECK(k > 4096 || dst.get() == Bytes(k, 0x5a), "step %u: refused read wrote to the destination", i); }
        CHECK(vp_buf_get(b, 0) == n - r && vp_buf_get(b, 1) == (size_t) a.p + r && vp_buf_get(b, 2) == r, "step %u: wrong position", i);
    }
    CHECK(a.get() == m, "reading changed the data"); c.count(steps); c.nontrivial = ok && refused;
}
// ---------------------------------------------------------------- C13
static const char *KIND[8] = {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64"};
static uint64_t value_of(Case &c, int k) {             // a value of the kind, sign-extended
    unsigned bits = 8 << (k / 2); bool sg = k & 1; uint64_t v;
    switch (c.t.weighted({4, 4, 3, 3})) {
        case 0: v = c.t.u64(); break;
        case 1: { unsigned s = 7 * (1 + c.t.below(9)); v = (1ull << s) + c.t.below(3) - 1; if (sg) { v = v >> 1; if (c.t.below(2)) v = -v - c.t.below(2); } break; }   // where another byte begins
        case 2: v = sg ? (c.t.below(2) ? (1ull << (bits - 1)) - 1 - c.t.below(3) : -(1ull << (bits - 1)) + c.t.below(3)) : (bits == 64 ? 0 : 1ull << bits) - 1 - c.t.below(3); break;
        default: { unsigned s = c.t.below(64); v = (c.t.below(0) >> s); if (sg && c.t.below(2)) v = -v; break; }
    }
    if (bits < 64) v = sg ? (uint64_t) ((int64_t) (v << (64 - bits)) >> (64 - bits)) : v & ((1ull << bits) - 1);
    return v;
}
static Bytes encoded(int k, uint64_t v) {
    switch (k) { case 0: case 1: return {(uint8_t) v}; case 2: case 4: case 6: return ref::vlq(v); case 3: return ref::vlq(ref::zigzag32((int16_t) v)); 
        case 5: return ref::vlq((uint64_t) (int64_t) (int32_t) ref::zigzag32((int32_t) v)); default: return ref::vlq(ref::zigzag64((int64_t) v)); }
}
void p_c13_roundtrip(Case &c) {
    DOOR(size_t(), vp_rw_sizeof); DOOR(void(V, uint8_t *, size_t, size_t), vp_rw_init); DOOR(size_t(V, int), vp_rw_get); DOOR(int(V, int, uint64_t), vp_gve_put); DOOR(int(V, int, uint64_t *), vp_gve_get); DOOR(uint64_t(int, int64_t), vp_zz_enc); DOOR(int64_t(int, uint64_t), vp_zz_dec);
    unsigned n = 1 + c.t.below(8); std::vector<std::pair<int, uint64_t>> vs; Bytes all; std::vector<size_t> at;
    for (unsigned i = 0; i < n; i++) { int k = c.t.below(8); uint64_t v = value_of(c, k); vs.push_back({k, v}); at.push_back(all.size()); all += encoded(k, v); c.note("%s %lld", KIND[k], (long long) v); c.mix64(v); c.mix64(k); }
    size_t lead = c.t.below(5), room; switch (c.t.below(4)) { case 0: room = all.size(); break; case 1: room = c.t.below(all.size() + 1); break; case 2: room = all.size() - 1 - c.t.below(std::min<size_t>(all.size(), 10)); break; default: room = all.size() + c.t.below(12); }
    Bytes m = c.t.bytes(lead + room); Area a(m), hb(vp_rw_sizeof(), 0x77); V b = hb.p; vp_rw_init(b, a.p, a.n, lead); size_t w = lead; bool refused = false; std::vector<std::pair<int, uint64_t>> done;
    for (auto &x : vs) {
        Bytes e = encoded(x.first, x.second); bool want = e.size() <= a.n - w, got = vp_gve_put(b, x.first, x.second);
        CHECK(got == want, "writing %s %lld (%zu bytes) into %zu bytes %s", KIND[x.first], (long long) x.second, e.size(), a.n - w, got ? "succeeds" : "fails");
        if (want) { std::copy(e.begin(), e.end(), m.begin() + w); w += e.size(); done.push_back(x); } else refused = true;
        CHECK(a.get() == m && vp_rw_get(b, 1) == w && vp_rw_get(b, 0) == 0, "writing %s %lld leaves %s at %zu instead of %s at %zu", KIND[x.first], (long long) x.second, hxs(a.get()).c_str(), vp_rw_get(b, 1), hxs(m).c_str(), w);
    }
    // read everything back, from exactly these bytes
    Area a2(Bytes(m.begin() + lead, m.begin() + w)); vp_rw_init(b, a2.p, a2.n, a2.n); size_t r = 0;
    for (auto &x : done) { uint64_t v = ~x.second; size_t l = encoded(x.first, x.second).size(); CHECK(vp_gve_get(b, x.first, &v), "%s %lld cannot be read back", KIND[x.first], (long long) x.second); CHECK(v == x.second, "%s %lld is read back as %lld", KIND[x.first], (long long) x.second, (long long) v); r += l; CHECK(vp_rw_get(b, 0) == r, "reading %s %lld consumes up to %zu instead of %zu", KIND[x.first], (long long) x.second, vp_rw_get(b, 0), r); }
    // truncated: every proper prefix of every encoding
    for (auto &x : done) { Bytes e = encoded(x.first, x.second); for (size_t k = 0; k < e.size(); k++) { Area p(Bytes(e.begin(), e.begin() + k)); uint64_t v; vp_rw_init(b, p.p, p.n, p.n); CHECK(!vp_gve_get(b, x.first, &v), "%s is read from %s, cut off from %s", KIND[x.first], hx(p.get()).c_str(), hx(e).c_str()); } }
    for (auto &x : vs) if (x.first & 1) { int64_t s = x.second; CHECK(vp_zz_enc(64, s) == ref::zigzag64(s), "zigzag of %lld", (long long) s); CHECK(vp_zz_dec(64, ref::zigzag64(s)) == s, "zigzag of %lld back", (long long) s);
        int32_t t = s; CHECK((uint32_t) vp_zz_enc(32, t) == ref::zigzag32(t), "32-bit zigzag of %d", t); CHECK(vp_zz_dec(32, ref::zigzag32(t)) == t, "32-bit zigzag of %d back", t); }
    c.count(vs.size() * 3); c.nontrivial = true; if (refused) c.label("did not fit");
}
void p_c13_decode(Case &c) {
    DOOR(size_t(), vp_rw_sizeof); DOOR(void(V, uint8_t *, size_t, size_t), vp_rw_init); DOOR(size_t(V, int), vp_rw_get); DOOR(int(V, int, uint64_t *), vp_gve_get);
    Bytes d; size_t n = c.t.below(14);
    switch (c.t.below(4)) {
        case 0: d = c.t.bytes(n); break;
        case 1: for (size_t i = 0; i < n; i++) d.push_back((c.t.below(4) ? 0x80 : 0) | (c.t.below(3) ? c.t.below(128) : c.t.below(2) * 127)); break;
        case 2: { d = encoded(c.t.below(8), c.t.u64()); if (!d.empty()) d[c.t.below(d.size())] ^= 1 << c.t.below(8); d += c.t.bytes(c.t.below(3)); break; }
        default: { uint64_t v = c.t.below(2) ? value_of(c, c.t.below(8)) : 0 - c.t.below(0) % (1ull << (1 + c.t.below(34))); d = ref::vlq(v); unsigned z = c.t.below(4); if (z && d.size() + z <= 11) { d.back() |= 0x80; for (unsigned i = 1; i < z; i++) d.push_back(0x80); d.push_back(c.t.below(3) ? 0 : 1 + c.t.below(3)); } break; }
    }
    c.note("bytes %s", hx(d).c_str());
    // what these bytes denote
    bool have = false; unsigned __int128 val = 0; size_t used = 0; for (; used < d.size() && used < 10; used++) { val |= (unsigned __int128) (d[used] & 127) << (7 * used); if (d[used] < 128) { have = true; used++; break; } }
    for (int k = 2; k < 8; k++) {
        Area a(d); Area hb(vp_rw_sizeof(), 0x77); V b = hb.p; vp_rw_init(b, a.p, a.n, a.n); uint64_t v = 0xdeadbeef; bool got = vp_gve_get(b, k, &v); c.mix64(got ? v : 1);
        bool must = false, may = false; int64_t e = 0;
        if (have && val <= UINT64_MAX) {
            uint64_t u = (uint64_t) val;
            auto unzig = [](uint64_t x) { return (int64_t) (x >> 1) ^ -(int64_t) (x & 1); };
            bool c32 = u < 0x80000000ull || u >= 0xFFFFFFFF80000000ull, odd32 = u >= 0x80000000ull && u <= 0xFFFFFFFFull; int64_t s32 = unzig(u & 0xFFFFFFFFull);
            switch (k) { case 2: must = u <= 0xFFFF; e = u; break; case 4: must = u <= 0xFFFFFFFF; e = u; break; case 6: must = true; e = u; break; case 7: must = true; e = unzig(u); break;
                case 5: must = c32; may = odd32; e = s32; break; default: must = u <= 0xFFFF; may = false; e = s32; }
        }
        if (got) { CHECK(must || may, "%s is read as %lld from %s", KIND[k], (long long) v, hx(d).c_str()); CHECK((int64_t) v == e, "%s is read as %lld instead of %lld from %s", KIND[k], (long long) v, (long long) e, hx(d).c_str()); CHECK(vp_rw_get(b, 0) == used, "reading %s from %s consumes %zu bytes instead of %zu", KIND[k], hx(d).c_str(), vp_rw_get(b, 0), used); }
        else CHECK(!must, "%s is not read from %s, which is %lld", KIND[k], hx(d).c_str(), (long long) e);
        CHECK(vp_rw_get(b, 0) <= d.size() && vp_rw_get(b, 1) == d.size() && a.get() == d, "reading %s from %s leaves the data", KIND[k], hx(d).c_str());
        c.label(got ? "decoded" : "refused");
    }
    c.count(6); c.nontrivial = true;
}
// ---------------------------------------------------------------- C14
static uint64_t operand(Case &c, uint64_t l) {
    static const uint64_t E[] = {0, 1, UINT64_MAX, (uint64_t) INT64_MAX, (uint64_t) INT64_MAX + 1};
    switch (c.t.weighted({3, 3, 3, 2, 3})) { case 0: return c.t.u64(); case 1: return E[c.t.below(5)] + c.t.below(5) - 2; case 2: return E[c.t.below(5)] - l + c.t.below(5) - 2; case 3: return c.t.below(0); default: return E[c.t.below(5)] + l + c.t.below(5) - 2; }
}
void p_c14_checked(Case &c) {
    DOOR(int(int, uint64_t, uint64_t, uint64_t *), vp_checked); static const char *N[] = {"unsigned +", "unsigned -", "signed +", "signed -"};
    unsigned n = 8; unsigned ok = 0, bad = 0;
    for (unsigned i = 0; i < n; i++) {
        int op = c.t.below(4); uint64_t l = operand(c, 0), r = operand(c, l), out = 0; __int128 a = op < 2 ? (__int128) l : (__int128) (int64_t) l, x = op & 1 ? a - r : a + (__int128) r;
        bool fits = op < 2 ? x >= 0 && x <= UINT64_MAX : x >= INT64_MIN && x <= INT64_MAX; bool got = vp_checked(op, l, r, &out); c.mix64(l); c.mix64(r); c.mix64(op); c.note("%s %llx %llx", N[op], (unsigned long long) l, (unsigned long long) r);
        CHECK(got == fits, "%s of %llx and %llx %s", N[op], (unsigned long long) l, (unsigned long long) r, got ? "succeeds" : "fails");
        if (fits) { ok++; CHECK(out == (uint64_t) x, "%s of %llx and %llx is %llx", N[op], (unsigned long long) l, (unsigned long long) r, (unsigned long long) out); } else bad++;
    }
    c.count(n); c.nontrivial = ok && bad;
}
// ---------------------------------------------------------------- C17
void near(Case &c, Bytes &t) {                  // one small change
    if (t.empty()) { t.push_back(c.t.below(256)); return; }
    size_t i = c.t.below(t.size());
    switch (c.t.below(6)) { case 0: t[i] ^= 1 << c.t.below(8); break; case 1: t[i] = c.t.below(256); break; case 2: t.erase(t.begin() + i); break; case 3: t.insert(t.begin() + i, c.t.below(256)); break; case 4: t.pop_back(); break; default: t.push_back(c.t.below(4)); }
}
Bytes special(Case &c) {
    Bytes k = c.t.bytes(33); k[0] = 2 + c.t.below(2); if (c.t.chance(1, 6)) for (auto &x : k) x = c.t.below(2) * 255; k[0] = 2 + (k[0] & 1);
    switch (c.t.below(3)) { case 0: return ref::p2pk_tree(k.data()); case 1: return ref::p2sh_tree(k.data() + 5); default: return ref::fee_tree; }
}
void p_c17_forms(Case &c) {
    DOOR(int(const uint8_t *, uint8_t *), vp_parse_p2pk); DOOR(int(const uint8_t *, uint8_t *), vp_parse_p2sh); DOOR(void(const uint8_t *, uint8_t *), vp_make_p2pk); DOOR(void(int, const uint8_t **, size_t *), vp_fee_tree);
    for (int i = 0; i < 6; i++) {
        Bytes t = special(c); unsigned k = c.t.below(3); for (unsigned j = 0; j < k; j++) near(c, t); c.note("tree %s", hxs(t).c_str()); c.mix(t.data(), t.size());
        Bytes a = t, b = t; while (a.size() < 36) a.push_back(c.t.below(256)); a.resize(36); while (b.size() < 44) b.push_back(c.t.below(256)); b.resize(44);
        Area A(a), B(b), K(33), H(24); bool pk = ref::is_p2pk(a), sh = ref::is_p2sh(b);
        CHECK(!!vp_parse_p2pk(A.p, K.p) == pk, "%s is%s taken as pay to public key", hx(a).c_str(), pk ? " not" : ""); if (pk) { c.label("public key"); CHECK(K.get() == Bytes(a.begin() + 3, a.end()), "public key of %s is %s", hx(a).c_str(), hx(K.get()).c_str()); } else c.label("near public key");
        CHECK(!!vp_parse_p2sh(B.p, H.p) == sh, "%s is%s taken as pay to script hash", hx(b).c_str(), sh ? " not" : ""); if (sh) { c.label("script hash"); CHECK(H.get() == Bytes(b.begin() + 17, b.begin() + 41), "hash of %s is %s", hx(b).c_str(), hx(H.get()).c_str()); } else c.label("near script hash");
        CHECK(A.get() == a && B.get() == b, "parsing changes the tree");
    }
    Bytes raw = c.t.bytes(65); raw[0] = 4; Area R(raw), T(36); vp_make_p2pk(R.p, T.p); uint8_t k33[33]; k33[0] = 2 | (raw[64] & 1); memcpy(k33 + 1, &raw[1], 32); CHECK(T.get() == ref::p2pk_tree(k33), "tree of key %s is %s", hx(raw).c_str(), hx(T.get()).c_str());
    const uint8_t *f = nullptr; size_t n = 0; vp_fee_tree(c.t.below(2), &f, &n); CHECK(f && Bytes(f, f + n) == ref::fee_tree, "wrong miners' fee tree");
    c.count(14); c.nontrivial = true;
}
void p_c17_address(Case &c) {
    DOOR(int(int, uint8_t, const uint8_t *, uint8_t *), vp_address);
    for (int i = 0; i < 6; i++) {
        int kind = c.t.below(3); uint8_t net = c.t.below(2) ? 16 * c.t.below(2) : c.t.below(3) ? c.t.below(256) : 255 - c.t.below(5); Bytes in = c.t.bytes(kind == 0 ? 65 : kind == 1 ? 33 : 24); if (kind == 0) in[0] = 4; if (kind == 1) in[0] = 2 + c.t.below(2); if (c.t.chance(1, 5)) for (size_t k = 1; k < in.size(); k++) in[k] = 0;
        Area I(in), O(kind == 2 ? 29 : 38); uint8_t k33[33]; if (kind == 0) { k33[0] = 2 | (in[64] & 1); memcpy(k33 + 1, &in[1], 32); } else if (kind == 1) memcpy(k33, in.data(), 33);
        bool got = vp_address(kind, net, I.p, O.p); c.note("kind %d network %u %s", kind, net, hx(in).c_str()); c.mix64(net * 4 + kind); c.mix(in.data(), in.size());
        bool known = net == 0 || net == 16, wraps = net > 252;
        if (known) CHECK(got, "no address on network %u", net); if (wraps && net + (kind == 2 ? 2 : 1) > 255) CHECK(!got, "address on network %u, whose first byte does not fit", net);
        if (got) { Bytes e = kind == 2 ? ref::p2sh_address(net, in.data()) : ref::p2pk_address(net, k33); CHECK(O.get() == e, "address of %s on network %u is %s instead of %s", hx(in).c_str(), net, hx(O.get()).c_str(), hx(e).c_str()); }
        c.label(got ? "address" : "refused");
    }
    c.count(6); c.nontrivial = true;
}

// ---------------------------------------------------------------- C27
// A step either is refused, wants more, or is done; refused ones leave the serialiser failed for good.
enum R3 { NO, MORE, DONE };
static const char *R3N[] = {"refused", "more", "done"};
struct Call { int what, type; Bytes box, id; uint64_t v; bool operator==(const Call &o) const { return what == o.what && type == o.type && box == o.box && id == o.id && v == o.v; } };
static std::string show_calls(const std::vector<Call> &v) { std::string s; for (auto &x : v) s += "(" + std::to_string(x.what) + " type " + std::to_string(x.type) + " " + hxs(x.id) + " " + std::to_string(x.v) + ")"; return s.empty() ? "none" : s; }
static std::vector<Call> seen; static int refuse_at = -1;
static int on_call(int what, int type, const uint8_t *box, const uint8_t *id, uint64_t v) { seen.push_back({what, type, box ? Bytes(box, box + 32) : Bytes(), id ? Bytes(id, id + 32) : Bytes(), v}); return refuse_at < 0 || (int) seen.size() - 1 != refuse_at; }
struct BoxM {
    enum { TREE, TOKENS, REGS, FIN, IDDONE, BAD } st = BAD; uint64_t value = 0; uint32_t height = 0, tree = 0, regs = 0; unsigned toks = 0; int type = 0; bool chunked = false; int cbs = 0; Bytes out; std::vector<Call> calls;
    void cb(int what, int ty, const Bytes &id, uint64_t v) { if (cbs & (what == 0 ? 1 : what == 1 ? 2 : 4)) calls.push_back({what, ty, Bytes(), id, v}); }
    R3 bad() { st = BAD; return NO; }
    R3 init(uint64_t v, uint32_t tr, uint32_t h, unsigned tk, uint32_t rg) { cbs = 0; calls.clear(); out.clear(); chunked = false; type = 0; value = v; height = h; tree = tr; regs = rg; toks = tk; if (tk > 20 || tr > 32768 || rg > 32768) return bad(); out += ref::vlq(v); st = TREE; return DONE; }
    R3 fin() { cb(2, type, Bytes(), 0); st = FIN; return DONE; }
    R3 tree_done() { cb(0, type, Bytes(), value); out += ref::vlq(height); out.push_back(toks); if (toks) { st = TOKENS; return DONE; } st = REGS; if (!regs) { out.push_back(0); return fin(); } return DONE; }
    R3 add_tree(const Bytes &d) { if (st != TREE || d.size() > tree || (d.size() < tree && d.size() < 255)) return bad(); out += d; tree -= d.size(); chunked = true; if (tree) return MORE; type = 0; return tree_done(); }
    R3 add_special(int ty, const Bytes &t) { if (st != TREE || chunked) return bad(); out += t; type = ty; return tree_done(); }
    R3 add_tokens(const Bytes &d, const std::vector<Bytes> *table, unsigned declared) {
        if (st != TOKENS) return bad(); size_t w = table ? 12 : 40, o = 0;
        while (o < d.size()) {
            if (!toks || d.size() - o < w) return bad(); uint64_t v = 0; Bytes id; for (int i = 0; i < 8; i++) v = v << 8 | d[o + w - 8 + i];
            if (table) { uint64_t ix = 0; for (int i = 0; i < 4; i++) ix = ix << 8 | d[o + i]; if (ix >= declared) return bad(); id = (*table)[ix]; out += ref::vlq(ix); } else { id = Bytes(d.begin() + o, d.begin() + o + 32); out += id; }
            out += ref::vlq(v); cb(1, type, id, v); toks--; o += w;
        }
        if (toks) return MORE; if (!regs) { out.push_back(0); return fin(); } st = REGS; return DONE;
    }
    R3 add_regs(const Bytes &d) { if (st != REGS || d.size() > regs) return bad(); out += d; regs -= d.size(); return regs ? MORE : fin(); }
};
struct InM {
    enum { FRAMES, EXT, FIN, BAD } st = BAD; Bytes id; unsigned frames = 0, done = 0; uint32_t ext = 0; bool cb = false; Bytes out; std::vector<Call> calls;
    R3 bad() { st = BAD; return NO; }
    R3 init(const Bytes &i, unsigned f, uint32_t e) { calls.clear(); out.clear(); cb = false; id = i; frames = f; done = 0; ext = e; if (e == 1 || e > 32768) return bad(); st = FRAMES; return DONE; }
    R3 tokens(const Bytes &i, unsigned ix, const Bytes &d) {
        if (st != FRAMES || i != id || ix >= frames || ix != done) return bad();
        for (size_t o = 0; o < d.size(); o += 40) { if (d.size() - o < 40) return bad(); uint64_t v = 0; for (int k = 0; k < 8; k++) v = v << 8 | d[o + 32 + k]; if (cb) calls.push_back({3, 0, id, Bytes(d.begin() + o, d.begin() + o + 32), v}); }
        if (++done < frames) return MORE; out += id; out.push_back(0); if (!ext) { out.push_back(0); st = FIN; } else st = EXT; return DONE;
    }
    R3 add_ext(const Bytes &d) { if (st != EXT || d.size() > ext) return bad(); out += d; ext -= d.size(); if (ext) return MORE; st = FIN; return DONE; }
};
struct Doors {                                          // the functions of unit/ser.c
    size_t (*size)(); int (*hash_init)(V), (*hash_end)(V, uint8_t *); void (*table_clear)(V); int (*table_init)(V, unsigned), (*table_add)(V, const uint8_t *, size_t), (*table_fin)(V), (*table_hash)(V);
    int (*box_init)(V, uint64_t, uint32_t, uint32_t, unsigned, uint32_t), (*box_idinit)(V), (*box_tree)(V, const uint8_t *, size_t), (*box_fee)(V, int), (*box_change)(V, const uint8_t *), (*box_tokens)(V, const uint8_t *, size_t, int), (*box_regs)(V, const uint8_t *, size_t), (*box_id)(V, const uint8_t *, unsigned, uint8_t *), (*box_fin)(V); void (*box_cbs)(V, int);
    int (*in_init)(V, const uint8_t *, unsigned, uint32_t), (*in_tokens)(V, const uint8_t *, unsigned, const uint8_t *, size_t), (*in_ext)(V, const uint8_t *, size_t), (*in_fin)(V); void (*in_cb)(V, int);
    int (*full_init)(V, unsigned, unsigned, unsigned, unsigned), (*full_table)(V, const uint8_t *, size_t), (*full_input)(V, const uint8_t *, unsigned, uint32_t), (*full_in_cb)(V, int), (*full_in_tokens)(V, const uint8_t *, unsigned, const uint8_t *, size_t), (*full_ext)(V, const uint8_t *, size_t), (*full_data)(V, const uint8_t *, size_t),
        (*full_box)(V, uint64_t, uint32_t, uint32_t, unsigned, uint32_t), (*full_cbs)(V, int), (*full_tree)(V, const uint8_t *, size_t), (*full_fee)(V, int), (*full_change)(V, const uint8_t *), (*full_tokens)(V, const uint8_t *, size_t), (*full_regs)(V, const uint8_t *, size_t), (*full_fin)(V);
    Doors() {
        size = door<size_t (*)()>("vp_ser_sizeof");
#define D(n) n = door<decltype(n)>("vp_" #n)
        D(hash_init); D(hash_end); D(table_clear); D(table_init); D(table_add); D(table_fin); D(table_hash); D(box_init); D(box_idinit); D(box_tree); D(box_fee); D(box_change); D(box_tokens); D(box_regs); D(box_id); D(box_fin); D(box_cbs);
        D(in_init); D(in_tokens); D(in_ext); D(in_fin); D(in_cb); D(full_init); D(full_table); D(full_input); D(full_in_cb); D(full_in_tokens); D(full_ext); D(full_data); D(full_box); D(full_cbs); D(full_tree); D(full_fee); D(full_change); D(full_tokens); D(full_regs); D(full_fin);
#undef D
        *door<int (**)(int, int, const uint8_t *, const uint8_t *, uint64_t)>("vp_cb") = on_call;
    }
};
// One step on both sides. `model` is run on a copy when the platform or a callback is made to fail in the step.
struct Drive {
    Case &c; unsigned step = 0, ok = 0, no = 0, after = 0; bool failed = false;
    explicit Drive(Case &cc) : c(cc) {}
    void go(const std::string &what, const std::function<int()> &real, const std::function<R3()> &model, std::vector<Call> &calls, const std::function<void()> &spoil, bool init = false) {
        bool was = failed; calls.clear(); R3 want = model(); seen.clear(); refuse_at = -1; unsigned bang = 0;
        if (want != NO && c.t.chance(1, 40)) { bang = 1 + c.t.below(2); if (bang == 1) { if (!calls.empty()) refuse_at = c.t.below(calls.size()); else bang = 0; } }
        unsigned left = bang == 2 ? c.t.below(6) : 0; bool struck = false;
        if (bang == 2) { host::fault_trash = false; host::fault_code = 0xFFFFFF85; host::fault_hook = [&](const char *) { if (struck) return false; if (left--) return false; struck = true; return true; }; }
        int got = real(); host::fault_hook = nullptr; if (bang == 1) struck = true; refuse_at = -1;
        c.note("%s:%s%s", what.c_str(), R3N[want], struck ? (bang == 1 ? " (callback refuses)" : " (platform fails)") : ""); c.mix(what.data(), what.size()); c.mix64(want * 2 + struck); step++;
        if (struck) {
            CHECK(got == NO, "step %u: %s is %s although %s failed in it", step, what.c_str(), R3N[got], bang == 1 ? "a callback" : "the platform"); spoil(); want = NO; c.label(bang == 1 ? "callback refuses" : "platform fails"); }
        CHECK(got == want, "step %u: %s is %s instead of %s%s", step, what.c_str(), R3N[got], R3N[want], was ? " (after a refusal)" : "");
        if (want != NO) CHECK(seen == calls, "step %u: %s calls back with %s instead of %s", step, what.c_str(), show_calls(seen).c_str(), show_calls(calls).c_str());
        if (want == NO) { no++; if (was) after++; failed = true; } else { ok++; if (init) failed = false; }
    }
};
static std::vector<Bytes> split(Case &c, const Bytes &d, size_t min, unsigned unit = 1) {   // chunks, all but the last of at least min
    std::vector<Bytes> v; size_t o = 0; unsigned mode = c.t.below(4); if (d.empty()) return v;
    while (o < d.size()) { size_t left = (d.size() - o) / unit, k = mode == 0 ? left : mode == 1 ? 1 : 1 + c.t.below(left); if (min && k < min) k = min + (c.t.below(3) ? 0 : c.t.below(100)); if (k > left) k = left; if (v.size() > 40) k = left; v.push_back(Bytes(d.begin() + o, d.begin() + o + k * unit)); o += k * unit; if (c.t.chance(1, 20) && !min) v.push_back(Bytes()); }
    return v;
}
static void damage(Case &c, Bytes &d) { switch (c.t.below(5)) { case 0: if (!d.empty()) d.pop_back(); break; case 1: d.push_back(7); break; case 2: d += Bytes(40, 3); break; case 3: d.clear(); break; default: if (!d.empty()) d.resize(c.t.below(d.size())); } }
static Bytes part_bytes(Case &c, bool allow1 = true) { size_t n; switch (c.t.weighted({4, 3, 3, 2, 1})) { case 0: n = 0; break; case 1: n = 1 + c.t.below(60); break; case 2: n = 250 + c.t.below(20); break; case 3: n = c.t.below(1200); break; default: n = c.t.below(3) ? c.t.below(5000) : 32768 - c.t.below(3); } if (n == 1 && !allow1) n = 2; return c.t.bytes(n); }
struct Rig { std::unique_ptr<Area> a; V v; Doors d; Rig() { a.reset(new Area(d.size(), 0xA5)); v = a->p; seen.clear(); refuse_at = -1; host::fault_hook = nullptr; } };
// the steps of one box: kind of step and data
struct St { int op; Bytes d; unsigned x = 0; };
enum { O_TREE, O_FEE, O_CHANGE, O_TOKENS, O_REGS, O_CBS, O_ID, O_INIT };
struct BoxPlan { uint64_t value; uint32_t tree, height, regs; unsigned toks; std::vector<St> st; };
static BoxPlan box_plan(Case &c, const std::vector<Bytes> *table, bool fat) {
    BoxPlan p; p.value = c.t.u64(); p.height = c.t.u32(); Bytes tree = fat ? part_bytes(c) : c.t.bytes(c.t.below(40)), regs = fat ? part_bytes(c) : c.t.bytes(c.t.below(30)); p.tree = tree.size(); p.regs = regs.size(); p.toks = table && table->empty() ? 0 : c.t.below(2) ? 0 : 1 + c.t.below(c.t.below(3) ? 5 : 20);
    if (c.t.below(8)) p.st.push_back({O_CBS, Bytes(), (unsigned) (c.t.below(4) ? 7 : c.t.below(8))});
    switch (c.t.weighted({4, 1, 1})) { case 0: { auto v = split(c, tree, 255); if (v.empty()) v.push_back(Bytes()); for (auto &x : v) p.st.push_back({O_TREE, x}); break; } case 1: if (c.t.below(4)) p.tree = 0; p.st.push_back({O_FEE, Bytes(), (unsigned) c.t.below(2)}); break; default: { if (c.t.below(4)) p.tree = 0; Bytes k = c.t.bytes(65); k[0] = 4; p.st.push_back({O_CHANGE, k}); } }
    Bytes td; for (unsigned i = 0; i < p.toks; i++) td += (table ? be(c.t.below(table->size()), 4) : c.t.bytes(32)) + be(c.t.u64(), 8);
    for (auto &x : split(c, td, 0, table ? 12 : 40)) p.st.push_back({O_TOKENS, x});
    for (auto &x : split(c, regs, 0)) p.st.push_back({O_REGS, x});
    return p;
}
static bool spoil_box(Case &c, BoxPlan &p) {            // one deviation
    if (p.st.empty()) return false; size_t i = c.t.below(p.st.size());
    switch (c.t.below(9)) {
        case 0: p.st.erase(p.st.begin() + i); break; case 1: { St s = p.st[i]; p.st.insert(p.st.begin() + i, s); break; } case 2: if (i + 1 < p.st.size()) std::swap(p.st[i], p.st[i + 1]); break;
        case 3: damage(c, p.st[i].d); if (p.st[i].op == O_CHANGE) p.st[i].d.resize(65); break;
        case 4: p.st.insert(p.st.begin() + i, St{(int) c.t.below(5), c.t.bytes(65)}); break;
        case 5: p.toks += c.t.below(2) ? 1 : 20; break; case 6: if (p.toks) p.toks--; break; case 7: (c.t.below(2) ? p.tree : p.regs) += c.t.below(2) ? 1 : c.t.below(2) ? -1 : 32768; break;
        default: for (auto &s : p.st) if (s.op == O_TOKENS && s.d.size() >= 12) { for (int k = 0; k < 4; k++) s.d[k] = c.t.below(3) ? s.d[k] : c.t.below(256); break; }
    }
    return true;
}
void p_c27_box(Case &c) {
    Rig r; auto &d = r.d; BoxM m; Drive g(c); bool use_table = c.t.below(2); std::vector<Bytes> table;
    if (use_table) { unsigned n = 1 + c.t.below(20); Bytes all; for (unsigned i = 0; i < n; i++) { Bytes x = c.t.bytes(32); x[0] = i; table.push_back(x); all += x; } d.table_clear(r.v); CHECK(d.table_init(r.v, n) == DONE, "table of %u tokens refused", n); auto v = split(c, all, 0, 32); for (size_t i = 0; i < v.size(); i++) { Area x(v[i]); int s = d.table_add(r.v, x.p, x.n); (void) s; } CHECK(d.table_fin(r.v), "table is not finished"); }
    unsigned reps = 1 + c.t.below(2); bool signedid = false;
    for (unsigned rep = 0; rep < reps; rep++) {
        BoxPlan p = box_plan(c, use_table ? &table : nullptr, true); bool dev = c.t.below(2); if (dev) for (unsigned k = 1 + c.t.below(2); k--;) spoil_box(c, p);
        CHECK(d.box_idinit(r.v), "hash cannot be started"); std::vector<Call> none; auto bad = [&] { m.bad(); };
        g.go("box tree " + std::to_string(p.tree) + " tokens " + std::to_string(p.toks) + " registers " + std::to_string(p.regs), [&] { return d.box_init(r.v, p.value, p.tree, p.height, p.toks, p.regs); }, [&] { return m.init(p.value, p.tree, p.height, p.toks, p.regs); }, none, bad, true);
        for (auto &s : p.st) {
            Area x(s.d); std::string sz = " " + std::to_string(s.d.size()); uint8_t k33[33]; if (s.op == O_CHANGE) { k33[0] = 2 | (s.d[64] & 1); memcpy(k33 + 1, &s.d[1], 32); }
            switch (s.op) {
                case O_CBS: d.box_cbs(r.v, s.x); m.cbs = s.x; break;
                case O_TREE: g.go("tree" + sz, [&] { return d.box_tree(r.v, x.p, x.n); }, [&] { return m.add_tree(s.d); }, m.calls, bad); break;
                case O_FEE: g.go("fee tree", [&] { return d.box_fee(r.v, s.x); }, [&] { return m.add_special(1, ref::fee_tree); }, m.calls, bad); break;
                case O_CHANGE: g.go("change tree", [&] { return d.box_change(r.v, x.p); }, [&] { return m.add_special(2, ref::p2pk_tree(k33)); }, m.calls, bad); break;
                case O_TOKENS: g.go("tokens" + sz, [&] { return d.box_tokens(r.v, x.p, x.n, use_table); }, [&] { return m.add_tokens(s.d, use_table ? &table : nullptr, table.size()); }, m.calls, bad); break;
                case O_REGS: g.go("registers" + sz, [&] { return d.box_regs(r.v, x.p, x.n); }, [&] { return m.add_regs(s.d); }, m.calls, bad); break;
            }
            CHECK(!!d.box_fin(r.v) == (m.st == BoxM::FIN), "step %u: the box is%s reported finished", g.step, m.st == BoxM::FIN ? " not" : "");
        }
        if (c.t.below(4) || m.st == BoxM::FIN) {
            Bytes tx = c.t.bytes(32); unsigned ix = c.t.u16(); Area T(tx), I(32, 0x11); Bytes all = m.out + tx + ref::vlq(ix);
            g.go("box id " + std::to_string(ix), [&] { return d.box_id(r.v, T.p, ix, I.p); }, [&] { if (m.st != BoxM::FIN) return m.bad(); m.st = BoxM::IDDONE; return DONE; }, none, bad);
            if (m.st == BoxM::IDDONE) { B32 h = prim::blake2b_256(all); CHECK(I.get() == Bytes(h.begin(), h.end()), "box id is %s instead of %s, the hash of %s", hx(I.get()).c_str(), hx(h).c_str(), hxs(all).c_str()); signedid = true; c.label("box ids"); if (p.toks) c.label("box ids with tokens");
                if (c.t.below(3) == 0) { g.go("box id again", [&] { return d.box_id(r.v, T.p, ix, I.p); }, [&] { return m.bad(); }, none, bad); } }
        }
    }
    c.count(g.step); c.nontrivial = signedid || g.after; if (g.after) c.label("steps after a refusal");
}
void p_c27_input(Case &c) {
    Rig r; auto &d = r.d; InM m; Drive g(c); bool done = false;
    unsigned reps = 1 + c.t.below(2);
    for (unsigned rep = 0; rep < reps; rep++) {
        Bytes id = c.t.bytes(32), ext = part_bytes(c, false); unsigned frames = c.t.below(4) ? 1 + c.t.below(6) : c.t.below(256); uint32_t es = ext.size(); if (frames > 20) frames = 20 + c.t.below(236); bool dev = c.t.below(2);
        struct S { int op; Bytes id, d; unsigned ix; }; std::vector<S> st; for (unsigned i = 0; i < frames; i++) { Bytes t; for (unsigned k = c.t.below(frames > 20 ? 2 : 5); k--;) t += c.t.bytes(32) + be(c.t.u64(), 8); st.push_back({0, id, t, i}); }
        for (auto &x : split(c, ext, 0)) st.push_back({1, id, x, 0});
        if (dev && !st.empty()) { size_t i = c.t.below(st.size()); switch (c.t.below(9)) { case 0: st.erase(st.begin() + i); break; case 1: { S s = st[i]; st.insert(st.begin() + i, s); break; } case 2: if (i + 1 < st.size()) std::swap(st[i], st[i + 1]); break; case 3: damage(c, st[i].d); break; case 4: st[i].id[c.t.below(32)] ^= 1 << c.t.below(8); break; case 5: st[i].ix = c.t.below(2) ? c.t.below(256) : st[i].ix + 1; break; case 6: es += c.t.below(2) ? 1 : c.t.below(2) ? -1 : 40000; break; case 7: frames = (frames + c.t.below(3) - 1) & 255; break; default: st[i].op ^= 1; } }
        CHECK(d.hash_init(r.v), "hash cannot be started"); std::vector<Call> none; auto bad = [&] { m.bad(); }; Area I(id);
        g.go("input frames " + std::to_string(frames) + " extension " + std::to_string(es), [&] { return d.in_init(r.v, I.p, frames, es); }, [&] { return m.init(id, frames, es); }, none, bad, true);
        if (c.t.below(6)) { d.in_cb(r.v, 1); m.cb = true; }
        for (auto &s : st) {
            Area x(s.d), B(s.id); std::string sz = " " + std::to_string(s.d.size());
            if (s.op == 0) g.go("frame " + std::to_string(s.ix) + sz, [&] { return d.in_tokens(r.v, B.p, s.ix & 255, x.p, x.n); }, [&] { return m.tokens(s.id, s.ix & 255, s.d); }, m.calls, bad);
            else g.go("extension" + sz, [&] { return d.in_ext(r.v, x.p, x.n); }, [&] { return m.add_ext(s.d); }, none, bad);
            CHECK(!!d.in_fin(r.v) == (m.st == InM::FIN), "step %u: the input is%s reported finished", g.step, m.st == InM::FIN ? " not" : "");
        }
        if (m.st == InM::FIN) { Area H(32, 0x11); CHECK(d.hash_end(r.v, H.p), "hash cannot be finished"); B32 h = prim::blake2b_256(m.out); CHECK(H.get() == Bytes(h.begin(), h.end()), "other bytes than %s were hashed", hxs(m.out).c_str()); done = true; c.label("inputs hashed"); }
    }
    c.count(g.step); c.nontrivial = done || g.after; if (g.after) c.label("steps after a refusal");
}
void p_c27_full(Case &c) {
    Rig r; auto &d = r.d; Drive g(c); BoxM bm; InM im; Bytes out; std::vector<Bytes> table; std::vector<Call> none;
    enum { TOK, IN, DATA, OUT, FIN, BAD } st = BAD; unsigned n_in = 1 + c.t.below(3), n_data = c.t.below(2) ? 0 : c.t.below(5), n_tok = c.t.below(3) ? c.t.below(4) : c.t.below(21), n_out = 1 + c.t.below(3); if (c.t.chance(1, 25)) n_in = 120 + c.t.below(20); if (c.t.chance(1, 25)) n_out = 120 + c.t.below(20); if (c.t.chance(1, 25)) n_data = 120 + c.t.below(20); unsigned huge = c.t.chance(1, 500) ? 1 + c.t.below(3) : 0; if (huge) { static const unsigned e[] = {16383, 16384, 16385, 32768, 65535}; (huge == 1 ? n_in : huge == 2 ? n_data : n_out) = c.t.below(3) ? e[c.t.below(5)] : 128 + c.t.below(20000); c.label("count up to 65535"); } Rng hr(huge ? c.t.below(0) : 1); auto bts = [&](size_t n) { if (!huge) return c.t.bytes(n); Bytes x(n); for (auto &y : x) y = hr.next() >> 32; return x; };
    bool fat = n_in < 10 && n_out < 10;
    struct S { int op; Bytes id, d; unsigned x = 0, y = 0; uint32_t z = 0; BoxPlan b; }; std::vector<S> p; std::vector<Bytes> ids; Bytes idb; for (unsigned i = 0; i < n_tok; i++) { Bytes x = c.t.bytes(32); x[0] = i; if (i && c.t.chance(1, 5)) { x = ids.back(); x[31 - c.t.below(31)] ^= 1 + i; x[0] = i; } ids.push_back(x); idb += x; }
    // 0 table 1 input 2 input callback 3 input tokens 4 extension 5 data 6 box 7 box callbacks 8 tree 9 fee 10 change 11 tokens 12 registers
    for (auto &x : split(c, idb, 0, 32)) p.push_back({0, Bytes(), x});
    if (huge == 1) for (unsigned i = 0; i < n_in; i++) { Bytes id = bts(32); S s{1, id}; s.x = 1; p.push_back(s); S q{3, id}; p.push_back(q); }
    else for (unsigned i = 0; i < n_in; i++) { Bytes id = c.t.bytes(32), ext = fat ? part_bytes(c, false) : c.t.below(3) ? Bytes() : Bytes(2, 5); unsigned f = 1 + c.t.below(c.t.below(4) ? 2 : 5); S s{1, id}; s.x = f; s.z = ext.size(); p.push_back(s); if (c.t.below(5)) p.push_back({2, Bytes(), Bytes(), 1});
        for (unsigned k = 0; k < f; k++) { Bytes t; for (unsigned j = c.t.below(5); j--;) t += c.t.bytes(32) + be(c.t.u64(), 8); S q{3, id, t}; q.x = k; p.push_back(q); } for (auto &x : split(c, ext, 0)) p.push_back({4, Bytes(), x}); }
    Bytes data = bts(32 * n_data); if (huge == 2) { for (size_t at = 0; at < data.size();) { size_t n = std::min(data.size() - at, (size_t) 32 * (1 + hr.next() % 1000)); p.push_back({5, Bytes(), Bytes(data.begin() + at, data.begin() + at + n)}); at += n; } } else for (auto &x : split(c, data, 0, 32)) p.push_back({5, Bytes(), x});
    if (huge == 3) for (unsigned i = 0; i < n_out; i++) { S s{6}; s.b = BoxPlan(); s.b.value = hr.next(); s.b.tree = 0; s.b.height = hr.next() >> 32; s.b.toks = s.b.regs = 0; p.push_back(s); S t{9}; p.push_back(t); }
    else for (unsigned i = 0; i < n_out; i++) { BoxPlan b = box_plan(c, &ids, fat); S s{6}; s.b = b; s.b.st.clear(); p.push_back(s); for (auto &q : b.st) { S t{q.op == O_CBS ? 7 : 8 + q.op, Bytes(), q.d}; t.x = q.x; if (t.op < 13) p.push_back(t); } }
    // deviations
    unsigned devs = c.t.below(3) ? 0 : 1 + c.t.below(2); unsigned D_in = n_in, D_data = n_data, D_tok = n_tok, D_out = n_out;
    for (unsigned k = 0; k < devs; k++) { size_t i = c.t.below(p.size()); switch (c.t.below(14)) {
        case 0: p.erase(p.begin() + i); break; case 1: { S s = p[i]; p.insert(p.begin() + i, s); break; } case 2: if (i + 1 < p.size()) std::swap(p[i], p[i + 1]); break; case 3: damage(c, p[i].d); if (p[i].op == 10) p[i].d.resize(65); break;
        case 4: { S s{(int) c.t.below(13), c.t.bytes(32), c.t.bytes(c.t.below(2) ? 65 : 0)}; s.x = c.t.below(3); if (s.op == 10) s.d.resize(65); p.insert(p.begin() + i, s); break; } case 5: D_in += c.t.below(2) ? 1 : -1; break; case 6: D_data += c.t.below(2) ? 1 : -1; break; case 7: D_tok += c.t.below(3) ? 1 : 20; break; case 8: if (D_tok) D_tok--; break; case 9: D_out += c.t.below(2) ? 1 : -1; break;
        case 10: if (!p[i].id.empty()) p[i].id[c.t.below(p[i].id.size())] ^= 1; break; case 11: p[i].x++; break; case 12: p[i].z++; p[i].b.regs++; break; default: if (p[i].op == 0 && p[i].d.size() >= 64) std::copy(p[i].d.begin(), p[i].d.begin() + 32, p[i].d.begin() + 32); else { S s = p[i]; p.push_back(s); } }
        if (p.empty()) throw Discard(); }
    D_in &= 0xffff; D_data &= 0xffff; D_out &= 0xffff; D_tok &= 0xff; if (D_data > 60000 || D_in > 60000 || D_out > 60000) c.label("huge count");
    unsigned left_in = D_in, left_data = D_data, left_out = D_out; auto bad = [&] { st = BAD; };
    auto data_done = [&] { out += ref::vlq(D_tok); for (auto &x : table) out += x; out += ref::vlq(D_out); st = OUT; bm.st = BoxM::FIN; return DONE; };
    auto in_done = [&] { out += im.out; im.out.clear(); if (--left_in == 0) { out += ref::vlq(D_data); st = DATA; if (!D_data) return data_done(); } return DONE; };
    auto out_done = [&] { out += bm.out; bm.out.clear(); if (--left_out == 0) st = FIN; return DONE; };
    CHECK(d.hash_init(r.v), "hash cannot be started"); d.table_clear(r.v);
    g.go("transaction " + std::to_string(D_in) + "/" + std::to_string(D_data) + "/" + std::to_string(D_tok) + "/" + std::to_string(D_out), [&] { return d.full_init(r.v, D_in, D_data, D_out, D_tok); }, [&] { if (!D_in || !D_out || D_tok > 20) { st = BAD; return NO; } out += ref::vlq(D_in); st = D_tok ? TOK : IN; im.st = InM::FIN; return DONE; }, none, bad, true);
    for (auto &s : p) {
        Area x(s.d), I(s.id); std::string sz = " " + std::to_string(s.d.size()); auto gate = [&](int want, const std::function<R3()> &f) { return [&, want, f]() -> R3 { if ((int) st != want) { st = BAD; return NO; } R3 y = f(); if (y == NO) st = BAD; return y; }; };
        switch (s.op) {
            case 0: g.go("table" + sz, [&] { return d.full_table(r.v, x.p, x.n); }, gate(TOK, [&]() -> R3 { for (size_t o = 0; o < s.d.size(); o += 32) { if (table.size() >= D_tok || s.d.size() - o < 32) return NO; Bytes id(s.d.begin() + o, s.d.begin() + o + 32); if (std::find(table.begin(), table.end(), id) != table.end()) return NO; table.push_back(id); } if (table.size() < D_tok) return MORE; st = IN; im.st = InM::FIN; return DONE; }), none, bad); break;
            case 1: g.go("input frames " + std::to_string(s.x) + " extension " + std::to_string(s.z), [&] { return d.full_input(r.v, I.p, s.x & 255, s.z); }, gate(IN, [&]() -> R3 { if (im.st != InM::FIN || !left_in) return NO; return im.init(s.id, s.x & 255, s.z); }), none, bad); break;
            case 2: g.go("input callback", [&] { return d.full_in_cb(r.v, s.x & 1); }, gate(IN, [&]() -> R3 { im.cb = s.x & 1; return DONE; }), none, bad); break;
            case 3: g.go("frame " + std::to_string(s.x) + sz, [&] { return d.full_in_tokens(r.v, I.p, s.x & 255, x.p, x.n); }, gate(IN, [&]() -> R3 { R3 y = im.tokens(s.id, s.x & 255, s.d); return y == DONE && im.st == InM::FIN ? in_done() : y; }), im.calls, bad); break;
            case 4: g.go("extension" + sz, [&] { return d.full_ext(r.v, x.p, x.n); }, gate(IN, [&]() -> R3 { R3 y = im.add_ext(s.d); return y == DONE ? in_done() : y; }), none, bad); break;
            case 5: g.go("data inputs" + sz, [&] { return d.full_data(r.v, x.p, x.n); }, gate(DATA, [&]() -> R3 { for (size_t o = 0; o < s.d.size(); o += 32) { if (!left_data || s.d.size() - o < 32) return NO; out += Bytes(s.d.begin() + o, s.d.begin() + o + 32); left_data--; } return left_data ? MORE : data_done(); }), none, bad); break;
            case 6: g.go("box tree " + std::to_string(s.b.tree) + " tokens " + std::to_string(s.b.toks) + " registers " + std::to_string(s.b.regs), [&] { return d.full_box(r.v, s.b.value, s.b.tree, s.b.height, s.b.toks, s.b.regs); }, gate(OUT, [&]() -> R3 { if (bm.st != BoxM::FIN || !left_out) return NO; return bm.init(s.b.value, s.b.tree, s.b.height, s.b.toks, s.b.regs); }), none, bad); break;
            case 7: g.go("box callbacks", [&] { return d.full_cbs(r.v, s.x & 7); }, gate(OUT, [&]() -> R3 { bm.cbs = s.x & 7; return DONE; }), none, bad); break;
            case 8: g.go("tree" + sz, [&] { return d.full_tree(r.v, x.p, x.n); }, gate(OUT, [&]() -> R3 { R3 y = bm.add_tree(s.d); return y == DONE && bm.st == BoxM::FIN ? out_done() : y; }), bm.calls, bad); break;
            case 9: g.go("fee tree", [&] { return d.full_fee(r.v, s.x & 1); }, gate(OUT, [&]() -> R3 { R3 y = bm.add_special(1, ref::fee_tree); return y == DONE && bm.st == BoxM::FIN ? out_done() : y; }), bm.calls, bad); break;
            case 10: { uint8_t k33[33]; k33[0] = 2 | (s.d[64] & 1); memcpy(k33 + 1, &s.d[1], 32); g.go("change tree", [&] { return d.full_change(r.v, x.p); }, gate(OUT, [&]() -> R3 { R3 y = bm.add_special(2, ref::p2pk_tree(k33)); return y == DONE && bm.st == BoxM::FIN ? out_done() : y; }), bm.calls, bad); break; }
            case 11: g.go("tokens" + sz, [&] { return d.full_tokens(r.v, x.p, x.n); }, gate(OUT, [&]() -> R3 { R3 y = bm.add_tokens(s.d, &table, D_tok); return y == DONE && bm.st == BoxM::FIN ? out_done() : y; }), bm.calls, bad); break;
            case 12: g.go("registers" + sz, [&] { return d.full_regs(r.v, x.p, x.n); }, gate(OUT, [&]() -> R3 { R3 y = bm.add_regs(s.d); return y == DONE ? out_done() : y; }), bm.calls, bad); break;
        }
        CHECK(!!d.full_fin(r.v) == (st == FIN), "step %u: the transaction is%s reported finished", g.step, st == FIN ? " not" : "");
    }
    bool done = st == FIN;
    if (done) { Area H(32, 0x11); CHECK(d.hash_end(r.v, H.p), "hash cannot be finished"); B32 h = prim::blake2b_256(out); CHECK(H.get() == Bytes(h.begin(), h.end()), "other bytes than %s were hashed", hxs(out).c_str()); c.label("transactions hashed"); }
    c.count(g.step); c.nontrivial = done || g.after; if (g.after) c.label("steps after a refusal");
}
