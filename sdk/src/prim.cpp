#include "prim.hpp"
#include <gmp.h>
#include <algorithm>
namespace prim {
// ---------------------------------------------------------------- SHA-2
static inline uint32_t ror32(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
static inline uint64_t ror64(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }
static uint32_t K256[64]; static uint64_t K512[80]; static uint32_t H256[8]; static uint64_t H512[8];
// The constants are computed (fractional parts of square and cube roots of primes) with GMP.
static struct Init {
    static uint64_t frac(unsigned p, unsigned root) {
        mpz_t a, r; mpz_init_set_ui(a, p); mpz_init(r);
        mpz_mul_2exp(a, a, 64 * root); mpz_root(r, a, root);
        mpz_t m; mpz_init_set_ui(m, 1); mpz_mul_2exp(m, m, 64); mpz_mod(r, r, m);
        uint64_t v = 0; size_t c; mpz_export(&v, &c, -1, 8, 0, 0, r);
        mpz_clear(a); mpz_clear(r); mpz_clear(m); return v;
    }
    Init() {
        unsigned n = 0;
        for (unsigned p = 2; n < 80; p++) {
            bool prime = true; for (unsigned q = 2; q * q <= p; q++) if (p % q == 0) prime = false;
            if (!prime) continue;
            K512[n] = frac(p, 3); if (n < 64) K256[n] = K512[n] >> 32;
            if (n < 8) { H512[n] = frac(p, 2); H256[n] = H512[n] >> 32; }
            n++;
        }
    }
} init_;
Sha256::Sha256() { memcpy(h, H256, sizeof h); }
static void sha256_block(uint32_t h[8], const uint8_t *p) {
    uint32_t w[64];
    for (int i = 0; i < 16; i++) w[i] = p[4*i] << 24 | p[4*i+1] << 16 | p[4*i+2] << 8 | p[4*i+3];
    for (int i = 16; i < 64; i++) {
        uint32_t a = w[i-15], b = w[i-2];
        w[i] = w[i-16] + (ror32(a,7)^ror32(a,18)^(a>>3)) + w[i-7] + (ror32(b,17)^ror32(b,19)^(b>>10));
    }
    uint32_t s[8]; memcpy(s, h, 32);
    for (int i = 0; i < 64; i++) {
        uint32_t t1 = s[7] + (ror32(s[4],6)^ror32(s[4],11)^ror32(s[4],25)) + ((s[4]&s[5])^(~s[4]&s[6])) + K256[i] + w[i];
        uint32_t t2 = (ror32(s[0],2)^ror32(s[0],13)^ror32(s[0],22)) + ((s[0]&s[1])^(s[0]&s[2])^(s[1]&s[2]));
        for (int j = 7; j > 0; j--) s[j] = s[j-1];
        s[4] += t1; s[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) h[i] += s[i];
}
void Sha256::update(const void *vp, size_t len) {
    const uint8_t *p = (const uint8_t *) vp; t += len;
    while (len) { size_t c = std::min<size_t>(64 - n, len); memcpy(buf + n, p, c); n += c; p += c; len -= c; if (n == 64) { sha256_block(h, buf); n = 0; } }
}
void Sha256::final(uint8_t out[32]) {
    uint64_t bits = t * 8; uint8_t b = 0x80; update(&b, 1); b = 0; while (n != 56) update(&b, 1);
    uint8_t l[8]; for (int i = 0; i < 8; i++) l[i] = bits >> (56 - 8*i); update(l, 8);
    for (int i = 0; i < 32; i++) out[i] = h[i/4] >> (24 - 8*(i%4));
}
Sha512::Sha512() { memcpy(h, H512, sizeof h); }
static void sha512_block(uint64_t h[8], const uint8_t *p) {
    uint64_t w[80];
    for (int i = 0; i < 16; i++) { w[i] = 0; for (int j = 0; j < 8; j++) w[i] = w[i] << 8 | p[8*i+j]; }
    for (int i = 16; i < 80; i++) {
        uint64_t a = w[i-15], b = w[i-2];
        w[i] = w[i-16] + (ror64(a,1)^ror64(a,8)^(a>>7)) + w[i-7] + (ror64(b,19)^ror64(b,61)^(b>>6));
    }
    uint64_t s[8]; memcpy(s, h, 64);
    for (int i = 0; i < 80; i++) {
        uint64_t t1 = s[7] + (ror64(s[4],14)^ror64(s[4],18)^ror64(s[4],41)) + ((s[4]&s[5])^(~s[4]&s[6])) + K512[i] + w[i];
        uint64_t t2 = (ror64(s[0],28)^ror64(s[0],34)^ror64(s[0],39)) + ((s[0]&s[1])^(s[0]&s[2])^(s[1]&s[2]));
        for (int j = 7; j > 0; j--) s[j] = s[j-1];
        s[4] += t1; s[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) h[i] += s[i];
}
void Sha512::update(const void *vp, size_t len) {
    const uint8_t *p = (const uint8_t *) vp; t += len;
    while (len) { size_t c = std::min<size_t>(128 - n, len); memcpy(buf + n, p, c); n += c; p += c; len -= c; if (n == 128) { sha512_block(h, buf); n = 0; } }
}
void Sha512::final(uint8_t out[64]) {
    uint64_t bits = t * 8; uint8_t b = 0x80; update(&b, 1); b = 0; while (n != 112) update(&b, 1);
    uint8_t l[16] = {0}; for (int i = 0; i < 8; i++) l[8+i] = bits >> (56 - 8*i); update(l, 16);
    for (int i = 0; i < 64; i++) out[i] = h[i/8] >> (56 - 8*(i%8));
}
void hmac_sha256(const uint8_t *key, size_t klen, const uint8_t *in, size_t len, uint8_t out[32]) {
    uint8_t k[64] = {0}, pad[64], d[32];
    if (klen > 64) { Sha256 s; s.update(key, klen); s.final(k); } else if (klen) memcpy(k, key, klen);
    for (int i = 0; i < 64; i++) pad[i] = k[i] ^ 0x36;
    { Sha256 s; s.update(pad, 64); s.update(in, len); s.final(d); }
    for (int i = 0; i < 64; i++) pad[i] = k[i] ^ 0x5c;
    { Sha256 s; s.update(pad, 64); s.update(d, 32); s.final(out); }
}
void hmac_sha512(const uint8_t *key, size_t klen, const uint8_t *in, size_t len, uint8_t out[64]) {
    uint8_t k[128] = {0}, pad[128], d[64];
    if (klen > 128) { Sha512 s; s.update(key, klen); s.final(k); } else if (klen) memcpy(k, key, klen);
    for (int i = 0; i < 128; i++) pad[i] = k[i] ^ 0x36;
    { Sha512 s; s.update(pad, 128); s.update(in, len); s.final(d); }
    for (int i = 0; i < 128; i++) pad[i] = k[i] ^ 0x5c;
    { Sha512 s; s.update(pad, 128); s.update(d, 64); s.final(out); }
}
// ---------------------------------------------------------------- BLAKE2b
static const uint8_t SIGMA[10][16] = {
    {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},
    {7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},
    {12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},
    {10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};
static void b2_block(uint64_t h[8], const uint8_t *b, uint64_t t, bool last) {
    uint64_t v[16], m[16]; memcpy(m, b, 128);
    for (int i = 0; i < 8; i++) { v[i] = h[i]; v[8+i] = H512[i]; }
    v[12] ^= t; if (last) v[14] = ~v[14];
#define GG(a,b,c,d,x,y) do { v[a]+=v[b]+x; v[d]=ror64(v[d]^v[a],32); v[c]+=v[d]; v[b]=ror64(v[b]^v[c],24); v[a]+=v[b]+y; v[d]=ror64(v[d]^v[a],16); v[c]+=v[d]; v[b]=ror64(v[b]^v[c],63);} while(0)
    for (int r = 0; r < 12; r++) {
        const uint8_t *s = SIGMA[r % 10];
        GG(0,4,8,12,m[s[0]],m[s[1]]); GG(1,5,9,13,m[s[2]],m[s[3]]); GG(2,6,10,14,m[s[4]],m[s[5]]); GG(3,7,11,15,m[s[6]],m[s[7]]);
        GG(0,5,10,15,m[s[8]],m[s[9]]); GG(1,6,11,12,m[s[10]],m[s[11]]); GG(2,7,8,13,m[s[12]],m[s[13]]); GG(3,4,9,14,m[s[14]],m[s[15]]);
    }
    for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[8+i];
}
void blake2b_init(uint64_t h[8], uint64_t *t, uint32_t *n, unsigned outlen) {
    for (int i = 0; i < 8; i++) h[i] = H512[i];
    h[0] ^= 0x01010000 ^ outlen; *t = 0; *n = 0;
}
void blake2b_update(uint64_t h[8], uint64_t *t, uint8_t buf[128], uint32_t *n, const uint8_t *in, size_t len) {
    while (len) {
        if (*n == 128) { *t += 128; b2_block(h, buf, *t, false); *n = 0; }
        size_t c = std::min<size_t>(128 - *n, len); memcpy(buf + *n, in, c); *n += c; in += c; len -= c;
    }
}
void blake2b_final(uint64_t h[8], uint64_t *t, uint8_t buf[128], uint32_t *n, unsigned outlen, uint8_t *out) {
    *t += *n; memset(buf + *n, 0, 128 - *n); b2_block(h, buf, *t, true); memcpy(out, h, outlen);
}
void blake2b_256(const uint8_t *in, size_t len, uint8_t out[32]) {
    uint64_t h[8], t; uint8_t buf[128]; uint32_t n; blake2b_init(h, &t, &n, 32);
    blake2b_update(h, &t, buf, &n, in, len); blake2b_final(h, &t, buf, &n, 32, out);
}
B32 blake2b_256(const Bytes &in) { B32 r; blake2b_256(in.data(), in.size(), r.data()); return r; }
// ---------------------------------------------------------------- secp256k1
typedef unsigned __int128 u128;
const U256 P = {{0xFFFFFFFEFFFFFC2FULL, ~0ULL, ~0ULL, ~0ULL}};
const U256 N = {{0xBFD25E8CD0364141ULL, 0xBAAEDCE6AF48A03BULL, 0xFFFFFFFFFFFFFFFEULL, ~0ULL}};
U256 u256_from_be(const uint8_t b[32]) { U256 r; for (int i = 0; i < 4; i++) { r.v[3-i] = 0; for (int j = 0; j < 8; j++) r.v[3-i] = r.v[3-i] << 8 | b[8*i+j]; } return r; }
void u256_to_be(const U256 &a, uint8_t b[32]) { for (int i = 0; i < 32; i++) b[i] = a.v[3 - i/8] >> (56 - 8*(i%8)); }
bool u256_is_zero(const U256 &a) { return !(a.v[0] | a.v[1] | a.v[2] | a.v[3]); }
int u256_cmp(const U256 &a, const U256 &b) { for (int i = 3; i >= 0; i--) if (a.v[i] != b.v[i]) return a.v[i] < b.v[i] ? -1 : 1; return 0; }
static uint64_t addc(U256 &r, const U256 &a, const U256 &b) { u128 c = 0; for (int i = 0; i < 4; i++) { c += (u128) a.v[i] + b.v[i]; r.v[i] = (uint64_t) c; c >>= 64; } return (uint64_t) c; }
static uint64_t subb(U256 &r, const U256 &a, const U256 &b) { uint64_t br = 0; for (int i = 0; i < 4; i++) { u128 d = (u128) a.v[i] - b.v[i] - br; r.v[i] = (uint64_t) d; br = (uint64_t) (d >> 64) ? 1 : 0; } return br; }
static void toz(mpz_t z, const U256 &a) { mpz_import(z, 4, -1, 8, 0, 0, a.v); }
static U256 fromz(const mpz_t z) { U256 r = {{0,0,0,0}}; size_t c; mpz_export(r.v, &c, -1, 8, 0, 0, z); return r; }
U256 mod(const U256 &a, const U256 &m) { mpz_t x, y; mpz_inits(x, y, NULL); toz(x, a); toz(y, m); mpz_mod(x, x, y); U256 r = fromz(x); mpz_clears(x, y, NULL); return r; }
U256 mulmod(const U256 &a, const U256 &b, const U256 &m) { mpz_t x, y, z; mpz_inits(x, y, z, NULL); toz(x, a); toz(y, b); toz(z, m); mpz_mul(x, x, y); mpz_mod(x, x, z); U256 r = fromz(x); mpz_clears(x, y, z, NULL); return r; }
U256 addmod(const U256 &a, const U256 &b, const U256 &m) { mpz_t x, y, z; mpz_inits(x, y, z, NULL); toz(x, a); toz(y, b); toz(z, m); mpz_add(x, x, y); mpz_mod(x, x, z); U256 r = fromz(x); mpz_clears(x, y, z, NULL); return r; }
U256 submod(const U256 &a, const U256 &b, const U256 &m) { mpz_t x, y, z; mpz_inits(x, y, z, NULL); toz(x, a); toz(y, b); toz(z, m); mpz_sub(x, x, y); mpz_mod(x, x, z); U256 r = fromz(x); mpz_clears(x, y, z, NULL); return r; }
// field arithmetic mod P
static const uint64_t PC = 0x1000003D1ULL;
static U256 fadd(const U256 &a, const U256 &b) {
    U256 r; uint64_t c = addc(r, a, b);
    if (c || u256_cmp(r, P) >= 0) { U256 t; subb(t, r, P); return t; }
    return r;
}
static U256 fsub(const U256 &a, const U256 &b) { U256 r; if (subb(r, a, b)) { U256 t; addc(t, r, P); return t; } return r; }
static U256 fmul(const U256 &a, const U256 &b) {
    uint64_t w[8] = {0};
    for (int i = 0; i < 4; i++) { u128 c = 0; for (int j = 0; j < 4; j++) { c += (u128) a.v[i] * b.v[j] + w[i+j]; w[i+j] = (uint64_t) c; c >>= 64; } w[i+4] = (uint64_t) c; }
    U256 r; u128 c = 0;
    for (int i = 0; i < 4; i++) { c += (u128) w[4+i] * PC + w[i]; r.v[i] = (uint64_t) c; c >>= 64; }
    u128 e = (u128) (uint64_t) c * PC;
    c = (u128) r.v[0] + (uint64_t) e; r.v[0] = (uint64_t) c; c >>= 64;
    c += (u128) r.v[1] + (uint64_t) (e >> 64); r.v[1] = (uint64_t) c; c >>= 64;
    c += r.v[2]; r.v[2] = (uint64_t) c; c >>= 64;
    c += r.v[3]; r.v[3] = (uint64_t) c; c >>= 64;
    if (c) { U256 k = {{PC, 0, 0, 0}}; U256 t; addc(t, r, k); r = t; }
    if (u256_cmp(r, P) >= 0) { U256 t; subb(t, r, P); return t; }
    return r;
}
static U256 finv(const U256 &a) { mpz_t x, y; mpz_inits(x, y, NULL); toz(x, a); toz(y, P); mpz_invert(x, x, y); U256 r = fromz(x); mpz_clears(x, y, NULL); return r; }
struct Jac { U256 x, y, z; bool inf; };
static Jac jdbl(const Jac &p) {
    if (p.inf) return p;
    U256 a = fmul(p.x, p.x), b = fmul(p.y, p.y), c = fmul(b, b);
    U256 xb = fadd(p.x, b); U256 d = fsub(fsub(fmul(xb, xb), a), c); d = fadd(d, d);
    U256 e = fadd(fadd(a, a), a), f = fmul(e, e);
    Jac r; r.inf = false; r.x = fsub(f, fadd(d, d));
    U256 c8 = fadd(c, c); c8 = fadd(c8, c8); c8 = fadd(c8, c8);
    r.y = fsub(fmul(e, fsub(d, r.x)), c8);
    U256 yz = fmul(p.y, p.z); r.z = fadd(yz, yz); return r;
}
static Jac jadd_mixed(const Jac &p, const Point &q) {
    if (q.inf) return p;
    if (p.inf) return Jac{q.x, q.y, {{1,0,0,0}}, false};
    U256 zz = fmul(p.z, p.z), u2 = fmul(q.x, zz), s2 = fmul(fmul(q.y, p.z), zz);
    U256 h = fsub(u2, p.x), rr = fsub(s2, p.y);
    if (u256_is_zero(h)) { if (u256_is_zero(rr)) return jdbl(p); Jac r; r.inf = true; return r; }
    U256 hh = fmul(h, h), hhh = fmul(h, hh), v = fmul(p.x, hh);
    Jac r; r.inf = false; r.x = fsub(fsub(fmul(rr, rr), hhh), fadd(v, v));
    r.y = fsub(fmul(rr, fsub(v, r.x)), fmul(p.y, hhh)); r.z = fmul(p.z, h); return r;
}
static Point jaff(const Jac &j) {
    Point r; if (j.inf) return r;
    U256 zi = finv(j.z), z2 = fmul(zi, zi); r.inf = false; r.x = fmul(j.x, z2); r.y = fmul(j.y, fmul(z2, zi)); return r;
}
const Point G = [] { Point g; g.inf = false; g.x = U256{{0x59F2815B16F81798ULL, 0x029BFCDB2DCE28D9ULL, 0x55A06295CE870B07ULL, 0x79BE667EF9DCBBACULL}}; g.y = U256{{0x9C47D08FFB10D4B8ULL, 0xFD17B448A6855419ULL, 0x5DA4FBFC0E1108A8ULL, 0x483ADA7726A3C465ULL}}; return g; }();
static Point TAB[64][16]; static bool tab_ready = false;
static void mktab() {
    Jac b = Jac{G.x, G.y, {{1,0,0,0}}, false};
    for (int i = 0; i < 64; i++) {
        Point bp = jaff(b); Jac acc; acc.inf = true;
        for (int k = 1; k < 16; k++) { acc = jadd_mixed(acc, bp); TAB[i][k] = jaff(acc); }
        for (int k = 0; k < 4; k++) b = jdbl(b);
    }
    tab_ready = true;
}
Point mul_g(const U256 &k0) {
    if (!tab_ready) mktab();
    U256 k = u256_cmp(k0, N) >= 0 ? mod(k0, N) : k0;
    Jac acc; acc.inf = true;
    for (int i = 0; i < 64; i++) { int d = (k.v[i / 16] >> (4 * (i % 16))) & 15; if (d) acc = jadd_mixed(acc, TAB[i][d]); }
    return jaff(acc);
}
Point mul(const Point &p, const U256 &k) {
    Jac acc; acc.inf = true; if (p.inf) return Point();
    for (int i = 255; i >= 0; i--) { acc = jdbl(acc); if ((k.v[i / 64] >> (i % 64)) & 1) acc = jadd_mixed(acc, p); }
    return jaff(acc);
}
Point add(const Point &a, const Point &b) { if (a.inf) return b; return jaff(jadd_mixed(Jac{a.x, a.y, {{1,0,0,0}}, false}, b)); }
Point neg(const Point &a) { Point r = a; if (!a.inf) { U256 z = {{0,0,0,0}}; r.y = fsub(z, a.y); } return r; }
bool on_curve(const Point &p) {
    if (p.inf || u256_cmp(p.x, P) >= 0 || u256_cmp(p.y, P) >= 0) return false;
    U256 s = {{7,0,0,0}}; U256 r = fadd(fmul(fmul(p.x, p.x), p.x), s); U256 l = fmul(p.y, p.y); return u256_cmp(l, r) == 0;
}
bool decompress(const uint8_t in[33], Point &out) {
    if (in[0] != 2 && in[0] != 3) return false;
    out.inf = false; out.x = u256_from_be(in + 1); if (u256_cmp(out.x, P) >= 0) return false;
    U256 s = {{7,0,0,0}}; U256 r = fadd(fmul(fmul(out.x, out.x), out.x), s);
    mpz_t x, e, m; mpz_inits(x, e, m, NULL); toz(x, r); toz(m, P); mpz_add_ui(e, m, 1); mpz_fdiv_q_2exp(e, e, 2); mpz_powm(x, x, e, m); out.y = fromz(x); mpz_clears(x, e, m, NULL);
    if ((out.y.v[0] & 1) != (uint64_t) (in[0] & 1)) out = neg(out);
    return on_curve(out);
}
void compress(const Point &p, uint8_t out[33]) { out[0] = (p.y.v[0] & 1) ? 3 : 2; u256_to_be(p.x, out + 1); }
void uncompressed(const Point &p, uint8_t out[65]) { out[0] = 4; u256_to_be(p.x, out + 1); u256_to_be(p.y, out + 33); }
bool from_uncompressed(const uint8_t in[65], Point &out) { if (in[0] != 4) return false; out.inf = false; out.x = u256_from_be(in + 1); out.y = u256_from_be(in + 33); return on_curve(out); }
// ---------------------------------------------------------------- BIP32
static void setpub(ExtKey &k) { uncompressed(mul_g(u256_from_be(k.d)), k.pub); }
const ExtKey &bip32(const Bytes &seed, const std::vector<uint32_t> &path) {
    static std::map<Bytes, std::map<std::vector<uint32_t>, ExtKey>> cache;
    auto &c = cache[seed]; auto it = c.find(path); if (it != c.end()) return it->second;
    ExtKey k;
    if (path.empty()) {
        uint8_t i[64]; hmac_sha512((const uint8_t *) "Bitcoin seed", 12, seed.data(), seed.size(), i); memcpy(k.d, i, 32); memcpy(k.chain, i + 32, 32);
    } else {
        std::vector<uint32_t> parent(path.begin(), path.end() - 1); ExtKey p = bip32(seed, parent);
        uint32_t idx = path.back(); uint8_t data[37], i[64];
        if (idx >> 31) { data[0] = 0; memcpy(data + 1, p.d, 32); } else { data[0] = (p.pub[64] & 1) ? 3 : 2; memcpy(data + 1, p.pub + 1, 32); }
        for (int j = 0; j < 4; j++) data[33 + j] = idx >> (24 - 8 * j);
        hmac_sha512(p.chain, 32, data, 37, i);
        u256_to_be(addmod(u256_from_be(i), u256_from_be(p.d), N), k.d); memcpy(k.chain, i + 32, 32);
    }
    setpub(k);
    auto &cc = cache[seed]; if (cc.size() > 20000) cc.clear();
    return cc.emplace(path, k).first->second;
}
bool bip32_pub_child(const Point &p, const uint8_t chain[32], uint32_t index, Point &out, uint8_t out_chain[32]) {
    if (index >> 31) return false;
    uint8_t data[37], i[64]; compress(p, data); for (int j = 0; j < 4; j++) data[33 + j] = index >> (24 - 8 * j);
    hmac_sha512(chain, 32, data, 37, i); out = add(mul_g(u256_from_be(i)), p); memcpy(out_chain, i + 32, 32); return true;
}
std::string base58(const uint8_t *p, size_t n) {
    static const char *A = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    mpz_t x; mpz_init(x); mpz_import(x, n, 1, 1, 0, 0, p); std::string s;
    while (mpz_sgn(x)) { unsigned long r = mpz_fdiv_q_ui(x, x, 58); s += A[r]; }
    for (size_t i = 0; i < n && p[i] == 0; i++) s += '1';
    std::reverse(s.begin(), s.end()); mpz_clear(x); return s;
}
std::string hex(const uint8_t *p, size_t n) { static const char *H = "0123456789abcdef"; std::string s; for (size_t i = 0; i < n; i++) { s += H[p[i] >> 4]; s += H[p[i] & 15]; } return s; }
Bytes unhex(const std::string &s) { Bytes b; for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((uint8_t) strtol(s.substr(i, 2).c_str(), 0, 16)); return b; }
}  // namespace prim
