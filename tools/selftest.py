#!/usr/bin/env python3
"""Compares the stub's primitives (sdk/src/prim.cpp) with Python's hashlib and hmac and a plain curve implementation."""
import hashlib, hmac, os, random, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = r'''
#include "prim.hpp"
#include <cstdio>
#include <iostream>
using namespace prim;
static U256 num(const std::string &s) { Bytes b = unhex(s); return u256_from_be(b.data()); }
static std::string out(const U256 &u) { uint8_t b[32]; u256_to_be(u, b); return hex(b, 32); }
static std::string out(const Point &p) { if (p.inf) return "inf"; uint8_t b[33]; compress(p, b); return hex(b, 33); }
static Point pt(const std::string &s) { Point p; if (s == "inf") return p; Bytes b = unhex(s); if (!decompress(b.data(), p)) { puts("bad"); } return p; }
int main() {
    std::string op, a, b, m; uint8_t o[64];
    while (std::cin >> op >> a >> b >> m) {
        Bytes x = a == "-" ? Bytes() : unhex(a), y = b == "-" ? Bytes() : unhex(b);
        if (op == "sha256") { Sha256 h; size_t k = x.size() / 3; h.update(x.data(), k); h.update(x.data() + k, x.size() - k); h.final(o); puts(hex(o, 32).c_str()); }
        else if (op == "sha512") { Sha512 h; size_t k = x.size() / 3; h.update(x.data(), k); h.update(x.data() + k, x.size() - k); h.final(o); puts(hex(o, 64).c_str()); }
        else if (op == "hmac256") { hmac_sha256(x.data(), x.size(), y.data(), y.size(), o); puts(hex(o, 32).c_str()); }
        else if (op == "hmac512") { hmac_sha512(x.data(), x.size(), y.data(), y.size(), o); puts(hex(o, 64).c_str()); }
        else if (op == "blake") { blake2b_256(x.data(), x.size(), o); puts(hex(o, 32).c_str()); }
        else if (op == "blakes") { uint64_t h[8], t; uint32_t n; uint8_t buf[128]; blake2b_init(h, &t, &n, 32); size_t k = x.size() / 3; blake2b_update(h, &t, buf, &n, x.data(), k); blake2b_update(h, &t, buf, &n, x.data() + k, x.size() - k); blake2b_final(h, &t, buf, &n, 32, o); puts(hex(o, 32).c_str()); }
        else if (op == "mul") puts(out(mulmod(num(a), num(b), num(m))).c_str());
        else if (op == "add") puts(out(addmod(num(a), num(b), num(m))).c_str());
        else if (op == "sub") puts(out(submod(num(a), num(b), num(m))).c_str());
        else if (op == "mod") puts(out(mod(num(a), num(m))).c_str());
        else if (op == "mulg") puts(out(mul_g(num(a))).c_str());
        else if (op == "pmul") puts(out(mul(pt(a), num(b))).c_str());
        else if (op == "padd") puts(out(add(pt(a), pt(b))).c_str());
        else if (op == "neg") puts(out(neg(pt(a))).c_str());
        else if (op == "dec") { Point p; puts(decompress(x.data(), p) && on_curve(p) ? "yes" : "no"); }
        else if (op == "bip32" || op == "pub") {
            std::vector<uint32_t> p; for (size_t i = 0; i + 4 <= y.size(); i += 4) p.push_back(y[i] << 24 | y[i + 1] << 16 | y[i + 2] << 8 | y[i + 3]);
            if (op == "bip32") { const ExtKey &k = bip32(x, p); Bytes r(k.d, k.d + 32), c(k.chain, k.chain + 32), q(k.pub, k.pub + 65); puts((hex(r) + hex(c) + hex(q)).c_str()); }
            else { uint32_t last = p.back(); p.pop_back(); ExtKey k = bip32(x, p); Point q, r; from_uncompressed(k.pub, q); uint8_t ch[32]; if (!bip32_pub_child(q, k.chain, last, r, ch)) puts("no"); else puts((out(r) + hex(ch, 32)).c_str()); }
        }
        else if (op == "b58") puts(("." + base58(x.data(), x.size())).c_str());
        else puts("?");
    }
}
'''
P = 2**256 - 2**32 - 977; N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)
def add(a, b):
    if a is None: return b
    if b is None: return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0: return None
        l = 3 * a[0] * a[0] * pow(2 * a[1], -1, P) % P
    else: l = (b[1] - a[1]) * pow(b[0] - a[0], -1, P) % P
    x = (l * l - a[0] - b[0]) % P
    return x, (l * (a[0] - x) - a[1]) % P
def mul(k, p):
    r = None
    while k:
        if k & 1: r = add(r, p)
        p = add(p, p); k >>= 1
    return r
def comp(p): return "inf" if p is None else "%02x%064x" % (2 + (p[1] & 1), p[0])
def unc(p): return "04%064x%064x" % p
def hm(k, d, h): return hmac.new(k, d, h).digest()
def ckd(k, c, i):
    d = (b"\0" + k.to_bytes(32, "big") if i >> 31 else bytes.fromhex(comp(mul(k, G)))) + i.to_bytes(4, "big")
    I = hm(c, d, "sha512"); return (int.from_bytes(I[:32], "big") + k) % N, I[32:]
def bip32(seed, path):
    I = hm(b"Bitcoin seed", seed, "sha512"); k, c = int.from_bytes(I[:32], "big"), I[32:]
    for i in path: k, c = ckd(k, c, i)
    return k, c
def b58(b):
    a = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"; n = int.from_bytes(b, "big"); s = ""
    while n: n, r = divmod(n, 58); s = a[r] + s
    return "1" * (len(b) - len(b.lstrip(b"\0"))) + s

def main():
    # BIP32 test vector 1 (m/0'/1)
    k, c = bip32(bytes.fromhex("000102030405060708090a0b0c0d0e0f"), [2**31, 1])
    assert "%064x" % k == "3c6cb8d0f6a264c91ea8b5030fadaa8e538b020f0a387421a12de9319dc93368"
    assert mul(N, G) is None and add(mul(N - 1, G), G) is None
    rnd = random.Random(int(os.environ.get("VERIF_SEED", "1"))); q = []
    h = lambda b: b.hex() or "-"
    def n(m=2**256): return rnd.choice([rnd.randrange(m), rnd.randrange(min(m, 1000)), m - 1 - rnd.randrange(5), rnd.randrange(2**rnd.randrange(1, 257)) % m])
    def ask(op, a, b, m, want): q.append(("%s %s %s %s" % (op, a or "-", b or "-", m or "-"), want))
    for L in list(range(0, 140)) + [rnd.randrange(2000) for _ in range(60)]:
        d = rnd.randbytes(L)
        ask("sha256", h(d), 0, 0, hashlib.sha256(d).hexdigest()); ask("sha512", h(d), 0, 0, hashlib.sha512(d).hexdigest())
        w = hashlib.blake2b(d, digest_size=32).hexdigest(); ask("blake", h(d), 0, 0, w); ask("blakes", h(d), 0, 0, w)
        key = rnd.randbytes(rnd.randrange(1, 200)); ask("hmac256", h(key), h(d), 0, hm(key, d, "sha256").hex()); ask("hmac512", h(key), h(d), 0, hm(key, d, "sha512").hex())
        z = bytes(rnd.randrange(3)) + d[:40]; ask("b58", h(z), 0, 0, "." + b58(z))
    x = lambda v: "%064x" % v
    for _ in range(400):
        m = rnd.choice([P, N]); a, b = n(m), n(m)
        ask("mul", x(a), x(b), x(m), x(a * b % m)); ask("add", x(a), x(b), x(m), x((a + b) % m)); ask("sub", x(a), x(b), x(m), x((a - b) % m)); v = n(); ask("mod", x(v), 0, x(m), x(v % m))
    pts = [None, G]
    for _ in range(150):
        a = n(N); p = mul(a, G); pts.append(p); ask("mulg", x(a), 0, 0, comp(p))
        p, r = rnd.choice(pts), rnd.choice(pts)
        if rnd.random() < .2 and p: r = rnd.choice([p, (p[0], P - p[1])])
        ask("padd", comp(p), comp(r), 0, comp(add(p, r))); b = n(N)
        if p: ask("pmul", comp(p), x(b), 0, comp(mul(b, p))); ask("neg", comp(p), 0, 0, comp((p[0], P - p[1])))
        v = n(); ask("dec", "02" + x(v), 0, 0, "yes" if v < P and (pow(v, 3, P) + 7) % P in (0,) or v < P and pow((pow(v, 3, P) + 7) % P, (P - 1) // 2, P) == 1 else "no")
    for _ in range(60):
        seed = rnd.randbytes(rnd.randrange(16, 65)); path = [rnd.randrange(2**31) | rnd.choice([0, 2**31]) for _ in range(rnd.randrange(1, 7))]; e = b"".join(i.to_bytes(4, "big") for i in path)
        k, c = bip32(seed, path); ask("bip32", h(seed), h(e), 0, x(k) + c.hex() + unc(mul(k, G))); ask("pub", h(seed), h(e), 0, "no" if path[-1] >> 31 else comp(mul(k, G)) + c.hex())
    with tempfile.TemporaryDirectory() as t:
        open(t + "/s.cpp", "w").write(SRC)
        subprocess.run(["clang++", "-std=c++17", "-O1", "-w", "-I", V + "/sdk/src", t + "/s.cpp", V + "/sdk/src/prim.cpp", "-o", t + "/s", "-lgmp"], check=True)
        got = subprocess.run([t + "/s"], input="\n".join(a for a, _ in q) + "\n", capture_output=True, text=True, check=True).stdout.split()
    bad = [(a, w, g) for (a, w), g in zip(q, got) if w != g]
    for a, w, g in bad[:10]: print("DIFFERS", a[:200], "expected", w, "got", g)
    print("%d comparisons, %d differences" % (len(q), len(bad))); return 1 if bad or len(got) != len(q) else 0
if __name__ == "__main__": raise SystemExit(main())
