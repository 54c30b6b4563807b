// Self-contained primitives used by the stub SDK and by the reference oracle:
// SHA-256/512, HMAC, BLAKE2b, secp256k1 group and scalar arithmetic, BIP32. Checked by tools/selftest.py.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <array>
#include <string>
#include <vector>
#include <map>
namespace prim {
typedef std::vector<uint8_t> Bytes;
typedef std::array<uint8_t, 32> B32;

// ---------------------------------------------------------------- SHA-2
struct Sha256 {
    uint32_t h[8]; uint64_t t = 0; uint8_t buf[64]; uint32_t n = 0;
    Sha256();
    void update(const void *p, size_t len);
    void final(uint8_t out[32]);
};
struct Sha512 {
    uint64_t h[8]; uint64_t t = 0; uint8_t buf[128]; uint32_t n = 0;
    Sha512();
    void update(const void *p, size_t len);
    void final(uint8_t out[64]);
};
void hmac_sha256(const uint8_t *key, size_t klen, const uint8_t *in, size_t len, uint8_t out[32]);
void hmac_sha512(const uint8_t *key, size_t klen, const uint8_t *in, size_t len, uint8_t out[64]);

// ---------------------------------------------------------------- BLAKE2b (raw state operated on by the stub as well)
void blake2b_init(uint64_t h[8], uint64_t *t, uint32_t *buflen, unsigned outlen);
void blake2b_update(uint64_t h[8], uint64_t *t, uint8_t buf[128], uint32_t *buflen, const uint8_t *in, size_t len);
void blake2b_final(uint64_t h[8], uint64_t *t, uint8_t buf[128], uint32_t *buflen, unsigned outlen, uint8_t *out);
void blake2b_256(const uint8_t *in, size_t len, uint8_t out[32]);
B32 blake2b_256(const Bytes &in);

// ---------------------------------------------------------------- secp256k1
struct U256 { uint64_t v[4]; };  // little-endian limbs
U256 u256_from_be(const uint8_t b[32]);
void u256_to_be(const U256 &a, uint8_t b[32]);
bool u256_is_zero(const U256 &a);
int u256_cmp(const U256 &a, const U256 &b);
extern const U256 P, N;
U256 mulmod(const U256 &a, const U256 &b, const U256 &m);  // generic, slow
U256 addmod(const U256 &a, const U256 &b, const U256 &m);
U256 submod(const U256 &a, const U256 &b, const U256 &m);
U256 mod(const U256 &a, const U256 &m);
struct Point { bool inf = true; U256 x, y; };
Point mul_g(const U256 &k);             // k mod N, may be zero -> infinity
Point mul(const Point &p, const U256 &k);
Point add(const Point &a, const Point &b);
Point neg(const Point &a);
bool on_curve(const Point &p);
bool decompress(const uint8_t in[33], Point &out);
void compress(const Point &p, uint8_t out[33]);
void uncompressed(const Point &p, uint8_t out[65]);
bool from_uncompressed(const uint8_t in[65], Point &out);
extern const Point G;

// ---------------------------------------------------------------- BIP32
struct ExtKey { uint8_t d[32]; uint8_t chain[32]; uint8_t pub[65]; };
// Derived from the seed (any length), cached per seed and path.
const ExtKey &bip32(const Bytes &seed, const std::vector<uint32_t> &path);
// public child of (point, chain): false when index is hardened
bool bip32_pub_child(const Point &p, const uint8_t chain[32], uint32_t index, Point &out, uint8_t out_chain[32]);

std::string base58(const uint8_t *p, size_t n);
std::string hex(const uint8_t *p, size_t n);
inline std::string hex(const Bytes &b) { return hex(b.data(), b.size()); }
Bytes unhex(const std::string &s);
}  // namespace prim
