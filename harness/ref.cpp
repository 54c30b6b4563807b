#include "ref.hpp"
namespace ref {
Bytes vlq(uint64_t v) { Bytes b; do { uint8_t x = v & 127; v >>= 7; b.push_back(v ? x | 128 : x); } while (v); return b; }
uint64_t zigzag64(int64_t v) { return v >= 0 ? 2 * (uint64_t) v : 2 * (uint64_t) (-(v + 1)) + 1; }
uint32_t zigzag32(int32_t v) { return v >= 0 ? 2 * (uint32_t) v : 2 * (uint32_t) (-(v + 1)) + 1; }
static Bytes raw(const B32 &b) { return Bytes(b.begin(), b.end()); }
Bytes box_bytes(const Box &b) {
    Bytes o = vlq(b.value) + b.tree + vlq(b.height);
    o.push_back(b.tokens.size());
    for (auto &t : b.tokens) o += raw(t.id) + vlq(t.amount);
    if (b.regs.empty()) o.push_back(0); else o += b.regs;
    return o + raw(b.txid) + vlq(b.index);
}
B32 box_id(const Box &b) { return prim::blake2b_256(box_bytes(b)); }
const Bytes fee_tree = prim::unhex("1005040004000e36100204a00b08cd0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798ea02d192a39a8cc7a701730073011001020402d19683030193a38cc7b2a57300000193c2b2a57301007473027303830108cdeeac93b1a57304");
Bytes p2pk_tree(const uint8_t pk[33]) { return Bytes{0x00, 0x08, 0xcd} + Bytes(pk, pk + 33); }
Bytes p2sh_tree(const uint8_t h[24]) { return prim::unhex("00ea02d193b4cbe4e3010e040004300e18") + Bytes(h, h + 24) + prim::unhex("d40801"); }
const prim::ExtKey &key(const Bytes &seed, const Path &p) { return prim::bip32(seed, p); }
void pub33(const Bytes &seed, const Path &p, uint8_t out[33]) { const prim::ExtKey &k = key(seed, p); out[0] = 2 | (k.pub[64] & 1); memcpy(out + 1, k.pub + 1, 32); }
Bytes out_tree(const Output &o, const Bytes &seed) {
    if (o.kind == Output::FEE) return fee_tree;
    if (o.kind == Output::TREE) return o.tree;
    uint8_t pk[33]; pub33(seed, o.path, pk); return p2pk_tree(pk);
}
Bytes message(const Tx &tx, const Bytes &seed) {
    Bytes m = vlq(tx.in.size());
    for (auto &i : tx.in) { m += raw(i.box.id); m.push_back(0); if (i.ext.empty()) m.push_back(0); else m += i.ext; }
    m += vlq(tx.data.size()); for (auto &d : tx.data) m += raw(d);
    m += vlq(tx.tokens.size()); for (auto &t : tx.tokens) m += raw(t);
    m += vlq(tx.out.size());
    for (auto &o : tx.out) {
        m += vlq(o.value) + out_tree(o, seed) + vlq(o.height); m.push_back(o.tokens.size());
        for (auto &t : o.tokens) m += vlq(t.first) + vlq(t.second);
        if (o.regs.empty()) m.push_back(0); else m += o.regs;
    }
    return m;
}
static Bytes with_checksum(Bytes b) { B32 h = prim::blake2b_256(b); b.insert(b.end(), h.begin(), h.begin() + 4); return b; }
Bytes p2pk_address(uint8_t net, const uint8_t pk[33]) { return with_checksum(Bytes{(uint8_t) (net + 1)} + Bytes(pk, pk + 33)); }
Bytes p2sh_address(uint8_t net, const uint8_t h[32]) { return with_checksum(Bytes{(uint8_t) (net + 2)} + Bytes(h, h + 24)); }
std::string b58(const Bytes &b) { return prim::base58(b.data(), b.size()); }
std::string path_str(const Path &p) { std::string s; for (uint32_t x : p) { if (!s.empty()) s += "/"; s += std::to_string(x & 0x7fffffff); if (x >> 31) s += "'"; } return s; }
std::string erg(uint64_t v) { char b[40]; snprintf(b, sizeof b, "%llu.%09llu ERG", (unsigned long long) (v / 1000000000), (unsigned long long) (v % 1000000000)); return b; }
std::string token_text(const B32 &id, bool nanos) {
    std::string h; for (uint8_t x : id) { char b[3]; snprintf(b, 3, "%02X", x); h += b; }
    unsigned k = nanos ? 7 : 26; return h.substr(0, k) + "..." + h.substr(64 - k);
}
bool signature_ok(const Bytes &sig, const uint8_t pk[33], const Bytes &msg) {
    if (sig.size() != 56) return false;
    uint8_t c[32] = {0}; memcpy(c + 8, sig.data(), 24);
    prim::U256 cc = prim::u256_from_be(c), z = prim::u256_from_be(sig.data() + 24);
    if (prim::u256_cmp(z, prim::N) >= 0) return false;
    prim::Point P; if (!prim::decompress(pk, P)) return false;
    prim::Point w = prim::add(prim::mul_g(z), prim::neg(prim::mul(P, cc)));
    if (w.inf) return false;
    uint8_t w33[33]; prim::compress(w, w33);
    Bytes m = Bytes{0x01, 0x00, 0x27, 0x10, 0x01, 0x08, 0xcd} + Bytes(pk, pk + 33) + Bytes{0x73, 0x00, 0x00, 0x21} + Bytes(w33, w33 + 33) + msg;
    B32 h = prim::blake2b_256(m);
    return memcmp(h.data(), sig.data(), 24) == 0;
}
Bytes frame(const B32 &id, unsigned count, unsigned index, uint64_t value, const std::vector<Token> &t) {
    Bytes f = raw(id); f.push_back(count); f.push_back(index); f += be(value, 8);
    size_t a = std::min<size_t>(4 * index, t.size()), b = std::min<size_t>(a + 4, t.size());
    f.push_back(b - a); for (size_t i = a; i < b; i++) f += raw(t[i].id) + be(t[i].amount, 8);
    return f;
}
Bytes mac16(const Bytes &key, const Bytes &f) { uint8_t o[32]; prim::hmac_sha256(key.data(), key.size(), f.data(), f.size(), o); return Bytes(o, o + 16); }
static const uint32_t H = 0x80000000u;
bool epk_path(const Path &p) { if (p.size() < 3 || p.size() > 10 || p[0] != H + 44 || p[1] != H + 429) return false; for (size_t i = 2; i < p.size(); i++) if (p[i] < H) return false; return true; }
bool addr_path(const Path &p) {
    if (p.size() < 5 || p.size() > 10 || p[0] != H + 44 || p[1] != H + 429 || p[2] < H || p[3] > 1) return false;
    for (size_t i = 4; i < p.size(); i++) if (p[i] >= H) return false;
    return true;
}
bool addr_path5(const Path &p) { return p.size() == 5 && addr_path(p); }
Bytes path_bytes(const Path &p) { Bytes b{(uint8_t) p.size()}; for (uint32_t x : p) b += be(x, 4); return b; }
bool is_p2pk(const Bytes &t) { return t.size() == 36 && t[0] == 0 && t[1] == 8 && t[2] == 0xcd && (t[3] == 2 || t[3] == 3); }
bool is_p2sh(const Bytes &t) { if (t.size() != 44) return false; return p2sh_tree(t.data() + 17) == t; }
std::pair<std::string, std::string> tree_destination(const Bytes &t, uint8_t net) {
    if (is_p2pk(t)) return {"Address", b58(p2pk_address(net, t.data() + 3))};
    uint8_t h[32] = {0};
    if (is_p2sh(t)) memcpy(h, t.data() + 17, 24); else { B32 x = prim::blake2b_256(t); memcpy(h, x.data(), 24); }
    return {"Script Hash", b58(p2sh_address(net, h))};
}
}  // namespace ref
