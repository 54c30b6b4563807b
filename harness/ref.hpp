// Reference serialisations and formats, written from the Ergo and the APDU documentation.
#pragma once
#include "device.hpp"
typedef std::vector<uint32_t> Path;
struct Token { B32 id; uint64_t amount; bool operator==(const Token &o) const { return id == o.id && amount == o.amount; } };
struct Box {
    uint64_t value = 0; Bytes tree; uint32_t height = 0; std::vector<Token> tokens; Bytes regs; B32 txid{}; uint16_t index = 0;
};
struct Attested { B32 id; uint64_t value; std::vector<Token> tokens; std::vector<Bytes> frames; };
struct Output {
    enum Kind { TREE, FEE, CHANGE } kind = TREE;
    uint64_t value = 0; Bytes tree; Path path; uint32_t height = 0; std::vector<std::pair<uint32_t, uint64_t>> tokens; Bytes regs;
};
struct Input { Attested box; Bytes ext; };
struct Tx { std::vector<Input> in; std::vector<B32> data; std::vector<B32> tokens; std::vector<Output> out; };

namespace ref {
Bytes vlq(uint64_t v);
uint64_t zigzag64(int64_t v); uint32_t zigzag32(int32_t v);
Bytes box_bytes(const Box &b);                         // canonical bytes with transaction id and index
B32 box_id(const Box &b);
Bytes p2pk_tree(const uint8_t pk33[33]);
Bytes p2sh_tree(const uint8_t hash24[24]);
extern const Bytes fee_tree;
Bytes out_tree(const Output &o, const Bytes &seed);
Bytes message(const Tx &tx, const Bytes &seed);        // what is hashed after the commitment prefix
const prim::ExtKey &key(const Bytes &seed, const Path &p);
void pub33(const Bytes &seed, const Path &p, uint8_t out[33]);
Bytes p2pk_address(uint8_t net, const uint8_t pk33[33]);      // 38 raw bytes
Bytes p2sh_address(uint8_t net, const uint8_t hash[32]);      // 29 raw bytes
std::string b58(const Bytes &b);
std::string path_str(const Path &p);
std::string erg(uint64_t v);
std::string token_text(const B32 &id, bool nanos);
bool signature_ok(const Bytes &sig, const uint8_t pk33[33], const Bytes &msg);
Bytes frame(const B32 &id, unsigned count, unsigned index, uint64_t value, const std::vector<Token> &t);   // without MAC
Bytes mac16(const Bytes &key, const Bytes &f);
bool epk_path(const Path &p); bool addr_path(const Path &p); bool addr_path5(const Path &p);
Bytes path_bytes(const Path &p);                       // length byte and big-endian steps
// destination as shown on the review of an output sent as tree: title and text
std::pair<std::string, std::string> tree_destination(const Bytes &tree, uint8_t net);
bool is_p2pk(const Bytes &tree); bool is_p2sh(const Bytes &tree);
}  // namespace ref
