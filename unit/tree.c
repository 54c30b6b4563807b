// Plain C doors to trees and addresses.
#include "ergo/ergo_tree.h"
#include "ergo/address.h"
int vp_parse_p2pk(const uint8_t *tree, uint8_t *key) { return ergo_tree_parse_p2pk(tree, key); }
int vp_parse_p2sh(const uint8_t *tree, uint8_t *hash) { return ergo_tree_parse_p2sh(tree, hash); }
void vp_make_p2pk(const uint8_t *raw, uint8_t *tree) { ergo_tree_generate_p2pk(raw, tree); }
void vp_fee_tree(int mainnet, const uint8_t **tree, size_t *n) { ergo_tree_miners_fee_tree(mainnet, tree, n); }
int vp_address(int kind, uint8_t net, const uint8_t *in, uint8_t *out) {
    switch (kind) {
        case 0: return ergo_address_from_pubkey(net, in, out);
        case 1: return ergo_address_from_compressed_pubkey(net, in, out);
        default: return ergo_address_from_script_hash(net, in, out);
    }
}
