#pragma once
/* Host stand-in for the Ledger SDK header of the same name. */
#include "os.h"
#include "cx.h"
static inline cx_err_t bip32_derive_init_privkey_256(cx_curve_t curve, const uint32_t *path, size_t path_len, cx_ecfp_256_private_key_t *privkey, uint8_t *chain_code) {
    uint8_t raw[64];
    cx_err_t error = os_derive_bip32_no_throw(curve, path, path_len, raw, chain_code);
    if (error == CX_OK) error = cx_ecfp_init_private_key_no_throw(curve, raw, 32, privkey);
    explicit_bzero(raw, sizeof(raw));
    if (error != CX_OK) explicit_bzero(privkey, sizeof(*privkey));
    return error;
}
static inline cx_err_t bip32_derive_get_pubkey_256(cx_curve_t curve, const uint32_t *path, size_t path_len, uint8_t raw_pubkey[65], uint8_t *chain_code, cx_md_t hashID) {
    cx_ecfp_256_private_key_t privkey;
    cx_ecfp_256_public_key_t pubkey;
    (void) hashID;
    cx_err_t error = bip32_derive_init_privkey_256(curve, path, path_len, &privkey, chain_code);
    if (error == CX_OK) error = cx_ecfp_generate_pair_no_throw(curve, &pubkey, &privkey, true);
    if (error == CX_OK) memmove(raw_pubkey, pubkey.W, 65);
    explicit_bzero(&privkey, sizeof(privkey));
    return error;
}
