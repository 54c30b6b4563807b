#pragma once
/* Host stand-in for the Ledger SDK header of the same name. */
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>
#include "macros.h"
#include "os.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef uint32_t cx_err_t;
#define CX_OK                 0x00000000
#define CX_CARRY              0xFFFFFF21
#define CX_LOCKED             0xFFFFFF81
#define CX_UNLOCKED           0xFFFFFF82
#define CX_NOT_LOCKED         0xFFFFFF83
#define CX_NOT_UNLOCKED       0xFFFFFF84
#define CX_INTERNAL_ERROR     0xFFFFFF85
#define CX_INVALID_PARAMETER_SIZE 0xFFFFFF86
#define CX_INVALID_PARAMETER_VALUE 0xFFFFFF87
#define CX_INVALID_PARAMETER  0xFFFFFF88
#define CX_NOT_INVERTIBLE     0xFFFFFF89
#define CX_OVERFLOW           0xFFFFFF8A
#define CX_MEMORY_FULL        0xFFFFFF8B
#define CX_NO_RESIDUE         0xFFFFFF8C
#define CX_EC_INFINITE_POINT  0xFFFFFF41
#define CX_EC_INVALID_POINT   0xFFFFFFA2
#define CX_EC_INVALID_CURVE   0xFFFFFFA3

typedef enum cx_md_e { CX_NONE = 0, CX_RIPEMD160 = 1, CX_SHA224 = 2, CX_SHA256 = 3, CX_SHA384 = 4, CX_SHA512 = 5, CX_BLAKE2B = 9 } cx_md_t;
typedef enum cx_curve_e { CX_CURVE_NONE = 0, CX_CURVE_SECP256K1 = 0x21, CX_CURVE_256K1 = 0x21, CX_CURVE_SECP256R1 = 0x22 } cx_curve_t;

#define CX_LAST      (1 << 0)
#define CX_NO_REINIT (1 << 15)
#define CX_SHA256_SIZE      32
#define CX_SHA512_SIZE      64
#define CX_BLAKE2B_256_SIZE 32
#define CX_BLAKE2B_512_SIZE 64

struct cx_hash_header_s { cx_md_t md_type; size_t output_size; };
typedef struct cx_hash_header_s cx_hash_t;
/* A plain structure, copyable and erasable, as on the device. */
struct cx_blake2b_s {
    struct cx_hash_header_s header;
    uint64_t h[8];
    uint64_t t;
    uint8_t buf[128];
    uint32_t buflen;
};
typedef struct cx_blake2b_s cx_blake2b_t;
struct cx_sha256_s {
    struct cx_hash_header_s header;
    uint32_t h[8];
    uint64_t t;
    uint8_t buf[64];
    uint32_t buflen;
};
typedef struct cx_sha256_s cx_sha256_t;

cx_err_t cx_blake2b_init_no_throw(cx_blake2b_t *hash, size_t out_bits);
cx_err_t cx_hash_no_throw(cx_hash_t *hash, uint32_t mode, const uint8_t *in, size_t len, uint8_t *out, size_t out_len);
cx_err_t cx_hash_update(cx_hash_t *hash, const uint8_t *in, size_t len);
cx_err_t cx_hash_final(cx_hash_t *hash, uint8_t *out);
cx_err_t cx_blake2b_256_hash(const uint8_t *data, size_t len, uint8_t out[CX_BLAKE2B_256_SIZE]);
cx_err_t cx_sha256_init_no_throw(cx_sha256_t *hash);
size_t cx_hash_sha256(const uint8_t *in, size_t len, uint8_t *out, size_t out_len);
size_t cx_hmac_sha256(const uint8_t *key, size_t key_len, const uint8_t *in, size_t len, uint8_t *mac, size_t mac_len);

uint8_t *cx_rng(uint8_t *buffer, size_t len);
void cx_rng_no_throw(uint8_t *buffer, size_t len);
void cx_get_random_bytes(void *buffer, size_t len);
#define CX_CHECK(call) do { error = (call); if (error) goto end; } while (0)
#define CX_CHECK_IGNORE_CARRY(call) do { error = (call); if (error && error != CX_CARRY) goto end; } while (0)
uint8_t cx_rng_u8(void);
uint32_t cx_rng_u32(void);

bool cx_math_is_zero(const uint8_t *a, size_t len);
cx_err_t cx_math_cmp_no_throw(const uint8_t *a, const uint8_t *b, size_t len, int *diff);
cx_err_t cx_math_multm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len);
cx_err_t cx_math_addm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len);
cx_err_t cx_math_subm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len);
cx_err_t cx_math_modm_no_throw(uint8_t *v, size_t len_v, const uint8_t *m, size_t len_m);

cx_err_t cx_ecfp_scalar_mult_no_throw(cx_curve_t curve, uint8_t *P, const uint8_t *k, size_t k_len);

struct cx_ecfp_256_public_key_s { cx_curve_t curve; size_t W_len; uint8_t W[65]; };
struct cx_ecfp_256_private_key_s { cx_curve_t curve; size_t d_len; uint8_t d[32]; };
typedef struct cx_ecfp_256_public_key_s cx_ecfp_256_public_key_t;
typedef struct cx_ecfp_256_private_key_s cx_ecfp_256_private_key_t;
typedef struct cx_ecfp_256_public_key_s cx_ecfp_public_key_t;
typedef struct cx_ecfp_256_private_key_s cx_ecfp_private_key_t;
cx_err_t cx_ecfp_init_private_key_no_throw(cx_curve_t curve, const uint8_t *raw, size_t len, cx_ecfp_256_private_key_t *key);
cx_err_t cx_ecfp_generate_pair_no_throw(cx_curve_t curve, cx_ecfp_256_public_key_t *pub, cx_ecfp_256_private_key_t *priv, bool keep_private);
#ifdef __cplusplus
}
#endif
