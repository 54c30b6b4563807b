// Host implementation of the parts of the Ledger SDK the application uses.
#include "host.hpp"
#include "prim.hpp"
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
extern "C" {
#include "cx.h"
#include "ux.h"
#include "io.h"
#include "os.h"
#include "format.h"
#include "glyphs.h"
#include "parser.h"
}
namespace host {
std::vector<Resp> responses; Screen screen; uint64_t layouts; bool exited; Bytes seed;
std::function<void(uint8_t *, size_t)> rng; std::vector<Draw> draws; uint8_t last_byte = 0;
std::function<bool(const char *)> fault_hook; uint64_t fallible_calls; uint32_t fault_code = CX_INTERNAL_ERROR; bool fault_trash = false;
std::vector<const char *> fault_log; uint64_t sdk_calls;
std::function<int(uint8_t *, size_t)> recv;
static bool fault(const char *name) {
    fallible_calls++;
    if (fault_hook && fault_hook(name)) { fault_log.push_back(name); return true; }
    return false;
}
}  // namespace host
using host::fault;
#define TRASH(p, n) do { if (host::fault_trash && (p)) memset((p), 0x5A, (n)); } while (0)

extern "C" {
unsigned char G_io_apdu_buffer[IO_APDU_BUFFER_SIZE];
ux_state_t G_ux;
const bagl_icon_details_t C_icon_warning = {1,1,1,"warning"}, C_icon_validate_14 = {1,1,1,"validate"}, C_icon_crossmark = {1,1,1,"crossmark"},
    C_icon_processing = {1,1,1,"processing"}, C_icon_eye = {1,1,1,"eye"}, C_icon_certificate = {1,1,1,"certificate"},
    C_icon_dashboard_x = {1,1,1,"dashboard_x"}, C_icon_back = {1,1,1,"back"}, C_icon_dashboard = {1,1,1,"dashboard"}, C_icon_coggle = {1,1,1,"coggle"},
    C_app_logo = {1,1,1,"logo"}, C_icon_up = {1,1,1,"up"}, C_icon_down = {1,1,1,"down"}, C_icon_left = {1,1,1,"left"}, C_icon_right = {1,1,1,"right"};

void stub_assert_failed(const char *file, int line) { fprintf(stderr, "LEDGER_ASSERT failed at %s:%d\n", file, line); abort(); }
void stub_printf(const char *fmt, ...) { (void) fmt; }
void os_sched_exit(int) { host::exited = true; }
char os_secure_memcmp(const void *a, const void *b, size_t n) { unsigned char r = 0; for (size_t i = 0; i < n; i++) r |= ((const uint8_t *) a)[i] ^ ((const uint8_t *) b)[i]; return (char) r; }

// ---------------------------------------------------------------- hashing
cx_err_t cx_blake2b_init_no_throw(cx_blake2b_t *c, size_t bits) {
    if (fault("blake2b_init")) { TRASH(c, sizeof *c); return host::fault_code; }
    if (bits == 0 || bits > 512 || bits % 8) return CX_INVALID_PARAMETER;
    memset(c, 0, sizeof *c); c->header.md_type = CX_BLAKE2B; c->header.output_size = bits / 8;
    prim::blake2b_init(c->h, &c->t, &c->buflen, bits / 8); return CX_OK;
}
cx_err_t cx_sha256_init_no_throw(cx_sha256_t *c) { if (fault("sha256_init")) { TRASH(c, sizeof *c); return host::fault_code; } memset(c, 0, sizeof *c); c->header.md_type = CX_SHA256; c->header.output_size = 32; prim::Sha256 s; memcpy(c->h, s.h, 32); return CX_OK; }
cx_err_t cx_hash_no_throw(cx_hash_t *h, uint32_t mode, const uint8_t *in, size_t len, uint8_t *out, size_t out_len) {
    if (fault("hash")) { if (out) TRASH(out, out_len); return host::fault_code; }
    if (h->md_type == CX_SHA256) {
        cx_sha256_t *c = (cx_sha256_t *) h; prim::Sha256 s; memcpy(s.h, c->h, 32); s.t = c->t; memcpy(s.buf, c->buf, 64); s.n = c->buflen;
        if (len) s.update(in, len);
        if (mode & CX_LAST) { if (out_len < 32) return CX_INVALID_PARAMETER; s.final(out); }
        memcpy(c->h, s.h, 32); c->t = s.t; memcpy(c->buf, s.buf, 64); c->buflen = s.n; return CX_OK;
    }
    if (h->md_type != CX_BLAKE2B) return CX_INVALID_PARAMETER;
    cx_blake2b_t *c = (cx_blake2b_t *) h;
    if (c->buflen > 128) return CX_INVALID_PARAMETER;
    if (len) {
        uint8_t *tmp = (uint8_t *) malloc(len); memcpy(tmp, in, len);  // checked read of the whole input
        prim::blake2b_update(c->h, &c->t, c->buf, &c->buflen, tmp, len); free(tmp);
    }
    if (mode & CX_LAST) {
        if (out_len < c->header.output_size) return CX_INVALID_PARAMETER;
        uint8_t r[64]; unsigned n = c->header.output_size; prim::blake2b_final(c->h, &c->t, c->buf, &c->buflen, n, r); memcpy(out, r, n);
        if (!(mode & CX_NO_REINIT)) prim::blake2b_init(c->h, &c->t, &c->buflen, n);
    }
    return CX_OK;
}
cx_err_t cx_hash_update(cx_hash_t *h, const uint8_t *in, size_t len) { return cx_hash_no_throw(h, 0, in, len, NULL, 0); }
cx_err_t cx_hash_final(cx_hash_t *h, uint8_t *out) { return cx_hash_no_throw(h, CX_LAST, NULL, 0, out, h->output_size); }
cx_err_t cx_blake2b_256_hash(const uint8_t *data, size_t len, uint8_t *out) {
    if (fault("blake2b_256")) { TRASH(out, 32); return host::fault_code; }
    uint8_t *tmp = (uint8_t *) malloc(len + 1), r[32]; memcpy(tmp, data, len); prim::blake2b_256(tmp, len, r); free(tmp); memcpy(out, r, 32); return CX_OK;
}
size_t cx_hash_sha256(const uint8_t *in, size_t len, uint8_t *out, size_t out_len) { if (fault("sha256")) { TRASH(out, out_len); return 0; } if (out_len < 32) return 0; prim::Sha256 s; s.update(in, len); s.final(out); return 32; }
size_t cx_hmac_sha256(const uint8_t *key, size_t klen, const uint8_t *in, size_t len, uint8_t *mac, size_t mac_len) {
    if (fault("hmac")) { TRASH(mac, mac_len); return 0; }
    if (klen > 4096 || len > 1 << 20) return 0;
    uint8_t r[32]; uint8_t *k = (uint8_t *) malloc(klen + 1), *d = (uint8_t *) malloc(len + 1); memcpy(k, key, klen); memcpy(d, in, len);
    prim::hmac_sha256(k, klen, d, len, r); free(k); free(d);
    size_t n = mac_len < 32 ? mac_len : 32; memcpy(mac, r, n); return n;
}
// ---------------------------------------------------------------- randomness
void cx_rng_no_throw(uint8_t *buffer, size_t len) {
    host::Draw d; d.data.resize(len); if (len) host::rng(d.data.data(), len); memcpy(buffer, d.data.data(), len); host::draws.push_back(d); if (len == 1) host::last_byte = *buffer;
}
uint8_t *cx_rng(uint8_t *buffer, size_t len) { cx_rng_no_throw(buffer, len); return buffer; }
void cx_get_random_bytes(void *buffer, size_t len) { cx_rng_no_throw((uint8_t *) buffer, len); }
uint8_t cx_rng_u8(void) { uint8_t r; cx_rng_no_throw(&r, 1); return r; }
uint32_t cx_rng_u32(void) { uint32_t r; cx_rng_no_throw((uint8_t *) &r, 4); return r; }
// ---------------------------------------------------------------- big numbers and curve
bool cx_math_is_zero(const uint8_t *a, size_t len) { uint8_t r = 0; for (size_t i = 0; i < len; i++) r |= a[i]; return r == 0; }
cx_err_t cx_math_cmp_no_throw(const uint8_t *a, const uint8_t *b, size_t len, int *diff) {
    if (fault("math_cmp")) { if (host::fault_trash) *diff = -1; return host::fault_code; }
    int d = 0; for (size_t i = 0; i < len && !d; i++) d = a[i] < b[i] ? -1 : a[i] > b[i]; *diff = d; return CX_OK;
}
static bool load(const uint8_t *p, prim::U256 &u) { uint8_t t[32]; memcpy(t, p, 32); u = prim::u256_from_be(t); explicit_bzero(t, 32); return true; }
static void store(uint8_t *p, const prim::U256 &u) { uint8_t t[32]; prim::u256_to_be(u, t); memcpy(p, t, 32); explicit_bzero(t, 32); }
cx_err_t cx_math_multm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len) {
    if (fault("math_multm")) { TRASH(r, len); return host::fault_code; }
    if (len != 32) return CX_INVALID_PARAMETER;
    prim::U256 x, y, z; load(a, x); load(b, y); load(m, z); if (prim::u256_is_zero(z)) return CX_INVALID_PARAMETER; store(r, prim::mulmod(x, y, z)); return CX_OK;
}
cx_err_t cx_math_addm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len) {
    if (fault("math_addm")) { TRASH(r, len); return host::fault_code; }
    if (len != 32) return CX_INVALID_PARAMETER;
    prim::U256 x, y, z; load(a, x); load(b, y); load(m, z);
    if (prim::u256_cmp(x, z) >= 0 || prim::u256_cmp(y, z) >= 0) return CX_INVALID_PARAMETER;
    store(r, prim::addmod(x, y, z)); return CX_OK;
}
cx_err_t cx_math_subm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len) {
    if (fault("math_subm")) { TRASH(r, len); return host::fault_code; }
    if (len != 32) return CX_INVALID_PARAMETER;
    prim::U256 x, y, z; load(a, x); load(b, y); load(m, z);
    if (prim::u256_cmp(x, z) >= 0 || prim::u256_cmp(y, z) >= 0) return CX_INVALID_PARAMETER;
    store(r, prim::submod(x, y, z)); return CX_OK;
}
cx_err_t cx_math_modm_no_throw(uint8_t *v, size_t len_v, const uint8_t *m, size_t len_m) {
    if (fault("math_modm")) return host::fault_code;
    if (len_v != 32 || len_m != 32) return CX_INVALID_PARAMETER;
    prim::U256 x, z; load(v, x); load(m, z); store(v, prim::mod(x, z)); return CX_OK;
}
cx_err_t cx_ecfp_scalar_mult_no_throw(cx_curve_t curve, uint8_t *Pt, const uint8_t *k, size_t k_len) {
    if (fault("scalar_mult")) { TRASH(Pt + 1, 64); return host::fault_code; }
    if (curve != CX_CURVE_SECP256K1) return CX_EC_INVALID_CURVE;
    if (k_len != 32) return CX_INVALID_PARAMETER;
    uint8_t t[65]; memcpy(t, Pt, 65); prim::Point p; if (!prim::from_uncompressed(t, p)) return CX_EC_INVALID_POINT;
    prim::U256 u; load(k, u); bool isg = prim::u256_cmp(p.x, prim::G.x) == 0 && prim::u256_cmp(p.y, prim::G.y) == 0;
    prim::Point r = isg ? prim::mul_g(u) : prim::mul(p, prim::mod(u, prim::N));
    if (r.inf) return CX_EC_INFINITE_POINT;
    prim::uncompressed(r, t); memcpy(Pt, t, 65); return CX_OK;
}
cx_err_t cx_ecfp_init_private_key_no_throw(cx_curve_t curve, const uint8_t *raw, size_t len, cx_ecfp_256_private_key_t *key) {
    if (fault("init_private_key")) { TRASH(key, sizeof *key); return host::fault_code; }
    if (curve != CX_CURVE_256K1) return CX_EC_INVALID_CURVE;
    if (len != 32) return CX_INVALID_PARAMETER;
    key->curve = curve; key->d_len = 32; memmove(key->d, raw, 32); return CX_OK;
}
cx_err_t cx_ecfp_generate_pair_no_throw(cx_curve_t curve, cx_ecfp_256_public_key_t *pub, cx_ecfp_256_private_key_t *priv, bool keep) {
    if (fault("generate_pair")) { TRASH(pub, sizeof *pub); return host::fault_code; }
    if (curve != CX_CURVE_256K1) return CX_EC_INVALID_CURVE;
    if (!keep) cx_rng_no_throw(priv->d, 32);
    prim::U256 u; load(priv->d, u); prim::Point r = prim::mul_g(u); if (r.inf) return CX_EC_INFINITE_POINT;
    uint8_t t[65]; prim::uncompressed(r, t); pub->curve = curve; pub->W_len = 65; memcpy(pub->W, t, 65); return CX_OK;
}
uint32_t os_derive_bip32_no_throw(uint32_t curve, const uint32_t *path, size_t len, uint8_t *raw, uint8_t *chain) {
    if (fault("derive_bip32")) { TRASH(raw, 64); if (chain) TRASH(chain, 32); return host::fault_code; }
    if (curve != CX_CURVE_256K1) return CX_EC_INVALID_CURVE;
    if (len > 10) return CX_INVALID_PARAMETER;
    std::vector<uint32_t> p(len); if (len) memcpy(p.data(), path, 4 * len);
    const prim::ExtKey &k = prim::bip32(host::seed, p);
    uint8_t t[64] = {0}; memcpy(t, k.d, 32); memcpy(raw, t, 64); if (chain) memcpy(chain, k.chain, 32); explicit_bzero(t, 64); return CX_OK;
}
// ---------------------------------------------------------------- formatting
bool format_u64(char *out, size_t outLen, uint64_t in) {
    uint8_t i = 0; if (outLen == 0) return false; outLen--;
    while (in > 9) { if (i >= outLen) return false; out[i] = in % 10 + '0'; in /= 10; i++; if (i + 1u > outLen) return false; }
    if (i + 1u > outLen) return false;
    out[i] = in + '0'; out[i + 1] = 0;
    for (uint8_t j = 0; j < i; j++, i--) { char c = out[j]; out[j] = out[i]; out[i] = c; }
    return true;
}
bool format_i64(char *dst, size_t n, const int64_t v) {
    if (v >= 0) return format_u64(dst, n, v);
    if (n < 2) return false;
    *dst = '-'; return format_u64(dst + 1, n - 1, 0 - (uint64_t) v);
}
bool format_fpu64(char *dst, size_t dst_len, const uint64_t value, uint8_t decimals) {
    char buffer[21] = {0};
    if (!format_u64(buffer, sizeof(buffer), value)) return false;
    size_t digits = strlen(buffer);
    if (digits <= decimals) {
        if (dst_len <= 2 + (size_t) decimals - digits + digits) { if (dst_len <= 2 + (size_t) decimals - digits) return false; }
        *dst++ = '0'; *dst++ = '.';
        for (uint16_t i = 0; i < decimals - digits; i++, dst++) *dst = '0';
        dst_len -= 2 + decimals - digits;
        strncpy(dst, buffer, dst_len);
    } else {
        if (dst_len <= digits + 1 + decimals) return false;
        const size_t shift = digits - decimals;
        memmove(dst, buffer, shift); dst[shift] = '.'; strncpy(dst + shift + 1, buffer + shift, decimals);
        dst[shift + 1 + decimals] = 0;
    }
    return true;
}
bool format_fpu64_trimmed(char *dst, size_t dst_len, const uint64_t value, uint8_t decimals) {
    if (!format_fpu64(dst, dst_len, value, decimals)) return false;
    size_t len = strlen(dst); if (len == 0 || decimals == 0) return true;
    size_t i = len - 1; while (i > 0 && dst[i] == '0') i--; if (dst[i] == '.') i--; dst[i + 1] = 0; return true;
}
int format_hex(const uint8_t *in, size_t in_len, char *out, size_t out_len) {
    if (out_len < 2 * in_len + 1) return -1;
    const char hex[] = "0123456789ABCDEF"; size_t i = 0, w = 0;
    while (i < in_len) { out[w] = hex[in[i] >> 4]; out[w + 1] = hex[in[i] & 15]; i++; w += 2; }
    out[w] = 0; return (int) w + 1;
}
// ---------------------------------------------------------------- I/O
bool apdu_parser(command_t *cmd, uint8_t *buf, size_t buf_len) {
    if (buf_len < 5 || buf_len - 5 != buf[4]) return false;
    cmd->cla = buf[0]; cmd->ins = buf[1]; cmd->p1 = buf[2]; cmd->p2 = buf[3]; cmd->lc = buf[4]; cmd->data = buf[4] > 0 ? buf + 5 : NULL; return true;
}
void io_init(void) {}
int io_recv_command(void) { return host::recv ? host::recv(G_io_apdu_buffer, IO_APDU_BUFFER_SIZE) : -1; }
int io_send_response_pointer(const uint8_t *ptr, size_t size, uint16_t sw) {
    if (size > IO_APDU_BUFFER_SIZE - 2) { host::responses.push_back(host::Resp{{}, 0xB001}); return 0; }
    if (size) memmove(G_io_apdu_buffer, ptr, size);
    G_io_apdu_buffer[size] = sw >> 8; G_io_apdu_buffer[size + 1] = sw & 255;
    host::Resp r; r.data.assign(G_io_apdu_buffer, G_io_apdu_buffer + size); r.sw = sw; host::responses.push_back(r); return 0;
}
int io_send_response_buffer(const buffer_t *b, uint16_t sw) { if (!b) return io_send_response_pointer(NULL, 0, sw); return io_send_response_pointer(b->ptr + b->offset, b->size - b->offset, sw); }
int io_send_response_buffers(const buffer_t *l, size_t n, uint16_t sw) {
    std::vector<uint8_t> v; for (size_t i = 0; i < n; i++) v.insert(v.end(), l[i].ptr + l[i].offset, l[i].ptr + l[i].size); return io_send_response_pointer(v.data(), v.size(), sw);
}
int io_send_sw(uint16_t sw) { return io_send_response_pointer(NULL, 0, sw); }
// ---------------------------------------------------------------- BAGL flow engine
#define TOP (G_ux.flow_stack[G_ux.stack_count - 1])
static bool valid() { return G_ux.stack_count >= 1 && G_ux.stack_count <= UX_STACK_SLOT_COUNT && TOP.steps != NULL && TOP.length != 0; }
unsigned int ux_stack_push(void) { if (G_ux.stack_count < UX_STACK_SLOT_COUNT) { memset(&G_ux.flow_stack[G_ux.stack_count], 0, sizeof(ux_flow_state_t)); G_ux.stack_count++; } return G_ux.stack_count - 1; }
unsigned int ux_stack_pop(void) { if (G_ux.stack_count) G_ux.stack_count--; return G_ux.stack_count; }
static bool is_mark(const ux_flow_step_t *s) { return s == FLOW_END_STEP || s == FLOW_BARRIER || s == FLOW_START || s == FLOW_LOOP; }
static void init_step(unsigned slot) {
    ux_flow_state_t &f = G_ux.flow_stack[slot]; if (!f.steps || f.index >= f.length) return;
    const ux_flow_step_t *s = f.steps[f.index]; if (is_mark(s)) return;
    if (s->init) s->init(slot);
}
static bool is_first() { return !valid() || (TOP.index == 0 && TOP.steps[TOP.length - 1] != FLOW_LOOP); }
static bool is_last() { return !valid() || TOP.index >= TOP.length - 1 || TOP.steps[TOP.index + 1] == FLOW_BARRIER; }
void ux_flow_next(void) {
    if (is_last()) return;
    TOP.prev_index = TOP.index; TOP.index++;
    if (TOP.steps[TOP.index] == FLOW_LOOP) TOP.index = 0;
    init_step(G_ux.stack_count - 1);
}
void ux_flow_prev(void) {
    if (is_first()) return;
    TOP.prev_index = TOP.index;
    if (TOP.index == 0) { TOP.index = TOP.length - 2; TOP.prev_index = TOP.length - 1; } else TOP.index--;
    init_step(G_ux.stack_count - 1);
}
void ux_flow_relayout(void) { if (valid()) init_step(G_ux.stack_count - 1); }
void ux_flow_validate(void) {
    if (!valid() || TOP.index >= TOP.length || is_mark(TOP.steps[TOP.index])) return;
    const ux_flow_step_t *const *v = TOP.steps[TOP.index]->validate_flow; if (v) ux_flow_init(G_ux.stack_count - 1, v, NULL);
}
void ux_flow_init(unsigned int slot, const ux_flow_step_t *const *steps, const ux_flow_step_t *const start) {
    if (slot >= UX_STACK_SLOT_COUNT) return;
    ux_flow_state_t &f = G_ux.flow_stack[slot]; f.length = f.index = f.prev_index = 0; f.steps = steps;
    if (steps) {
        while (steps[f.length] != FLOW_END_STEP) f.length++;
        if (start) while (f.index < f.length && steps[f.index] != start) { f.prev_index = f.index; f.index++; }
    }
    init_step(slot);
}
static const void *params(unsigned slot) { ux_flow_state_t &f = G_ux.flow_stack[slot]; return f.steps[f.index]->params; }
static std::string str(const char *s) { if (!s) return "<null>"; return std::string(s, strlen(s)); }
static void draw(const char *layout, const char *t, const char *x, const void *icon) {
    host::screen.layout = layout; host::screen.title = str(t); host::screen.text = x ? str(x) : std::string(); host::screen.icon = icon; host::screen.at_end = false; host::layouts++;
}
// a step that is entered backwards starts with its last page; only a text that fits on one has no such (what going round from the last step to the first does is a matter of the SDK)
static void paged(unsigned slot) { ux_flow_state_t &f = G_ux.flow_stack[slot]; host::screen.at_end = f.index > 0 && f.prev_index > f.index && host::screen.text.size() > 16; }
void ux_layout_n_init(unsigned s) { auto *p = (const ux_layout_n_params_t *) params(s); draw("n", p->line1, NULL, NULL); }
void ux_layout_bn_init(unsigned s) { auto *p = (const ux_layout_bn_params_t *) params(s); draw("bn", p->line1, p->line2, NULL); }
void ux_layout_nn_init(unsigned s) { auto *p = (const ux_layout_bn_params_t *) params(s); draw("nn", p->line1, p->line2, NULL); }
void ux_layout_bb_init(unsigned s) { auto *p = (const ux_layout_bn_params_t *) params(s); draw("bb", p->line1, p->line2, NULL); }
void ux_layout_bnn_init(unsigned s) { auto *p = (const ux_layout_bnn_params_t *) params(s); std::string a = str(p->line2) + str(p->line3); draw("bnn", p->line1, a.c_str(), NULL); }
void ux_layout_pn_init(unsigned s) { auto *p = (const ux_layout_pn_params_t *) params(s); draw("pn", p->line1, NULL, p->icon); }
void ux_layout_pb_init(unsigned s) { auto *p = (const ux_layout_pn_params_t *) params(s); draw("pb", p->line1, NULL, p->icon); }
void ux_layout_pnn_init(unsigned s) { auto *p = (const ux_layout_pnn_params_t *) params(s); draw("pnn", p->line1, p->line2, p->icon); }
void ux_layout_pbb_init(unsigned s) { auto *p = (const ux_layout_pnn_params_t *) params(s); draw("pbb", p->line1, p->line2, p->icon); }
void ux_layout_pbn_init(unsigned s) { auto *p = (const ux_layout_pnn_params_t *) params(s); draw("pbn", p->line1, p->line2, p->icon); }
void ux_layout_bnnn_paging_init(unsigned s) { auto *p = (const ux_layout_bnnn_paging_params_t *) params(s); draw("bnnn_paging", p->title, p->text, NULL); paged(s); }
void ux_layout_paging_init(unsigned s) { auto *p = (const ux_layout_bnnn_paging_params_t *) params(s); draw("paging", p->title, p->text, NULL); paged(s); }
}  // extern "C"
namespace host {
void reset() {
    responses.clear(); screen = Screen(); layouts = 0; exited = false; draws.clear(); fault_hook = nullptr; fallible_calls = 0; fault_log.clear(); fault_trash = false;
    fault_code = CX_INTERNAL_ERROR; recv = nullptr; memset(&G_ux, 0, sizeof G_ux); memset(G_io_apdu_buffer, 0, sizeof G_io_apdu_buffer);
}
void left() { ux_flow_prev(); }
void right() { ux_flow_next(); }
void both() { ux_flow_validate(); }
void redraw() { ux_flow_relayout(); }
unsigned flow_index() { return valid() ? TOP.index : 0; }
unsigned flow_length() { return valid() ? TOP.length : 0; }
}  // namespace host
