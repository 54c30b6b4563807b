// Plain C doors to the number codecs.
#include "common/gve.h"
#include "common/zigzag.h"
// kinds: 0 u8 1 i8 2 u16 3 i16 4 u32 5 i32 6 u64 7 i64; signed values are passed sign-extended. 1: done, 0: refused
int vp_gve_put(rw_buffer_t *b, int kind, uint64_t v) {
    switch (kind) {
        case 0: return gve_put_u8(b, v) == GVE_OK;
        case 1: return gve_put_i8(b, v) == GVE_OK;
        case 2: return gve_put_u16(b, v) == GVE_OK;
        case 3: return gve_put_i16(b, v) == GVE_OK;
        case 4: return gve_put_u32(b, v) == GVE_OK;
        case 5: return gve_put_i32(b, v) == GVE_OK;
        case 6: return gve_put_u64(b, v) == GVE_OK;
        default: return gve_put_i64(b, v) == GVE_OK;
    }
}
int vp_gve_get(rw_buffer_t *rw, int kind, uint64_t *v) {
    uint8_t a = 0; int8_t b = 0; uint16_t c = 0; int16_t d = 0; uint32_t e = 0; int32_t f = 0; uint64_t g = 0; int64_t h = 0; int r;
    buffer_t *in = &rw->read;
    switch (kind) {
        case 0: r = gve_get_u8(in, &a) == GVE_OK; *v = a; return r;
        case 1: r = gve_get_i8(in, &b) == GVE_OK; *v = (int64_t) b; return r;
        case 2: r = gve_get_u16(in, &c) == GVE_OK; *v = c; return r;
        case 3: r = gve_get_i16(in, &d) == GVE_OK; *v = (int64_t) d; return r;
        case 4: r = gve_get_u32(in, &e) == GVE_OK; *v = e; return r;
        case 5: r = gve_get_i32(in, &f) == GVE_OK; *v = (int64_t) f; return r;
        case 6: r = gve_get_u64(in, &g) == GVE_OK; *v = g; return r;
        default: r = gve_get_i64(in, &h) == GVE_OK; *v = h; return r;
    }
}
uint64_t vp_zz_enc(int bits, int64_t v) { return bits == 32 ? zigzag_encode_i32(v) : zigzag_encode_i64(v); }
int64_t vp_zz_dec(int bits, uint64_t v) { return bits == 32 ? zigzag_decode_i32(v) : zigzag_decode_i64(v); }
