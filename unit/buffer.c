// Plain C doors to the buffer functions (most of them are static inline in their header).
#include "common/rwbuffer.h"
#include "common/buffer_ext.h"
size_t vp_rw_sizeof(void) { return sizeof(rw_buffer_t); }
size_t vp_buf_sizeof(void) { return sizeof(buffer_t); }
void vp_rw_init(rw_buffer_t *b, uint8_t *p, size_t n, size_t d) { rw_buffer_init(b, p, n, d); }
size_t vp_rw_get(rw_buffer_t *b, int what) {
    switch (what) {
        case 0: return rw_buffer_read_position(b);
        case 1: return rw_buffer_write_position(b);
        case 2: return rw_buffer_data_len(b);
        case 3: return rw_buffer_empty_space_len(b);
        case 4: return (size_t) rw_buffer_read_ptr(b);
        default: return (size_t) rw_buffer_write_ptr(b);
    }
}
int vp_rw_can(rw_buffer_t *b, int write, size_t n) { return write ? rw_buffer_can_write(b, n) : rw_buffer_can_read(b, n); }
int vp_rw_seek(rw_buffer_t *b, int what, size_t o) {
    switch (what) {
        case 0: return rw_buffer_seek_read_set(b, o);
        case 1: return rw_buffer_seek_read_cur(b, o);
        case 2: return rw_buffer_seek_read_end(b, o);
        case 3: return rw_buffer_seek_write_set(b, o);
        case 4: return rw_buffer_seek_write_cur(b, o);
        default: return rw_buffer_seek_write_end(b, o);
    }
}
int vp_rw_write(rw_buffer_t *b, int bits, int le, uint64_t v) {
    switch (bits) {
        case 8: return rw_buffer_write_u8(b, v);
        case 16: return rw_buffer_write_u16(b, v, le ? LE : BE);
        case 32: return rw_buffer_write_u32(b, v, le ? LE : BE);
        default: return rw_buffer_write_u64(b, v, le ? LE : BE);
    }
}
int vp_rw_read(rw_buffer_t *b, int bits, int le, uint64_t *v) {
    uint8_t a = 0; uint16_t c = 0; uint32_t d = 0; uint64_t e = 0; int r;
    switch (bits) {
        case 8: r = rw_buffer_read_u8(b, &a); *v = a; return r;
        case 16: r = rw_buffer_read_u16(b, &c, le ? LE : BE); *v = c; return r;
        case 32: r = rw_buffer_read_u32(b, &d, le ? LE : BE); *v = d; return r;
        default: r = rw_buffer_read_u64(b, &e, le ? LE : BE); *v = e; return r;
    }
}
int vp_rw_write_bytes(rw_buffer_t *b, const uint8_t *p, size_t n) { return rw_buffer_write_bytes(b, p, n); }
int vp_rw_read_bytes(rw_buffer_t *b, uint8_t *p, size_t n) { return rw_buffer_read_bytes(b, p, n); }
int vp_rw_copy_bytes(rw_buffer_t *b, uint8_t *p, size_t n) { return rw_buffer_copy_bytes(b, p, n); }
int vp_rw_read_path(rw_buffer_t *b, uint32_t *p, size_t n) { return rw_buffer_read_bip32_path(b, p, n); }
void vp_rw_shift(rw_buffer_t *b) { rw_buffer_shift_data(b); }
void vp_rw_empty(rw_buffer_t *b) { rw_buffer_empty(b); }
void vp_buf_init(buffer_t *b, const uint8_t *p, size_t n) { buffer_init(b, p, n); }
size_t vp_buf_get(buffer_t *b, int what) { return what == 0 ? buffer_data_len(b) : what == 1 ? (size_t) buffer_read_ptr(b) : b->offset; }
int vp_buf_bytes(buffer_t *b, int consume, uint8_t *p, size_t n) { return consume ? buffer_read_bytes(b, p, n) : buffer_copy_bytes(b, p, n); }
