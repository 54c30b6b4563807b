// Plain C doors to the streaming serialisers. Results: 0 refused, 1 more data expected, 2 done.
#include "ergo/tx_ser_box.h"
#include "ergo/tx_ser_input.h"
#include "ergo/tx_ser_full.h"
#include "ergo/tx_ser_table.h"
#include "common/buffer_ext.h"
typedef struct { cx_blake2b_t hash; token_table_t table; ergo_tx_serializer_table_context_t tctx; ergo_tx_serializer_box_context_t box; ergo_tx_serializer_input_context_t in; ergo_tx_serializer_full_context_t full; } vp_t;
// what: 0 type, 1 token of a box, 2 finished, 3 token of an input; returns whether to go on
int (*vp_cb)(int what, int type, const uint8_t *box, const uint8_t *id, uint64_t v);
size_t vp_ser_sizeof(void) { return sizeof(vp_t); }
static int type_of(ergo_tx_serializer_box_type_e t) { return t == ERGO_TX_SERIALIZER_BOX_TYPE_TREE ? 0 : t == ERGO_TX_SERIALIZER_BOX_TYPE_FEE ? 1 : 2; }
static ergo_tx_serializer_box_result_e on_type(ergo_tx_serializer_box_type_e t, uint64_t v, void *c) { return vp_cb(c == (void *) &vp_cb ? 0 : 9, type_of(t), 0, 0, v) ? ERGO_TX_SERIALIZER_BOX_RES_OK : ERGO_TX_SERIALIZER_BOX_RES_ERR_U64_OVERFLOW; }
static ergo_tx_serializer_box_result_e on_token(ergo_tx_serializer_box_type_e t, const uint8_t *id, uint64_t v, void *c) { return vp_cb(c == (void *) &vp_cb ? 1 : 9, type_of(t), 0, id, v) ? ERGO_TX_SERIALIZER_BOX_RES_OK : ERGO_TX_SERIALIZER_BOX_RES_ERR_U64_OVERFLOW; }
static ergo_tx_serializer_box_result_e on_fin(ergo_tx_serializer_box_type_e t, void *c) { return vp_cb(c == (void *) &vp_cb ? 2 : 9, type_of(t), 0, 0, 0) ? ERGO_TX_SERIALIZER_BOX_RES_OK : ERGO_TX_SERIALIZER_BOX_RES_ERR_BUFFER; }
static ergo_tx_serializer_input_result_e on_in(const uint8_t *box, const uint8_t *id, uint64_t v, void *c) { return vp_cb(c == (void *) &vp_cb ? 3 : 9, 0, box, id, v) ? ERGO_TX_SERIALIZER_INPUT_RES_OK : ERGO_TX_SERIALIZER_INPUT_RES_ERR_TOO_MANY_TOKENS; }
#define RES(P, x) ({ int _r = (int) (x); _r == ERGO_TX_SERIALIZER_##P##_RES_OK ? 2 : _r == ERGO_TX_SERIALIZER_##P##_RES_MORE_DATA ? 1 : 0; })
#define BUF(p, n) buffer_t b; buffer_init(&b, p, n)
int vp_hash_init(vp_t *c) { return blake2b_256_init(&c->hash); }
int vp_hash_end(vp_t *c, uint8_t *out) { return blake2b_256_finalize(&c->hash, out); }
void vp_table_clear(vp_t *c) { c->table.count = 0; }
int vp_table_init(vp_t *c, unsigned n) { return RES(TABLE, ergo_tx_serializer_table_init(&c->tctx, n, &c->table)); }
int vp_table_add(vp_t *c, const uint8_t *p, size_t n) { BUF(p, n); return RES(TABLE, ergo_tx_serializer_table_add(&c->tctx, &b)); }
int vp_table_fin(vp_t *c) { return ergo_tx_serializer_table_is_finished(&c->tctx); }
int vp_table_hash(vp_t *c) { return RES(TABLE, ergo_tx_serializer_table_hash(&c->tctx, &c->hash)); }

int vp_box_init(vp_t *c, uint64_t v, uint32_t tree, uint32_t h, unsigned toks, uint32_t regs) { return RES(BOX, ergo_tx_serializer_box_init(&c->box, v, tree, h, toks, regs, &c->hash)); }
int vp_box_idinit(vp_t *c) { return ergo_tx_serializer_box_id_hash_init(&c->hash); }
void vp_box_cbs(vp_t *c, int which) { ergo_tx_serializer_box_set_callbacks(&c->box, which & 1 ? on_type : 0, which & 2 ? on_token : 0, which & 4 ? on_fin : 0, &vp_cb); }
int vp_box_tree(vp_t *c, const uint8_t *p, size_t n) { BUF(p, n); return RES(BOX, ergo_tx_serializer_box_add_tree(&c->box, &b)); }
int vp_box_fee(vp_t *c, int main) { return RES(BOX, ergo_tx_serializer_box_add_miners_fee_tree(&c->box, main)); }
int vp_box_change(vp_t *c, const uint8_t *raw) { return RES(BOX, ergo_tx_serializer_box_add_change_tree(&c->box, raw)); }
int vp_box_tokens(vp_t *c, const uint8_t *p, size_t n, int table) { BUF(p, n); return RES(BOX, ergo_tx_serializer_box_add_tokens(&c->box, &b, table ? &c->tctx : 0)); }
int vp_box_regs(vp_t *c, const uint8_t *p, size_t n) { BUF(p, n); return RES(BOX, ergo_tx_serializer_box_add_registers(&c->box, &b)); }
int vp_box_id(vp_t *c, const uint8_t *tx, unsigned index, uint8_t *id) { return RES(BOX, ergo_tx_serializer_box_id_hash(&c->box, tx, index, id)); }
int vp_box_fin(vp_t *c) { return ergo_tx_serializer_box_is_finished(&c->box); }

int vp_in_init(vp_t *c, const uint8_t *id, unsigned frames, uint32_t ext) { return RES(INPUT, ergo_tx_serializer_input_init(&c->in, id, frames, ext, &c->table, &c->hash)); }
void vp_in_cb(vp_t *c, int on) { ergo_tx_serializer_input_set_callback(&c->in, on ? on_in : 0, &vp_cb); }
int vp_in_tokens(vp_t *c, const uint8_t *id, unsigned index, const uint8_t *p, size_t n) { BUF(p, n); return RES(INPUT, ergo_tx_serializer_input_add_tokens(&c->in, id, index, &b)); }
int vp_in_ext(vp_t *c, const uint8_t *p, size_t n) { BUF(p, n); return RES(INPUT, ergo_tx_serializer_input_add_context_extension(&c->in, &b)); }
int vp_in_fin(vp_t *c) { return ergo_tx_serializer_input_is_finished(&c->in); }

int vp_full_init(vp_t *c, unsigned in, unsigned data, unsigned out, unsigned toks) { return RES(FULL, ergo_tx_serializer_full_init(&c->full, in, data, out, toks, &c->hash, &c->table)); }
int vp_full_table(vp_t *c, const uint8_t *p, size_t n) { BUF(p, n); return RES(FULL, ergo_tx_serializer_full_add_tokens(&c->full, &b)); }
int vp_full_input(vp_t *c, const uint8_t *id, unsigned frames, uint32_t ext) { return RES(FULL, ergo_tx_serializer_full_add_input(&c->full, id, frames, ext)); }
int vp_full_in_cb(vp_t *c, int on) { return RES(FULL, ergo_tx_serializer_full_set_input_callback(&c->full, on ? on_in : 0, &vp_cb)); }
int vp_full_in_tokens(vp_t *c, const uint8_t *id, unsigned index, const uint8_t *p, size_t n) { BUF(p, n); return RES(FULL, ergo_tx_serializer_full_add_input_tokens(&c->full, id, index, &b)); }
int vp_full_ext(vp_t *c, const uint8_t *p, size_t n) { BUF(p, n); return RES(FULL, ergo_tx_serializer_full_add_input_context_extension(&c->full, &b)); }
int vp_full_data(vp_t *c, const uint8_t *p, size_t n) { BUF(p, n); return RES(FULL, ergo_tx_serializer_full_add_data_inputs(&c->full, &b)); }
int vp_full_box(vp_t *c, uint64_t v, uint32_t tree, uint32_t h, unsigned toks, uint32_t regs) { return RES(FULL, ergo_tx_serializer_full_add_box(&c->full, v, tree, h, toks, regs)); }
int vp_full_cbs(vp_t *c, int which) { return RES(FULL, ergo_tx_serializer_full_set_box_callbacks(&c->full, which & 1 ? on_type : 0, which & 2 ? on_token : 0, which & 4 ? on_fin : 0, &vp_cb)); }
int vp_full_tree(vp_t *c, const uint8_t *p, size_t n) { BUF(p, n); return RES(FULL, ergo_tx_serializer_full_add_box_ergo_tree(&c->full, &b)); }
int vp_full_fee(vp_t *c, int main) { return RES(FULL, ergo_tx_serializer_full_add_box_miners_fee_tree(&c->full, main)); }
int vp_full_change(vp_t *c, const uint8_t *raw) { return RES(FULL, ergo_tx_serializer_full_add_box_change_tree(&c->full, raw)); }
int vp_full_tokens(vp_t *c, const uint8_t *p, size_t n) { BUF(p, n); return RES(FULL, ergo_tx_serializer_full_add_box_tokens(&c->full, &b)); }
int vp_full_regs(vp_t *c, const uint8_t *p, size_t n) { BUF(p, n); return RES(FULL, ergo_tx_serializer_full_add_box_registers(&c->full, &b)); }
int vp_full_fin(vp_t *c) { return ergo_tx_serializer_full_is_finished(&c->full); }
