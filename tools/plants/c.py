import runpy, os
SIGN = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py"))["SIGN"]
# demonstrations on the level of one source file: unit.c gives int check(void), 0 when all is well
UNIT = 'extern "C" int check(void);\nint main() { int r = check(); printf("check: %d\\n", r); return r ? 1 : 0; }\n'
PLANTS = [
dict(id="c13-put-byte-by-byte", property="C13", needs="a number of several bytes written to a buffer that has room for only some of them",
 breaks="the failed encoding leaves its first bytes in the buffer",
 edits=[("common/gve.c", '''    uint8_t out[10];
    size_t i = 0;
    do {
        uint8_t byte = val & 0x7FU;
        val >>= 7;
        if (val) byte |= 0x80U;
        out[i++] = byte;
    } while (val);
    return rw_buffer_write_bytes(buffer, out, i) ? GVE_OK : GVE_ERR_DATA_SIZE;''', '''    do {
        uint8_t byte = val & 0x7FU;
        val >>= 7;
        if (val) byte |= 0x80U;
        if (!rw_buffer_write_u8(buffer, byte)) return GVE_ERR_DATA_SIZE;
    } while (val);
    return GVE_OK;''')],
 unit=r'''
#include "common/gve.h"
int check(void) {
    uint8_t m[3] = {9, 9, 9}; rw_buffer_t b; rw_buffer_init(&b, m, 3, 1);
    if (gve_put_u64(&b, 1ull << 40) == GVE_OK) return 1;
    return rw_buffer_data_len(&b) != 1 || m[1] != 9 || m[2] != 9;
}
''', demo=UNIT),
dict(id="c13-i16-lower-bound", property="C13", needs="the encoding of a number below -32768 read as a 16-bit number",
 breaks="an out-of-range encoding is decoded to another number instead of being refused",
 edits=[("common/gve.c", "if (i32 > INT16_MAX || i32 < INT16_MIN) return GVE_ERR_INT_TO_BIG;", "if (i32 > INT16_MAX || i32 < -(int32_t) UINT16_MAX) return GVE_ERR_INT_TO_BIG;")],
 unit=r'''
#include "common/gve.h"
int check(void) {
    uint8_t m[10]; rw_buffer_t b; int16_t v;
    for (int32_t x = -70000; x < 70000; x += 7) {
        rw_buffer_init(&b, m, 10, 0); if (gve_put_i32(&b, x) != GVE_OK) return 1;
        int ok = gve_get_i16(&b.read, &v) == GVE_OK; if (ok != (x >= -32768 && x <= 32767) || (ok && v != x)) return 2;
    }
    return 0;
}
''', demo=UNIT),
dict(id="c14-new-token-unchecked", property="C14", needs="an input with a token that is not in the table yet, of an amount of 2^63 or more",
 breaks="the total wraps to a negative number and the token is shown as minted instead of the transaction being refused",
 edits=[("commands/signtx/stx_amounts.c", '''        ctx->tokens[index] = 0;
    }''', '''        // first occurrence of the token
        ctx->tokens[index] = value;
        return ERGO_TX_SERIALIZER_INPUT_RES_OK;
    }''')],
 demo=SIGN + r'''
int main() {
    boot(); std::vector<Bytes> f = attest(box(1000000, {{tid(1), 0x8000000000000005ull}}));
    uint8_t s = sign_start(path()); OK(tx_start(s, 1, 0, 0, 1)); R r = send(0x21, 0x12, s, f[0] + be(0, 4)); EXPECT(r.sw == 0xE011 && r.data.empty(), "%04x", r.sw);
}
'''),
dict(id="c14-smallest-balance-refused", property="C14", needs="a subtraction whose exact result is -2^63",
 breaks="a representable result is refused",
 edits=[("common/safeint.h", "        if ((uint64_t) l < r && r - l > (INT64_MAX + (uint64_t) 1)) return false;", "        if ((uint64_t) l < r && r - l > INT64_MAX) return false;")],
 unit=r'''
#include "common/safeint.h"
int check(void) { int64_t o = 1; return !checked_sub_i64(5, 0x8000000000000005ull, &o) || o != INT64_MIN; }
''', demo=UNIT),
dict(id="c15-seek-wraps", property="C15", needs="a relative seek of the write position by an offset near the largest size",
 breaks="the write position moves backwards instead of the operation failing",
 edits=[("common/rwbuffer.c", '''    if (buffer->read.size + offset < buffer->read.size ||  // overflow
        buffer->read.size + offset > buffer->size) {       // exceed buffer size
        return false;
    }
    buffer->read.size += offset;
    return true;''', '''    size_t position = buffer->read.size + offset;
    if (position < buffer->read.offset || position > buffer->size) {  // outside of the buffer
        return false;
    }
    buffer->read.size = position;
    return true;''')],
 unit=r'''
#include "common/rwbuffer.h"
int check(void) {
    uint8_t m[8] = {1, 2, 3, 4, 5, 6, 7, 8}; rw_buffer_t b; rw_buffer_init(&b, m, 8, 6); rw_buffer_seek_read_set(&b, 1);
    return rw_buffer_seek_write_cur(&b, (size_t) -3) || rw_buffer_data_len(&b) != 5;
}
''', demo=UNIT),
dict(id="c15-can-write-sum", property="C15", needs="a request for an amount of room near the largest size",
 breaks="the buffer claims to have room for more bytes than memory holds",
 edits=[("common/rwbuffer.h", "    return rw_buffer_empty_space_len(buffer) >= n;", "    return buffer->read.size + n <= buffer->size;")],
 unit=r'''
#include "common/rwbuffer.h"
int check(void) { uint8_t m[8]; rw_buffer_t b; rw_buffer_init(&b, m, 8, 6); return rw_buffer_can_write(&b, SIZE_MAX - 2) || rw_buffer_can_write(&b, 3) || !rw_buffer_can_write(&b, 2); }
''', demo=UNIT),
dict(id="c15-shift-empty", property="C15", needs="moving the data to the start of a buffer whose bytes were all read",
 breaks="the room of the bytes already read is not regained: a later write that fits is refused",
 edits=[("common/rwbuffer.c", "    if (rw_buffer_read_position(buffer) == 0) return;\n    size_t data_len = rw_buffer_data_len(buffer);", "    size_t data_len = rw_buffer_data_len(buffer);\n    if (data_len == 0 || rw_buffer_read_position(buffer) == 0) return;")],
 unit=r'''
#include "common/rwbuffer.h"
int check(void) { uint8_t m[8], x[8]; rw_buffer_t b; rw_buffer_init(&b, m, 8, 6); if (!rw_buffer_read_bytes(&b, x, 6)) return 1; rw_buffer_shift_data(&b); return !rw_buffer_write_bytes(&b, x, 8); }
''', demo=UNIT),
dict(id="c17-last-chunk-as-public-key", property="C17", needs="a tree longer than one chunk whose last chunk is 36 bytes and looks like a pay-to-public-key tree",
 breaks="a script is shown with the address of a public key instead of its own hash",
 edits=[("commands/signtx/stx_output.c", '''    if (STX_OUTPUT_INFO_TYPE(ctx) == SIGN_TRANSACTION_OUTPUT_INFO_TYPE_UNKNOWN) {
        if (len == ERGO_TREE_P2PK_LEN && is_finished &&
            ergo_tree_parse_p2pk(chunk, ctx->public_key)) {  // has public key
            STX_OUTPUT_SET_TYPE(ctx, SIGN_TRANSACTION_OUTPUT_INFO_TYPE_ADDRESS);
            STX_OUTPUT_SET_TREE_SET(ctx);
        } else if''', '''    uint8_t public_key[COMPRESSED_PUBLIC_KEY_LEN];
    if (len == ERGO_TREE_P2PK_LEN && is_finished &&
        ergo_tree_parse_p2pk(chunk, public_key)) {  // has public key
        memmove(ctx->public_key, public_key, COMPRESSED_PUBLIC_KEY_LEN);
        STX_OUTPUT_SET_TYPE(ctx, SIGN_TRANSACTION_OUTPUT_INFO_TYPE_ADDRESS);
        STX_OUTPUT_SET_TREE_SET(ctx);
    } else if (STX_OUTPUT_INFO_TYPE(ctx) == SIGN_TRANSACTION_OUTPUT_INFO_TYPE_UNKNOWN) {
        if''')],
 demo=SIGN + r'''
int main() {
    boot(); uint8_t s = begin({box(1000000)}, 0, {}, 1); Bytes a(255, 0x77), b = p2pk_of(3), all = a + b;
    OK(out_start(s, 900000, all.size())); OK(send(0x21, 0x16, s, a)); R r = send(0x21, 0x16, s, b); EXPECT(r.ui, "no review %04x", r.sw);
    std::string t = text(screens()); puts(t.c_str()); EXPECT(t.find("Script Hash") != std::string::npos, "not shown as a script");
}
'''),
dict(id="c17-script-hash-suffix", property="C17", needs="a tree of 44 bytes that starts like pay-to-script-hash and ends in another last byte",
 breaks="another script is shown as the pay-to-script-hash address of bytes in its middle",
 edits=[("ergo/ergo_tree.c", '''               PIC(C_ERGO_TREE_P2SH_SUFFIX),
               ERGO_TREE_P2SH_SUFFIX_LEN) != 0) {''', '''               PIC(C_ERGO_TREE_P2SH_SUFFIX),
               ERGO_TREE_P2SH_SUFFIX_LEN - 1) != 0) {''')],
 demo=SIGN + r'''
int main() {
    static const uint8_t pre[] = {0x00, 0xea, 0x02, 0xd1, 0x93, 0xb4, 0xcb, 0xe4, 0xe3, 0x01, 0x0e, 0x04, 0x00, 0x04, 0x30, 0x0e, 0x18};
    Bytes tree(pre, pre + 17); tree += Bytes(24, 0x33); tree += Bytes{0xd4, 0x08, 0x02}; std::string shown[2];
    for (int k = 0; k < 2; k++) {
        boot(); tree[43] = 2 - k; uint8_t s = begin({box(1000000)}, 0, {}, 1); OK(out_start(s, 900000, tree.size())); R r = send(0x21, 0x16, s, tree); EXPECT(r.ui, "no review"); shown[k] = text(screens()); puts(shown[k].c_str());
    }
    EXPECT(shown[0] != shown[1], "two different trees are shown alike");
}
'''),
dict(id="c19-unknown-instruction-aborts", property="C19", needs="an unknown instruction in the middle of a signing or attesting operation",
 breaks="the refused command ends the operation in progress",
 edits=[("apdu_dispatcher.c", "            return io_send_sw(SW_INS_NOT_SUPPORTED);", "            app_set_current_command(CMD_NONE);\n            return io_send_sw(SW_INS_NOT_SUPPORTED);"), ("apdu_dispatcher.c", '#include "constants.h"\n', '#include "constants.h"\n#include "context.h"\n')],
 demo=r'''
int main() { boot(); Box b = box(1000000); uint8_t s = att_start(b); R r = send(0x33, 0, 0); EXPECT(r.sw == 0x6D00, "%04x", r.sw); att_body(s, b); OK(send(0x20, 5, s, {0})); }
'''),
dict(id="c19-name-parameter", property="C19", needs="a name request with a second parameter that is not zero",
 breaks="a request with an unsupported parameter is answered as if it were right",
 edits=[("apdu_dispatcher.c", '''        case CMD_GET_APP_NAME:
            if (cmd->p1 != 0 || cmd->p2 != 0) {''', '''        case CMD_GET_APP_NAME:
            if (cmd->p1 != 0) {''')],
 demo=r'''
int main() { boot(); for (int p = 1; p < 256; p++) { R r = send(2, 0, p); EXPECT(r.sw == 0x6A86 || r.sw == 0x6D00, "%04x", r.sw); r = send(1, 0, p); EXPECT(r.sw == 0x6A86 || r.sw == 0x6D00, "%04x", r.sw); } for (int i = 0; i < 256; i++) if (i != 0x10 && i != 0x11 && i != 0x20 && i != 0x21) { R r = send(i, 0, 0x40); EXPECT(r.sw != 0x9000, "instruction %02x", i); } }
'''),
dict(id="c27-partial-data-input-not-final", property="C27", needs="a data input id cut short, then a further step",
 breaks="after the refusal the serializer accepts the next step",
 edits=[("ergo/tx_ser_full.c", "            return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_BAD_DATA_INPUT);", "            return ERGO_TX_SERIALIZER_FULL_RES_ERR_BAD_DATA_INPUT;")],
 unit=r'''
#include "ergo/tx_ser_full.h"
#include "common/rwbuffer.h"
int check(void) {
    static ergo_tx_serializer_full_context_t c; static token_table_t t; cx_blake2b_t h; uint8_t id[32] = {1}; buffer_t b;
    blake2b_256_init(&h); if (ergo_tx_serializer_full_init(&c, 1, 1, 1, 0, &h, &t) != ERGO_TX_SERIALIZER_FULL_RES_OK) return 1;
    ergo_tx_serializer_full_add_input(&c, id, 1, 0); buffer_init(&b, id, 0); if (ergo_tx_serializer_full_add_input_tokens(&c, id, 0, &b) != ERGO_TX_SERIALIZER_FULL_RES_OK) return 2;
    buffer_init(&b, id, 31); if (ergo_tx_serializer_full_add_data_inputs(&c, &b) == ERGO_TX_SERIALIZER_FULL_RES_OK) return 3;
    buffer_init(&b, id, 32); return ergo_tx_serializer_full_add_data_inputs(&c, &b) == ERGO_TX_SERIALIZER_FULL_RES_OK ? 4 : 0;
}
''', demo=UNIT),
dict(id="c11-surplus-data-inputs-dropped", property="C11", needs="more data input ids in a chunk than are left to come",
 breaks="data beyond the declared count is ignored instead of being refused",
 edits=[("ergo/tx_ser_full.c", '''    while (buffer_data_len(inputs) > 0) {
        if (context->data_inputs_count == 0) {
            return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_TOO_MANY_DATA_INPUTS);
        }
''', '''    if (context->data_inputs_count == 0) {
        return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_TOO_MANY_DATA_INPUTS);
    }
    while (buffer_data_len(inputs) > 0 && context->data_inputs_count > 0) {
''')],
 demo=SIGN + r'''
int main() {
    boot(); uint8_t s = begin({box(1000000)}, 2, {}, 1); OK(send(0x21, 0x14, s, Bytes(32, 1))); R r = send(0x21, 0x14, s, Bytes(64, 2)); EXPECT(r.sw == 0xE00C, "%04x", r.sw);
}
'''),
dict(id="c11-last-token-split", property="C11", needs="a box or output whose tokens arrive in more than one chunk and which has registers",
 breaks="the outcome depends on the chunking: the same tokens in two chunks are refused",
 edits=[("ergo/tx_ser_box.c", '''        } else {
            context->state = ERGO_TX_SERIALIZER_BOX_STATE_TOKENS_ADDED;
        }
        return ERGO_TX_SERIALIZER_BOX_RES_OK;
    }
    return ERGO_TX_SERIALIZER_BOX_RES_MORE_DATA;
}

ergo_tx_serializer_box_result_e ergo_tx_serializer_box_add_registers(''', '''        }
    }
    if (context->registers_size != 0) {  // registers go next
        context->state = ERGO_TX_SERIALIZER_BOX_STATE_TOKENS_ADDED;
    }
    return context->tokens_count == 0 ? ERGO_TX_SERIALIZER_BOX_RES_OK
                                      : ERGO_TX_SERIALIZER_BOX_RES_MORE_DATA;
}

ergo_tx_serializer_box_result_e ergo_tx_serializer_box_add_registers(''')],
 demo=r'''
int main() {
    boot(); Box b = box(1000000, {{tid(1), 5}, {tid(2), 6}}); b.regs = Bytes{1, 4, 10}; uint8_t s = att_start(b); OK(send(0x20, 2, s, b.tree));
    OK(send(0x20, 3, s, tokb(tid(1), 5))); OK(send(0x20, 3, s, tokb(tid(2), 6))); R r = OK(send(0x20, 4, s, b.regs)); EXPECT(r.data.size() == 1, "count");
}
'''),
dict(id="c10-token-table-off-by-one", property="C10", needs="a transaction whose inputs hold 21 different tokens",
 breaks="the 21st token is written behind the token table",
 edits=[("ergo/tx_ser_table.h", "    if (table->count >= TOKEN_MAX_COUNT) return INDEX_NOT_EXIST;", "    if (table->count > TOKEN_MAX_COUNT) return INDEX_NOT_EXIST;")],
 demo=SIGN + r'''
int main() {
    boot(); std::vector<Token> a, b; for (int i = 0; i < 20; i++) a.push_back({tid(i + 1), 5}); b.push_back({tid(100), 5}); auto fa = attest(box(1000000, a)), fb = attest(box(1000000, b, 1));
    uint8_t s = sign_start(path()); OK(tx_start(s, 2, 0, 0, 1)); add_input(s, fa); R r = send(0x21, 0x12, s, fb[0] + be(0, 4)); EXPECT(r.sw == 0xE00A && r.n == 1, "%04x", r.sw);
}
'''),
dict(id="c10-display-error-unanswered", property="C10", needs="a detail screen that cannot be shown (a change path too long for the screen)",
 breaks="the command under review is never answered",
 edits=[("ui/ui_dynamic_flow.c", '''            app_set_current_command(CMD_NONE);                                                    \\
            res_error(res);                                                                       \\
            ui_menu_main();                                                                       \\''', '''            app_set_current_command(CMD_NONE);                                                    \\
            ui_menu_main();                                                                       \\''')],
 demo=SIGN + r'''
int main() {
    boot(); uint8_t s = begin({box(1000000)}, 0, {}, 1); Path p{44 | H, 429 | H, 0x7FFFFFFF | H, 1}; while (p.size() < 10) p.push_back(0x7FFFFFFF);
    OK(out_start(s, 1000, 0)); R r = send(0x21, 0x18, s, path_arg(p)); for (int i = 0; i < 9 && !r.n; i++) r = press(1); EXPECT(r.n == 1 && r.sw != 0x9000, "%d answers", r.n);
}
'''),
dict(id="c12-token-twice-apart", property="C12", needs="a box with the same token id twice, other tokens in between",
 breaks="a box with a repeated token id is attested",
 edits=[("commands/attestinput/ainpt_handler.c", '''    for (uint8_t i = 0; i < ctx->tokens_table.count; i++) {
        if (memcmp(id, ctx->tokens_table.tokens[i], ERGO_ID_LEN) == 0) {
            return ERGO_TX_SERIALIZER_BOX_RES_ERR_BAD_TOKEN_ID;
        }
    }''', '''    if (ctx->tokens_table.count > 0 &&
        memcmp(id, ctx->tokens_table.tokens[ctx->tokens_table.count - 1], ERGO_ID_LEN) == 0) {
        return ERGO_TX_SERIALIZER_BOX_RES_ERR_BAD_TOKEN_ID;
    }''')],
 demo=r'''
int main() {
    boot(); Box b = box(1000000, {{tid(1), 5}, {tid(2), 6}, {tid(1), 7}}); uint8_t s = att_start(b); OK(send(0x20, 2, s, b.tree));
    R r = send(0x20, 3, s, tokb(tid(1), 5) + tokb(tid(2), 6) + tokb(tid(1), 7)); EXPECT(r.sw == 0xE001, "%04x", r.sw);
}
'''),
dict(id="c25-fee-with-tokens", property="C25", needs="a miners' fee output that carries tokens",
 breaks="the output takes tokens away without being reviewed",
 edits=[("commands/signtx/operations/stx_op_p2pk.c", "        return stx_output_info_used_tokens_count(&ctx->transaction.ui.output) > 0;", "        return ctx->transaction.tx.box_ctx.tokens_count > 0;")],
 demo=SIGN + r'''
int main() {
    boot(); uint8_t s = begin({box(1000000, {{tid(1), 5}})}, 0, {tid(1)}, 1); OK(out_start(s, 1000000, 0, 1, 1)); OK(send(0x21, 0x17, s)); R r = send(0x21, 0x19, s, otok({{0, 5}})); EXPECT(r.ui, "no review %04x", r.sw);
}
'''),
dict(id="c01-last-registers-never-complete", property="C01", needs="a transaction whose last output ends with registers",
 breaks="such a transaction can not be signed",
 edits=[("commands/signtx/operations/stx_op_p2pk.c", '''                            ergo_tx_serializer_full_add_box_registers(&ctx->transaction.tx, data));
    CHECK_TX_FINISHED(ctx);
''', '''                            ergo_tx_serializer_full_add_box_registers(&ctx->transaction.tx, data));
''')],
 demo=SIGN + r'''
int main() {
    boot(); uint8_t s = begin({box(1000000)}, 0, {}, 1); Bytes tree = p2pk_of(3), regs{1, 4, 10}; OK(out_start(s, 1000000, tree.size(), 1, 0, regs.size())); OK(send(0x21, 0x16, s, tree)); OK(go(0x21, 0x1A, s, regs));
    R r = OK(go(0x21, 0x20, s)); EXPECT(r.data.size() == 56, "signature");
}
'''),
dict(id="c24-trust-survives-tokenless", property="C24", needs="an attestation without token approved after one with a token",
 breaks="the earlier token stays trusted",
 edits=[("commands/attestinput/ainpt_ui.c", "        app_set_connected_app_id(ctx->ui.app_token_value);", '''        if (ctx->ui.app_token_value != 0) {
            app_set_connected_app_id(ctx->ui.app_token_value);
        }''')],
 demo=r'''
int main() {
    boot(); Box b = box(1000000); Bytes tok{1, 2, 3, 4}; att_start(b, tok); att_start(b); R r = send(0x20, 1, 2, box_header(b) + tok); EXPECT(r.ui, "the old token is still trusted");
}
'''),
dict(id="c22-data-inputs-status", property="C22", needs="more data inputs than declared",
 breaks="the error is reported with the status for a bad data input",
 edits=[("ergo/tx_ser_full.c", "            return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_TOO_MANY_DATA_INPUTS);", "            return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_BAD_DATA_INPUT);")],
 demo=SIGN + r'''
int main() { boot(); uint8_t s = begin({box(1000000)}, 1, {}, 1); R r = send(0x21, 0x14, s, Bytes(64, 2)); EXPECT(r.sw == 0xE00C, "%04x", r.sw); }
'''),
dict(id="c16-raw-key-left", property="C16", needs="the platform refusing a derived private key",
 breaks="the raw private key stays in memory",
 edits=[("helpers/crypto.c", '''    explicit_bzero(raw_private_key, sizeof(raw_private_key));
    return (uint16_t) result;
}

uint16_t crypto_generate_private_key(''', '''    if (result == CX_OK) {
        explicit_bzero(raw_private_key, sizeof(raw_private_key));
    }
    return (uint16_t) result;
}

uint16_t crypto_generate_private_key(''')],
 demo=r'''
static unsigned char *raw, kept[32];
extern "C" uint32_t __real_os_derive_bip32_no_throw(uint32_t, const uint32_t *, size_t, uint8_t *, uint8_t *);
extern "C" uint32_t __wrap_os_derive_bip32_no_throw(uint32_t c, const uint32_t *p, size_t n, uint8_t *r, uint8_t *ch) { raw = r; return __real_os_derive_bip32_no_throw(c, p, n, r, ch); }
extern "C" int __real_io_send_sw(uint16_t);
extern "C" int __wrap_io_send_sw(uint16_t sw) { if (raw) for (int i = 0; i < 32; i++) kept[i] = ((volatile unsigned char *) raw)[i]; return __real_io_send_sw(sw); }
int main() {
    boot(); Path p{44 | H, 429 | H, 0 | H}; auto k = prim::bip32(SEED, p); 
    host::fault_hook = [](const char *n) { return !strcmp(n, "init_private_key"); };
    R r = send(0x10, 1, 0, path_arg(p)); host::fault_hook = nullptr; EXPECT(r.sw != 0x9000, "%04x", r.sw); EXPECT(memcmp(kept, k.d, 32), "the private key is still in memory");
}
''', flags="-Wl,--wrap=os_derive_bip32_no_throw -Wl,--wrap=io_send_sw"),
]
