import runpy, os
HERE = os.path.dirname(os.path.abspath(__file__))
SIGN = runpy.run_path(os.path.join(HERE, "a.py"))["SIGN"]
UNIT = runpy.run_path(os.path.join(HERE, "c.py"))["UNIT"]
PLANTS = [
dict(id="c12-count-three-bytes", property="C12", needs="a transaction with 16384 or more inputs, data inputs or outputs",
 breaks="a count below the documented limit of 65535 is refused",
 edits=[("ergo/tx_ser_full.c", '''static inline bool hash_u16(cx_blake2b_t* hash, uint16_t u16) {
    RW_BUFFER_NEW_LOCAL_EMPTY(buffer, 4);''', '''static inline bool hash_u16(cx_blake2b_t* hash, uint16_t u16) {
    RW_BUFFER_NEW_LOCAL_EMPTY(buffer, sizeof(u16));''')],
 demo=SIGN + r'''
int main() {
    boot(); auto f = attest(box(1000000)); uint8_t s = sign_start(path()); OK(tx_start(s, 1, 16384, 0, 1)); add_input(s, f);
    for (int i = 0; i < 16384; i += 4) OK(send(0x21, 0x14, s, Bytes(128, i)));
    OK(out_start(s, 1000000, 0)); OK(send(0x21, 0x17, s)); OK(go(0x21, 0x20, s));
}
'''),
dict(id="c06-output-before-last-finished", property="C06", needs="an output announced while the one before still lacks its tokens or registers",
 breaks="the unfinished output is dropped from the count but stays in the signed bytes",
 edits=[("ergo/tx_ser_full.c", '''    if (!ergo_tx_serializer_box_is_finished(&context->box_ctx)) {
        return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_BAD_STATE);
    }
    if (context->outputs_count == 0) {''', '''    if (context->box_ctx.state == ERGO_TX_SERIALIZER_BOX_STATE_INITIALIZED ||
        context->box_ctx.state == ERGO_TX_SERIALIZER_BOX_STATE_ERROR) {
        return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_BAD_STATE);
    }
    if (context->outputs_count == 0) {''')],
 demo=SIGN + r'''
int main() {
    boot(); uint8_t s = begin({box(1000000)}, 0, {}, 1); OK(out_start(s, 1000, 0, 1, 0, 5)); OK(send(0x21, 0x17, s)); R r = out_start(s, 1000000, 0); EXPECT(r.n == 1 && r.sw == 0xB0FF, "%04x", r.sw);
}
'''),
dict(id="c07-registers-output-unseen", property="C07", needs="an output whose last part is its registers",
 breaks="such an output is signed without having been shown",
 edits=[("commands/signtx/stx_handler.c", '''    CHECK_CALL_RESULT_SW_OK(ctx, stx_operation_p2pk_add_output_registers(&ctx->p2pk, cdata));
    return show_output_screen_if_needed(ctx);''', '''    CHECK_CALL_RESULT_SW_OK(ctx, stx_operation_p2pk_add_output_registers(&ctx->p2pk, cdata));
    return res_ok();''')],
 demo=SIGN + r'''
int main() {
    boot(); uint8_t s = begin({box(1000000)}, 0, {}, 1); Bytes tree = p2pk_of(3); OK(out_start(s, 1000, tree.size(), 1, 0, 5)); OK(send(0x21, 0x16, s, tree)); R r = send(0x21, 0x1A, s, Bytes(5, 1)); EXPECT(r.ui, "no review");
}
'''),
dict(id="c24-token-low-half", property="C24", needs="an application token whose low 16 bits equal those of the approved one",
 breaks="another application is served without approval",
 edits=[("helpers/session_id.h", "    return saved != 0 && app_id != 0 && app_id == saved;", "    return saved != 0 && app_id != 0 && ((app_id ^ saved) & 0xFFFF) == 0;")],
 demo=r'''
int main() {
    boot(); Path p{44 | H, 429 | H, 0 | H}; OK(go(0x10, 2, 0, path_arg(p) + be(0x12345678, 4))); R r = send(0x10, 2, 0, path_arg(p) + be(0x92345678, 4)); EXPECT(r.ui && !r.n, "answered %04x", r.sw);
}
'''),
dict(id="c24-error-clears-token", property="C24", needs="a refused address request after the approval of an application token",
 breaks="the approved application has to be approved again",
 edits=[("commands/deriveaddress/da_handler.c", '''    UNUSED(_ctx);
    app_set_current_command(CMD_NONE);''', '''    UNUSED(_ctx);
    app_set_connected_app_id(0);
    app_set_current_command(CMD_NONE);''')],
 demo=r'''
int main() {
    boot(); Path p{44 | H, 429 | H, 0 | H}; OK(go(0x10, 2, 0, path_arg(p) + be(0x12345678, 4))); R r = send(0x11, 1, 1, Bytes{0} + path_arg({44, 429, 0, 0, 0})); EXPECT(r.sw == 0xE012, "%04x", r.sw);
    OK(send(0x10, 2, 0, path_arg(p) + be(0x12345678, 4)));
}
'''),
dict(id="c10-vlq-buffer", property="C10", needs="a value of 2^63 or more",
 breaks="the last byte of the encoding is written behind the local buffer",
 edits=[("common/gve.c", "    uint8_t out[10];", "    uint8_t out[sizeof(val) * 8 / 7];")],
 flags="-fsanitize=address", demo=r'''
int main() { boot(); att_start(box(1ull << 63)); }
'''),
dict(id="c11-empty-extension-chunk", property="C11", needs="a context extension one of whose chunks is empty",
 breaks="the transaction is refused depending on how its extension is split",
 edits=[("ergo/tx_ser_input.c", "    if (context->context_extension_data_size < len) {", "    if (context->context_extension_data_size < len || len == 0) {")],
 demo=SIGN + r'''
int main() {
    boot(); auto f = attest(box(1000000)); uint8_t s = sign_start(path()); OK(tx_start(s, 1, 0, 0, 1)); OK(send(0x21, 0x12, s, f[0] + be(4, 4))); OK(send(0x21, 0x13, s, Bytes{1, 2})); OK(send(0x21, 0x13, s)); OK(send(0x21, 0x13, s, Bytes{3, 4})); OK(out_start(s, 1000000, 0));
}
'''),
dict(id="c13-u32-one-bit-more", property="C13", needs="an encoding of a number between 2^32 and 2^33",
 breaks="the number is cut to 32 bits instead of refused",
 edits=[("common/gve.c", "    if (u64 > UINT32_MAX) return GVE_ERR_INT_TO_BIG;", "    if (u64 >> 33) return GVE_ERR_INT_TO_BIG;")],
 unit=r'''
#include "common/gve.h"
int check(void) { uint8_t m[5] = {0x80, 0x80, 0x80, 0x80, 0x10}; buffer_t b; buffer_init(&b, m, 5); uint32_t v; return gve_get_u32(&b, &v) == GVE_OK; }
''', demo=UNIT),
dict(id="c14-largest-balance-refused", property="C14", needs="adding to a negative balance so that it becomes exactly 2^63-1",
 breaks="a representable sum is refused",
 edits=[("common/safeint.h", "        if (r >= -(uint64_t) l && r + l > INT64_MAX) return false;", "        if (r >= -(uint64_t) l && r + l >= INT64_MAX) return false;")],
 unit=r'''
#include "common/safeint.h"
int check(void) { int64_t v; return !checked_add_i64(-5, (uint64_t) INT64_MAX + 5, &v) || v != INT64_MAX; }
''', demo=UNIT),
dict(id="c22-box-id-status", property="C22", needs="a second token frame of another box than the first",
 breaks="the refusal is reported as a bad frame index",
 edits=[("helpers/sw_result.h", '''        case ERGO_TX_SERIALIZER_FULL_RES_ERR_BAD_INPUT_ID:
            return SW_BAD_BOX_ID;''', '''        case ERGO_TX_SERIALIZER_FULL_RES_ERR_BAD_INPUT_ID:
            return SW_BAD_FRAME_INDEX;''')],
 demo=SIGN + r'''
int main() {
    boot(); std::vector<Token> t; for (int i = 0; i < 5; i++) t.push_back({tid(i + 1), 5}); auto a = attest(box(1000000, t)), b = attest(box(2000000, t));
    uint8_t s = sign_start(path()); OK(tx_start(s, 2, 0, 0, 1)); OK(send(0x21, 0x12, s, a[0] + be(0, 4))); R r = send(0x21, 0x12, s, b[1]); EXPECT(r.sw == 0xE005, "%04x", r.sw);
}
'''),
dict(id="c26-key-cache-by-prefix", property="C26", needs="a request for a path right after one for a path that continues it",
 breaks="the key of the longer path is returned for the shorter one",
 edits=[("helpers/crypto.c", '''    bool has_chain_code = chain_code != NULL;
    uint8_t temp_chain_code[CHAIN_CODE_LEN];''', '''    static uint32_t last_path[10];
    static uint8_t last_len = 0;
    static uint8_t last_public_key[PUBLIC_KEY_LEN], last_chain_code[CHAIN_CODE_LEN];
    if (last_len != 0 && bip32_path_len <= last_len &&
        memcmp(last_path, bip32_path, bip32_path_len * sizeof(uint32_t)) == 0) {
        memmove(raw_public_key, last_public_key, PUBLIC_KEY_LEN);
        if (chain_code != NULL) memmove(chain_code, last_chain_code, CHAIN_CODE_LEN);
        return 0;
    }
    bool has_chain_code = chain_code != NULL;
    uint8_t temp_chain_code[CHAIN_CODE_LEN];'''), ("helpers/crypto.c", '''        result = crypto_init_public_key(&private_key, &public_key, raw_public_key);
    }''', '''        result = crypto_init_public_key(&private_key, &public_key, raw_public_key);
    }
    last_len = 0;
    if (result == 0 && bip32_path_len <= 10) {
        last_len = bip32_path_len;
        memmove(last_path, bip32_path, bip32_path_len * sizeof(uint32_t));
        memmove(last_public_key, raw_public_key, PUBLIC_KEY_LEN);
        memmove(last_chain_code, chain_code, CHAIN_CODE_LEN);
    }''')],
 demo=r'''
int main() {
    boot(); Path a{44 | H, 429 | H, 1 | H, 2 | H}, b{44 | H, 429 | H, 1 | H}; Bytes x = OK(go(0x10, 1, 0, path_arg(b))).data; OK(go(0x10, 1, 0, path_arg(a))); EXPECT(OK(go(0x10, 1, 0, path_arg(b))).data == x, "another key");
}
'''),
dict(id="c09-key-cache-of-seed", property="C09", needs="an address request for a path with the steps of the previous one in another order",
 breaks="the address of the previous path is shown and sent",
 edits=[("helpers/crypto.c", '''    bool has_chain_code = chain_code != NULL;
    uint8_t temp_chain_code[CHAIN_CODE_LEN];''', '''    static uint32_t last_sum = 0;
    static uint8_t last_public_key[PUBLIC_KEY_LEN], last_chain_code[CHAIN_CODE_LEN];
    uint32_t sum = bip32_path_len;
    for (uint8_t i = 0; i < bip32_path_len; i++) sum += bip32_path[i] * 65537;
    if (sum == last_sum) {  // asked again
        memmove(raw_public_key, last_public_key, PUBLIC_KEY_LEN);
        if (chain_code != NULL) memmove(chain_code, last_chain_code, CHAIN_CODE_LEN);
        return 0;
    }
    bool has_chain_code = chain_code != NULL;
    uint8_t temp_chain_code[CHAIN_CODE_LEN];'''), ("helpers/crypto.c", '''        result = crypto_init_public_key(&private_key, &public_key, raw_public_key);
    }''', '''        result = crypto_init_public_key(&private_key, &public_key, raw_public_key);
    }
    last_sum = 0;
    if (result == 0) {
        last_sum = sum;
        memmove(last_public_key, raw_public_key, PUBLIC_KEY_LEN);
        memmove(last_chain_code, chain_code, CHAIN_CODE_LEN);
    }''')],
 demo=r'''
int main() {
    boot(); Bytes x = OK(go(0x11, 1, 1, Bytes{0} + path_arg(path(0, 1, 0)))).data, y = OK(go(0x11, 1, 1, Bytes{0} + path_arg(path(0, 0, 1)))).data; EXPECT(y != x, "same address");
}
'''),
dict(id="c20-frame-of-any-session", property="C20", needs="a frame request with another session id than the attestation's",
 breaks="frames are released without their session id",
 edits=[("commands/attestinput/ainpt_handler.c", '''            CHECK_COMMAND(ctx, CMD_ATTEST_INPUT_BOX);
            CHECK_SESSION(ctx, session_or_token);
            return handle_get_frame(ctx, app_session_key(), cdata);''', '''            CHECK_COMMAND(ctx, CMD_ATTEST_INPUT_BOX);
            return handle_get_frame(ctx, app_session_key(), cdata);''')],
 demo=r'''
int main() { boot(); Box b = box(1000); uint8_t s = att_start(b); att_body(s, b); R r = send(0x20, 5, s ^ 0x80, {0}); EXPECT(r.sw == 0xB002 && r.data.empty(), "%04x", r.sw); }
'''),
dict(id="c23-unknown-subcommand-during-review", property="C23", needs="a signing command with an unknown subcommand while a review is open",
 breaks="the transaction under review is discarded and the device takes new commands",
 edits=[("commands/signtx/stx_handler.c", '''    if (app_is_ui_busy()) {
        return res_ui_busy();
    }
    sign_transaction_ctx_t *ctx = app_sign_transaction_context();''', '''    sign_transaction_ctx_t *ctx = app_sign_transaction_context();
    if (subcommand > SIGN_TRANSACTION_SUBCOMMAND_CONFIRM) {
        return handler_err(ctx, SW_WRONG_SUBCOMMAND);
    }
    if (app_is_ui_busy()) {
        return res_ui_busy();
    }''')],
 demo=SIGN + r'''
int main() {
    boot(); uint8_t s = begin({box(1000000)}, 0, {}, 1); Bytes tree = p2pk_of(3); OK(out_start(s, 1000000, tree.size())); EXPECT(send(0x21, 0x16, s, tree).ui, "no review"); R r = send(0x21, 0x30, s); EXPECT(r.sw == 0xB000, "%04x", r.sw); OK(approve()); OK(go(0x21, 0x20, s));
}
'''),
dict(id="c27-callback-error-forgotten", property="C27", needs="a token that its receiver refuses, followed by more data of the same input",
 breaks="the input is continued and completed after the refusal",
 edits=[("ergo/tx_ser_input.c", '''            if (res != ERGO_TX_SERIALIZER_INPUT_RES_OK) {
                return res_error(context, res);
            }''', '''            if (res != ERGO_TX_SERIALIZER_INPUT_RES_OK) {
                return res;
            }''')],
 unit=r'''
#include "ergo/tx_ser_input.h"
static ergo_tx_serializer_input_result_e no(const uint8_t b[static ERGO_ID_LEN], const uint8_t t[static ERGO_ID_LEN], uint64_t v, void *c) { return v == 7 ? ERGO_TX_SERIALIZER_INPUT_RES_ERR_TOO_MANY_TOKENS : ERGO_TX_SERIALIZER_INPUT_RES_OK; }
int check(void) {
    ergo_tx_serializer_input_context_t c; cx_blake2b_t h; token_table_t t = {0}; uint8_t id[32] = {1}, d[40] = {0}; buffer_t b; blake2b_256_init(&h);
    if (ergo_tx_serializer_input_init(&c, id, 1, 0, &t, &h) != ERGO_TX_SERIALIZER_INPUT_RES_OK) return 2; ergo_tx_serializer_input_set_callback(&c, no, NULL);
    d[39] = 7; b = (buffer_t){d, 40, 0}; if (ergo_tx_serializer_input_add_tokens(&c, id, 0, &b) == ERGO_TX_SERIALIZER_INPUT_RES_OK) return 3;
    d[39] = 6; b = (buffer_t){d, 40, 0}; return ergo_tx_serializer_input_add_tokens(&c, id, 0, &b) == ERGO_TX_SERIALIZER_INPUT_RES_OK;
}
''', demo=UNIT),
dict(id="c05-mac-last-byte", property="C05", needs="a frame whose last authentication byte is wrong",
 breaks="the frame is accepted",
 edits=[("commands/signtx/stx_handler.c", "    if (memcmp(id_buffer, input_frame_signature_ptr(cdata), INPUT_FRAME_SIGNATURE_LEN) != 0) {", "    if (memcmp(id_buffer, input_frame_signature_ptr(cdata), INPUT_FRAME_SIGNATURE_LEN - 1) != 0) {")],
 demo=SIGN + r'''
int main() { boot(); auto f = attest(box(1000000)); uint8_t s = sign_start(path()); OK(tx_start(s, 1, 0, 0, 1)); f[0].back() ^= 1; R r = send(0x21, 0x12, s, f[0] + be(0, 4)); EXPECT(r.sw == 0xE018, "%04x", r.sw); }
'''),
dict(id="c04-zero-token-left-out", property="C04", needs="a box with a token of amount zero",
 breaks="the frames leave that token out",
 edits=[("commands/attestinput/ainpt_handler.c", '''    memmove(ctx->tokens_table.tokens[ctx->tokens_table.count], id, ERGO_ID_LEN);''', '''    if (value == 0) return ERGO_TX_SERIALIZER_BOX_RES_OK;  // nothing to spend
    memmove(ctx->tokens_table.tokens[ctx->tokens_table.count], id, ERGO_ID_LEN);''')],
 demo=r'''
int main() { boot(); auto f = attest(box(1000000, {{tid(1), 5}, {tid(2), 0}})); EXPECT(f[0][42] == 2, "%d tokens", f[0][42]); }
'''),
dict(id="c08-export-soft-tail", property="C08", needs="a key export for a path whose later steps are not hardened",
 breaks="the key of an address level is exported",
 edits=[("common/bip32_ext.c", '''            if (bip32_path_len < 3) {
                return false;
            }
            for (uint8_t i = 2; i < bip32_path_len; i++) {''', '''            if (bip32_path_len < 3) {
                return false;
            }
            for (uint8_t i = 2; i < bip32_path_len && i < 5; i++) {''')],
 demo=r'''
int main() { boot(); R r = send(0x10, 1, 0, path_arg({44 | H, 429 | H, 1 | H, 1 | H, 1 | H, 1})); EXPECT(r.sw == 0xE012, "%04x", r.sw); }
'''),
dict(id="c17-tree-header-ignored", property="C17", needs="an output tree with another header byte in front of a public key",
 breaks="the script is shown as the address of that key",
 edits=[("ergo/ergo_tree.c", "    if (memcmp(tree, PIC(C_ERGO_TREE_P2PK_PREFIX), ERGO_TREE_P2PK_PREFIX_LEN) != 0) {", "    // the header holds the version\n    if ((tree[0] & 0xF8) != 0 ||\n        memcmp(tree + 1, PIC(C_ERGO_TREE_P2PK_PREFIX) + 1, ERGO_TREE_P2PK_PREFIX_LEN - 1) != 0) {")],
 demo=SIGN + r'''
int main() {
    boot(); uint8_t s = begin({box(1000000)}, 0, {}, 1); Bytes tree = p2pk_of(3); tree[0] = 1; OK(out_start(s, 1000000, tree.size())); EXPECT(send(0x21, 0x16, s, tree).ui, "no review"); auto v = screens(); EXPECT(v[1].title == "Script Hash", "%s", v[1].title.c_str());
}
'''),
dict(id="c21-key-derivation-for-change", property="C21", needs="a key generation that fails with another error than the internal one while the change tree is built",
 breaks="a change output to an undefined key is accepted",
 edits=[("commands/signtx/stx_handler.c", '''    if (crypto_generate_public_key(path, path_len, pub_key, NULL) != 0) {
        return SW_INTERNAL_CRYPTO_ERROR;
    }
    return SW_OK;''', '''    uint16_t res = crypto_generate_public_key(path, path_len, pub_key, NULL);
    return res == (uint16_t) CX_INTERNAL_ERROR ? SW_INTERNAL_CRYPTO_ERROR : SW_OK;''')],
 demo=SIGN + r'''
int main() {
    boot(); uint8_t s = begin({box(1000000)}, 0, {}, 1); OK(out_start(s, 1000, 0)); host::fault_code = 0xFFFFFF41; host::fault_hook = [](const char *n) { return std::string(n) == "generate_pair"; };
    R r = send(0x21, 0x18, s, path_arg(path())); EXPECT(r.sw == 0xE013, "%04x", r.sw);
}
'''),
dict(id="c03-similar-tokens", property="C03", needs="two tokens whose ids differ only in their last byte",
 breaks="their amounts are added up and shown as one token",
 edits=[("ergo/tx_ser_table.h", "        if (memcmp(table->tokens[i], id, ERGO_ID_LEN) == 0) return i;", "        if (memcmp(table->tokens[i], id, ERGO_ID_LEN - 1) == 0) return i;")],
 demo=SIGN + r'''
int main() {
    boot(); B32 a = tid(1), b = tid(1); b[31] ^= 1; uint8_t s = begin({box(1000000, {{a, 5}, {b, 6}})}, 0, {}, 1); OK(out_start(s, 1000000, 0)); OK(send(0x21, 0x17, s)); EXPECT(send(0x21, 0x20, s).ui, "no review"); std::string t = text(screens()); puts(t.c_str()); EXPECT(t.find("Burning: 5;") != std::string::npos && t.find("Burning: 6;") != std::string::npos, "amounts");
}
'''),
dict(id="c25-approved-prefix", property="C25", needs="a change output whose path is the beginning of the last approved, longer one",
 breaks="it is not shown",
 edits=[("commands/signtx/stx_output.h", "    return bip32_path_is_equal(p1->path, p1->len, p2->path, p2->len);", "    return p1->len <= p2->len && memcmp(p1->path, p2->path, p1->len * sizeof(uint32_t)) == 0;")],
 demo=SIGN + r'''
int main() {
    boot(); uint8_t s = begin({box(1000000)}, 0, {}, 2); Path a = path(0, 0, 100), b = a; b.push_back(1); OK(out_start(s, 1000, 0)); R r = send(0x21, 0x18, s, path_arg(b)); EXPECT(r.ui, "no review"); OK(approve()); OK(out_start(s, 1000, 0)); r = send(0x21, 0x18, s, path_arg(a)); EXPECT(r.ui && !r.n, "not shown: %04x", r.sw);
}
'''),
dict(id="c18-two-dynamic-screens", property="C18", needs="entering the details of a review from its end when there is an odd number of them",
 breaks="another detail screen than the last one comes first and the last one is skipped",
 edits=[("ui/ui_dynamic_flow.c", "        G_dynamic_flow_context.current_screen = G_dynamic_flow_context.screen_count - 1;", "        G_dynamic_flow_context.current_screen = (G_dynamic_flow_context.screen_count - 1) | 1;\n        if (G_dynamic_flow_context.current_screen >= G_dynamic_flow_context.screen_count) {\n            G_dynamic_flow_context.current_screen -= G_dynamic_flow_context.screen_count > 1 ? 2 : 1;\n        }")],
 demo=SIGN + r'''
int main() {
    boot(); uint8_t s = begin({box(1000000)}, 0, {}, 1); OK(out_start(s, 1000000, 0)); OK(send(0x21, 0x17, s)); EXPECT(send(0x21, 0x20, s).ui, "no review"); for (int i = 0; i < 3; i++) { press(0); puts(host::screen.title.c_str()); } EXPECT(host::screen.title == "Transaction Fee", "%s", host::screen.title.c_str());
}
'''),
dict(id="c01-nonce-without-commitment", property="C01", needs="a rejected first nonce (zero or above the group order)",
 breaks="the released signature does not verify",
 edits=[("ergo/schnorr.c", '''            if (!blake2b_256_init(hash)) break;
            // compute''', '''            if (i == 0 && !blake2b_256_init(hash)) break;
            // compute''')],
 demo=SIGN + r'''
int main() {
    boot(); auto old = host::rng; static int k = 0; Box b = box(1000000); auto f = attest(b);
    host::rng = [](uint8_t *p, size_t n) { if (n == 32 && k++ == 0) { memset(p, 0xFF, n); return; } for (size_t i = 0; i < n; i++) p[i] = i * 7 + n + k; };
    Path q = path(); uint8_t s = sign_start(q); OK(tx_start(s, 1, 0, 0, 1)); add_input(s, f); OK(out_start(s, 1000000, 0, 5)); OK(send(0x21, 0x17, s)); Bytes sig = OK(go(0x21, 0x20, s)).data;
    Tx t; Input in; in.box.id = ref::box_id(b); t.in = {in}; Output o; o.kind = Output::FEE; o.value = 1000000; o.height = 5; t.out = {o}; uint8_t pk[33]; ref::pub33(SEED, q, pk); EXPECT(ref::signature_ok(sig, pk, ref::message(t, SEED)), "signature");
}
'''),
]
