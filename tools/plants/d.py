import runpy, os
HERE = os.path.dirname(os.path.abspath(__file__))
SIGN = runpy.run_path(os.path.join(HERE, "a.py"))["SIGN"]
UNIT = runpy.run_path(os.path.join(HERE, "c.py"))["UNIT"]
# twenty declared tokens, 0..19, split over the 4 commands the length limit asks for
TWENTY = r'''
static uint8_t twenty(std::vector<Token> held, unsigned outs) {
    auto f = attest(box(1000000, held)); uint8_t s = sign_start(path()); OK(tx_start(s, 1, 0, 20, outs)); std::vector<B32> t; for (int i = 0; i < 20; i++) t.push_back(tid(i + 1));
    for (int i = 0; i < 20; i += 5) OK(tx_tokens(s, std::vector<B32>(t.begin() + i, t.begin() + i + 5)));
    add_input(s, f); return s;
}
'''
PLANTS = [
dict(id="c01-challenge-leading-zero", property="C01", needs="a transaction and nonce whose challenge starts with a zero byte (1 of 256)",
 breaks="a well-formed approved transaction is refused instead of signed",
 edits=[("ergo/schnorr.c", "    if (cx_math_is_zero(buf, CX_BLAKE2B_256_SIZE)) return false;", "    // challenge should have full length\n    if (cx_math_is_zero(buf, CX_BLAKE2B_256_SIZE - ERGO_SOUNDNESS_BYTES + 1)) return false;")],
 demo=SIGN + r'''
int main() {
    boot(); for (int i = 0; i < 1500; i++) { uint8_t s = begin({box(1000000 + i)}, 0, {}, 1); OK(out_start(s, 1000000 + i, 0)); OK(send(0x21, 0x17, s)); R r = OK(go(0x21, 0x20, s)); EXPECT(r.data.size() == 56, "signature"); }
}
'''),
dict(id="c02-last-token-hidden", property="C02", needs="an output with the 20th declared token of a transaction",
 breaks="the review of the output does not show that token",
 edits=[("commands/signtx/stx_output.c", '''uint8_t stx_output_info_used_tokens_count(const sign_transaction_output_info_ctx_t* ctx) {
    uint8_t count = 0;
    for (uint8_t i = 0; i < TOKEN_MAX_COUNT; i++) {''', '''uint8_t stx_output_info_used_tokens_count(const sign_transaction_output_info_ctx_t* ctx) {
    uint8_t count = 0;
    for (uint8_t i = 0; i < TOKEN_MAX_COUNT - 1; i++) {''')],
 demo=SIGN + TWENTY + r'''
int main() {
    boot(); uint8_t s = twenty({{tid(20), 5}}, 1); Bytes tree = p2pk_of(3); OK(out_start(s, 1000000, tree.size(), 1, 1)); OK(send(0x21, 0x16, s, tree));
    R r = send(0x21, 0x19, s, otok({{19, 5}})); EXPECT(r.ui, "no review"); auto v = screens(); EXPECT(v.size() == 1 + 4 + 2, "%zu screens: %s", v.size(), text(v).c_str());
}
'''),
dict(id="c02-title-cut", property="C02", needs="an output with ten or more tokens",
 breaks="the title of the amount screens from the tenth token on is cut",
 edits=[("commands/signtx/stx_types.h", '''    char title[20];  // dynamic screen title
    char text[70];   // dynamic screen text
    uint8_t network_id;''', '''    char title[16];  // dynamic screen title
    char text[70];   // dynamic screen text
    uint8_t network_id;''')],
 demo=SIGN + TWENTY + r'''
int main() {
    boot(); std::vector<Token> h; for (int i = 0; i < 12; i++) h.push_back({tid(i + 1), 5}); uint8_t s = twenty(h, 1); Bytes tree = p2pk_of(3); OK(out_start(s, 1000000, tree.size(), 1, 12)); OK(send(0x21, 0x16, s, tree));
    std::vector<std::pair<uint32_t, uint64_t>> o; for (int i = 0; i < 12; i++) o.push_back({i, 5}); R r = send(0x21, 0x19, s, otok(o)); EXPECT(r.ui, "no review");
    std::string t = text(screens()); puts(t.c_str()); EXPECT(t.find("Token [12] Value=5;") != std::string::npos, "title");
}
'''),
dict(id="c03-last-token-hidden", property="C03", needs="a transaction with 20 distinct tokens whose last one does not balance",
 breaks="the final screens do not list the change of that token",
 edits=[("commands/signtx/stx_amounts.c", '''uint8_t stx_amounts_non_zero_tokens_count(const sign_transaction_amounts_ctx_t *ctx) {
    uint8_t count = 0;
    for (uint8_t i = 0; i < TOKEN_MAX_COUNT; i++) {''', '''uint8_t stx_amounts_non_zero_tokens_count(const sign_transaction_amounts_ctx_t *ctx) {
    uint8_t count = 0;
    for (uint8_t i = 0; i + 1 < TOKEN_MAX_COUNT; i++) {''')],
 demo=SIGN + TWENTY + r'''
int main() {
    boot(); uint8_t s = twenty({{tid(20), 5}}, 1); OK(out_start(s, 1000000, 0)); OK(send(0x21, 0x17, s)); R r = send(0x21, 0x20, s); EXPECT(r.ui, "no review");
    std::string t = text(screens()); puts(t.c_str()); EXPECT(t.find("Burning: 5") != std::string::npos, "burned token missing");
}
'''),
dict(id="c05-later-frame-of-another-box", property="C05", needs="the second frame of one box sent after the first frame of another",
 breaks="tokens of a box that is not an input are counted for the input",
 edits=[("ergo/tx_ser_input.c", "    if (memcmp(context->box_id, box_id, ERGO_ID_LEN) != 0) {", "    if (token_frame_index == 0 && memcmp(context->box_id, box_id, ERGO_ID_LEN) != 0) {")],
 demo=SIGN + r'''
int main() {
    boot(); std::vector<Token> a, b; for (int i = 0; i < 6; i++) a.push_back({tid(i + 1), 5}), b.push_back({tid(i + 1), 500}); auto fa = attest(box(1000000, a)), fb = attest(box(1000000, b, 1));
    uint8_t s = sign_start(path()); OK(tx_start(s, 1, 0, 0, 1)); OK(send(0x21, 0x12, s, fa[0] + be(0, 4))); R r = send(0x21, 0x12, s, fb[1]); EXPECT(r.sw == 0xE005, "%04x", r.sw);
}
'''),
dict(id="c12-extension-limit", property="C12", needs="a context extension of exactly 32768 bytes",
 breaks="an extension of the documented maximum is refused",
 edits=[("ergo/tx_ser_input.c", "context_extension_data_size > MAX_TX_DATA_PART_LEN)", "context_extension_data_size >= MAX_TX_DATA_PART_LEN)")],
 demo=SIGN + r'''
int main() {
    boot(); auto f = attest(box(1000000)); uint8_t s = sign_start(path()); OK(tx_start(s, 1, 0, 0, 1)); OK(send(0x21, 0x12, s, f[0] + be(32768, 4)));
}
'''),
dict(id="c16-product-left", property="C16", needs="a successful signature, then a look at the memory",
 breaks="the product of challenge and private key stays on the stack, from which the key follows",
 edits=[("ergo/schnorr.c", '''    explicit_bzero(buf, sizeof(buf));

    return true;
}
''', '''    explicit_bzero(buf, CX_BLAKE2B_256_SIZE - ERGO_SOUNDNESS_BYTES);

    return true;
}
''')],
 demo=SIGN + r'''
extern "C" uint32_t __real_cx_math_addm_no_throw(uint8_t *, const uint8_t *, const uint8_t *, const uint8_t *, size_t);
static volatile uint8_t *at; static uint8_t product[32], kept[32];
extern "C" uint32_t __wrap_cx_math_addm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t n) { at = (uint8_t *) b; memcpy(product, b, 32); return __real_cx_math_addm_no_throw(r, a, b, m, n); }
extern "C" int __real_ergo_secp256k1_schnorr_p2pk_sign_finish(uint8_t *, void *, const uint8_t *, const uint8_t *);
extern "C" int __wrap_ergo_secp256k1_schnorr_p2pk_sign_finish(uint8_t *s, void *h, const uint8_t *k, const uint8_t *y) { int r = __real_ergo_secp256k1_schnorr_p2pk_sign_finish(s, h, k, y); if (at) for (int i = 0; i < 32; i++) kept[i] = at[i]; return r & 1; }
int main() {
    boot(); uint8_t s = begin({box(1000000)}, 0, {}, 1); OK(out_start(s, 1000000, 0)); OK(send(0x21, 0x17, s)); R r = OK(go(0x21, 0x20, s)); EXPECT(at, "no product");
    EXPECT(memcmp(kept + 16, product + 16, 16), "the product is still in memory");
}
''', flags="-Wl,--wrap=cx_math_addm_no_throw -Wl,--wrap=ergo_secp256k1_schnorr_p2pk_sign_finish"),
dict(id="c18-back-skips-first", property="C18", needs="going back from the second detail screen of a review",
 breaks="the first detail screen is skipped on the way back",
 edits=[("ui/ui_dynamic_flow.c", '''        if (G_dynamic_flow_context.current_screen == 0) {
            G_dynamic_flow_context.current_screen = INDEX_NOT_EXIST;''', '''        if (G_dynamic_flow_context.current_screen <= 1) {
            G_dynamic_flow_context.current_screen = INDEX_NOT_EXIST;''')],
 demo=SIGN + r'''
int main() {
    boot(); uint8_t s = begin({box(1000000)}, 0, {}, 1); Bytes tree = p2pk_of(3); OK(out_start(s, 1000000, tree.size())); R r = send(0x21, 0x16, s, tree); EXPECT(r.ui, "no review");
    press(1); host::Screen first = host::screen; press(1); press(0); EXPECT(host::screen == first, "%s", host::screen.title.c_str());
}
'''),
dict(id="c20-session-high-bit", property="C20", needs="a sub-command with a session id that differs from the right one in the top bit",
 breaks="the sub-command is executed",
 edits=[("helpers/cmd_macros.h", "    if (_session_id != _ctx->session) return", "    if (((_session_id ^ _ctx->session) & 0x7F) != 0) return")],
 demo=SIGN + r'''
int main() { boot(); uint8_t s = sign_start(path()); R r = tx_start(s ^ 0x80, 1, 0, 0, 1); EXPECT(r.sw == 0xB002, "%04x", r.sw); }
'''),
dict(id="c21-address-checksum", property="C21", needs="the hash of an address checksum failing",
 breaks="an address with a wrong checksum is returned",
 edits=[("ergo/address.c", '''    uint8_t hash[CX_BLAKE2B_256_SIZE] = {0};

    if (!blake2b_256(rw_buffer_read_ptr(&buffer), rw_buffer_data_len(&buffer), hash)) {
        return false;
    }''', '''    uint8_t hash[CX_BLAKE2B_256_SIZE] = {0};

    blake2b_256(rw_buffer_read_ptr(&buffer), rw_buffer_data_len(&buffer), hash);''')],
 demo=r'''
int main() {
    boot(); host::fault_hook = [](const char *n) { return !strcmp(n, "blake2b_256") || !strcmp(n, "hash"); }; R r = send(0x11, 1, 1, Bytes{0} + path_arg(path())); if (r.ui) r = approve(); host::fault_hook = nullptr;
    EXPECT(r.n == 1 && r.sw != 0x9000, "%04x", r.sw);
}
'''),
dict(id="c23-frame-request-during-review", property="C23", needs="a frame request while a review is on screen",
 breaks="the request is processed and clears the data under review",
 edits=[("commands/attestinput/ainpt_handler.c", "    if (app_is_ui_busy()) {", "    // frames are ready made, they can be requested at any time\n    if (app_is_ui_busy() && subcommand != ATTEST_INPUT_SUBCOMMAND_GET_RESPONSE_FRAME) {")],
 demo=SIGN + r'''
int main() { boot(); R r = send(0x11, 2, 1, Bytes{0} + path_arg(path())); EXPECT(r.ui, "no review"); r = send(0x20, 5, 1, {0}); EXPECT(r.sw == 0xB000, "%04x", r.sw); }
'''),
dict(id="c24-rejected-address-trusted", property="C24", needs="an address request with a token that the user rejects",
 breaks="the token of the rejected request is trusted",
 edits=[("commands/deriveaddress/da_ui.c", '''    app_set_ui_busy(false);

    if (approved) {
        app_set_connected_app_id(ctx->app_token_value);
''', '''    app_set_ui_busy(false);
    app_set_connected_app_id(ctx->app_token_value);

    if (approved) {
''')],
 demo=r'''
int main() { boot(); Bytes tok{1, 2, 3, 4}; R r = send(0x11, 2, 2, Bytes{0} + path_arg(path()) + tok); EXPECT(r.ui, "no review"); r = reject(); r = send(0x10, 2, 0, path_arg({44 | H, 429 | H, 0 | H}) + tok); EXPECT(r.ui, "trusted"); }
'''),
dict(id="c25-earlier-change-remembered", property="C25", needs="own change outside of the window, approved before another output was reviewed",
 breaks="a later output to that change path is not reviewed although it is not the last approved one",
 edits=[("commands/signtx/stx_ui.c", '''    explicit_bzero(ctx->last_approved_change, sizeof(sign_transaction_bip32_path_t));

    if (approved) {''', '''    if (approved) {'''), ("commands/signtx/stx_ui.c", '''    memset(ctx, 0, sizeof(sign_transaction_ui_output_confirm_ctx_t));
    memset(last_approved_change, 0, sizeof(sign_transaction_bip32_path_t));
''', '''    memset(ctx, 0, sizeof(sign_transaction_ui_output_confirm_ctx_t));
''')],
 demo=SIGN + r'''
int main() {
    boot(); uint8_t s = begin({box(1000000)}, 0, {}, 3); Bytes tree = p2pk_of(3), c = path_arg(path(1, 0, 7)); OK(out_start(s, 1000, 0)); R r = send(0x21, 0x18, s, c); EXPECT(r.ui, "no review"); OK(approve());
    OK(out_start(s, 1000, tree.size())); OK(go(0x21, 0x16, s, tree)); OK(out_start(s, 998000, 0)); r = send(0x21, 0x18, s, c); EXPECT(r.ui, "no review of the second one %04x", r.sw);
}
'''),
dict(id="c27-extension-between-frames", property="C27", needs="extension bytes sent between two frames of one input",
 breaks="they are hashed and the input counts as finished without its id and its other frames",
 edits=[("ergo/tx_ser_input.c", "    CHECK_PROPER_STATE(context, ERGO_TX_SERIALIZER_INPUT_STATE_EXTENSION_STARTED);", "    if (context->frames_processed == 0) {\n        CHECK_PROPER_STATE(context, ERGO_TX_SERIALIZER_INPUT_STATE_EXTENSION_STARTED);\n    }")],
 demo=SIGN + r'''
int main() {
    boot(); std::vector<Token> a; for (int i = 0; i < 6; i++) a.push_back({tid(i + 1), 5}); auto f = attest(box(1000000, a)); uint8_t s = sign_start(path()); OK(tx_start(s, 1, 0, 0, 1));
    OK(send(0x21, 0x12, s, f[0] + be(4, 4))); R r = send(0x21, 0x13, s, {1, 2, 3, 4}); EXPECT(r.sw == 0xB0FF, "%04x", r.sw);
}
'''),
dict(id="c09-known-token-not-shown", property="C09", needs="an address shown on screen for an application token that is trusted already",
 breaks="the review does not show the application token",
 edits=[("commands/deriveaddress/da_ui.c", "    if (app_access_token != 0) {", "    if (app_access_token != 0 && app_access_token != app_connected_app_id()) {")],
 demo=r'''
int main() {
    boot(); Bytes tok{1, 2, 3, 4}; OK(go(0x10, 2, 0, path_arg({44 | H, 429 | H, 0 | H}) + tok)); R r = send(0x11, 2, 2, Bytes{0} + path_arg(path()) + tok); EXPECT(r.ui, "no review");
    std::string t = text(screens()); puts(t.c_str()); EXPECT(t.find("0x01020304") != std::string::npos, "token");
}
'''),
dict(id="c17-pubkey-prefix-bits", property="C17", needs="a 36-byte tree like pay-to-public-key whose key starts with another byte than 2 or 3",
 breaks="a script is shown as a public-key address",
 edits=[("ergo/ergo_tree.c", "    if (tree[ERGO_TREE_P2PK_PREFIX_LEN] != 0x02 && tree[ERGO_TREE_P2PK_PREFIX_LEN] != 0x03) {", "    if ((tree[ERGO_TREE_P2PK_PREFIX_LEN] & 0x02) == 0) {")],
 unit=r'''
#include "ergo/ergo_tree.h"
int check(void) { uint8_t t[36] = {0, 8, 0xcd, 6}, k[33]; return ergo_tree_parse_p2pk(t, k); }
''', demo=UNIT),
dict(id="c19-key-parameter", property="C19", needs="a public key request with P2 = 1",
 breaks="an unsupported parameter is accepted",
 edits=[("apdu_dispatcher.c", "cmd->p1 > 2 || cmd->p2 > 0)", "cmd->p1 > 2 || cmd->p2 > 1)")],
 demo=r'''
int main() { boot(); R r = send(0x10, 1, 1, path_arg({44 | H, 429 | H, 0 | H})); EXPECT(r.sw == 0x6A86, "%04x", r.sw); }
'''),
dict(id="c08-account-hardness", property="C08", needs="a path of six or more steps whose account is not hardened",
 breaks="such a path is accepted for addresses and signing",
 edits=[("common/bip32_ext.c", '''            if (bip32_path_len < 5) {
                return false;
            }
            if (bip32_path[2] < BIP32_HARDENED_CONSTANT) {
                return false;
            }''', '''            if (bip32_path_len < 5) {
                return false;
            }
            if (bip32_path_len == 5 && bip32_path[2] < BIP32_HARDENED_CONSTANT) {
                return false;
            }''')],
 demo=r'''
int main() { boot(); R r = send(0x11, 2, 1, Bytes{0} + path_arg({44 | H, 429 | H, 5, 0, 1, 2})); EXPECT(r.n == 1 && r.sw == 0xE012, "%04x", r.sw); }
'''),
]
