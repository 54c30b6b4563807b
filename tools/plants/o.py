
import runpy, os
D = os.path.dirname(os.path.abspath(__file__))
SIGN = runpy.run_path(os.path.join(D, "k.py"))["SIGN"]
UNIT = runpy.run_path(os.path.join(D, "c.py"))["UNIT"]
PK = "commands/signtx/operations/stx_op_p2pk.c"
PLANTS = [
dict(id="c09-path-of-rejected-request", property="C09", needs="a key export that is rejected, then the export for another path of the same account with the same number of steps",
 breaks="the review shows the path of the earlier request",
 edits=[("ui/ui_bip32_path.c", "    G_ui_path_params[0].title = title;\n    G_ui_path_params[0].text = buffer;\n", "    // formatting takes long: the text of the last path is kept\n    static uint32_t last_path[MAX_BIP32_PATH];\n    static char last_text[MAX_BIP32_PATH * 12];\n    static uint8_t last_len;\n    if (last_len == path_len && buffer_len <= sizeof(last_text) &&\n        memcmp(last_path, path, path_len * sizeof(uint32_t) - 1) == 0) {\n        G_ui_path_params[0].title = title;\n        G_ui_path_params[0].text = buffer;\n        memmove(buffer, last_text, buffer_len);\n        G_ui_bip32_approve_callback = cb;\n        G_ui_bip32_approve_callback_context = cb_context;\n        return cb != NULL ? &ux_bip32_path_step : &ux_bip32_path_info_step;\n    }\n    G_ui_path_params[0].title = title;\n    G_ui_path_params[0].text = buffer;\n"),
        ("ui/ui_bip32_path.c", "    G_ui_bip32_approve_callback = cb;\n    G_ui_bip32_approve_callback_context = cb_context;\n    return", "    memmove(last_text, buffer, buffer_len <= sizeof(last_text) ? buffer_len : 0);\n    last_len = path_len;\n    memmove(last_path, path, path_len * sizeof(uint32_t));\n    G_ui_bip32_approve_callback = cb;\n    G_ui_bip32_approve_callback_context = cb_context;\n    return")],
 demo=SIGN + r'''
int main() { boot(); Path a{44 | H, 429 | H, 1 | H}, b{44 | H, 429 | H, 1 + (1u << 24) | H}; R r = send(0x10, 1, 0, path_arg(a)); EXPECT(r.ui, "review"); reject(); r = send(0x10, 1, 0, path_arg(b)); EXPECT(r.ui, "review"); auto t = text(screens()); EXPECT(t.find("16777217'") != std::string::npos, "%s", t.c_str()); puts("fine"); }
'''),
dict(id="c02-tokens-of-earlier-output", property="C02", needs="two outputs of one transaction with different tokens, the earlier with one beyond the first of the table",
 breaks="tokens of the earlier output are shown with the later one, which does not hold them",
 edits=[("commands/signtx/stx_output.h", "    memset(ctx, 0, sizeof(sign_transaction_output_info_ctx_t));\n    ctx->state = 0;", "    // amounts beyond the tokens of the transaction are never used\n    memset(ctx->tokens, 0, tokens->count);\n    memset(ctx->public_key, 0, sizeof(ctx->public_key));\n    ctx->state = 0;")],
 demo=SIGN + r'''
int main() { boot(); Box b = box(1000000, {{tid(1), 50}, {tid(2), 50}}); uint8_t s = begin({b}, 0, {tid(1), tid(2)}, 2); Bytes t = p2pk_of(9);
    OK(out_start(s, 500000, t.size(), 1, 1)); OK(send(0x21, 0x16, s, t)); R r = send(0x21, 0x19, s, otok({{1, 20}})); EXPECT(r.ui, "no review"); approve();
    OK(out_start(s, 500000, t.size(), 1, 1)); OK(send(0x21, 0x16, s, t)); r = send(0x21, 0x19, s, otok({{0, 30}})); EXPECT(r.ui, "no review"); auto x = text(screens()); EXPECT(x.find("Token [2]") == std::string::npos, "%s", x.c_str()); puts("fine"); }
'''),
dict(id="c04-frame-number-read-late", property="C04", needs="a frame asked for in the buffer that the answer is written to, as the device does it",
 breaks="the number and the tokens of the frame come from bytes that the answer has already overwritten",
 edits=[("commands/attestinput/ainpt_handler.c", "    uint8_t index;\n    CHECK_READ_PARAM(ctx, buffer_read_u8(cdata, &index));", "    const uint8_t *index = buffer_read_ptr(cdata);\n    CHECK_READ_PARAM(ctx, buffer_seek_cur(cdata, 1));"),
        ("commands/attestinput/ainpt_response.h", "uint8_t index);", "const uint8_t *index);"),
        ("commands/attestinput/ainpt_response.c", "                                       uint8_t index) {", "                                       const uint8_t *frame_index) {"),
        ("commands/attestinput/ainpt_response.c", "    if (index >= frames_count) {", "    if (*frame_index >= frames_count) {"),
        ("commands/attestinput/ainpt_response.c", "    CHECK_WRITE_PARAM(rw_buffer_write_u8(&output, frames_count));\n", "    CHECK_WRITE_PARAM(rw_buffer_write_u8(&output, frames_count));\n    uint8_t index = MIN(*frame_index, frames_count - 1);\n")],
 demo=SIGN + r'''
int main() { boot(); std::vector<Token> t; for (int i = 0; i < 9; i++) t.push_back({tid(i), (uint64_t) i + 1}); auto f = attest(box(1000000, t)); for (size_t i = 0; i < f.size(); i++) EXPECT(f[i][33] == i, "frame %zu says %u", i, f[i][33]); puts("fine"); }
'''),
]
