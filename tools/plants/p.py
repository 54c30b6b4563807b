import runpy, os
D = os.path.dirname(os.path.abspath(__file__))
SIGN = runpy.run_path(os.path.join(D, "k.py"))["SIGN"]
PK = "commands/signtx/operations/stx_op_p2pk.c"
FULLTX = SIGN + r'''
static Bytes change(const Path &p) { return path_arg(p); }
'''
PLANTS = [
dict(id="c25-window-of-last-step", property="C25", needs="a signing path of more than five steps whose last one is larger than the index, and change to an index more than 20 above it",
 breaks="change far outside the window of the signing address is approved without a review",
 edits=[(PK, "path[4] < ctx->bip32.path[4] + 20)", "path[4] < ctx->bip32.path[ctx->bip32.len - 1] + 20)")],
 demo=SIGN + r'''
int main() { boot(); Box b = box(1000000); uint8_t s = begin({b}, 0, {}, 1, Path{44 | H, 429 | H, H, 0, 3, 5000}); OK(out_start(s, 1000000, 0, 1, 0)); R r = send(0x21, 0x18, s, path_arg(path(0, 0, 4000))); EXPECT(r.ui, "no review of a change to index 4000"); puts("fine"); }
'''),
dict(id="c09-deep-path-cut", property="C09", needs="an address for a path of more than five steps",
 breaks="the address belongs to the first five steps of the path",
 edits=[("commands/deriveaddress/da_handler.c", "crypto_generate_public_key(bip32_path, bip32_path_len, public_key, NULL)", "crypto_generate_public_key(bip32_path, MIN(bip32_path_len, 5), public_key, NULL)")],
 demo=SIGN + r'''
int main() { boot(); Path p{44 | H, 429 | H, H, 0, 3, 5}, q{44 | H, 429 | H, H, 0, 3}; R a = go(0x11, 1, 1, Bytes{0} + path_arg(p)), b = go(0x11, 1, 1, Bytes{0} + path_arg(q)); EXPECT(a.sw == 0x9000 && b.sw == 0x9000, "%04x %04x", a.sw, b.sw); EXPECT(a.data != b.data, "same address"); puts("fine"); }
'''),
dict(id="c23-browsing-back-ends-busy", property="C23", needs="going back past the first page of an output's review, then a command while the review is still open",
 breaks="the host can start another operation under the review",
 edits=[("ui/ui_dynamic_flow.c", "            G_dynamic_flow_context.current_screen = INDEX_NOT_EXIST;\n            // Similar to", "            G_dynamic_flow_context.current_screen = INDEX_NOT_EXIST;\n            app_set_ui_busy(false);\n            // Similar to")],
 demo=SIGN + r'''
int main() { boot(); Box b = box(1000000); uint8_t s = begin({b}, 0, {}, 1); Bytes t = p2pk_of(9); OK(out_start(s, 1000000, t.size())); R r = send(0x21, 0x16, s, t); EXPECT(r.ui, "no review"); press(1); press(1); press(0); press(0); r = send(0x11, 2, 1, Bytes{0} + path_arg(path())); EXPECT(r.sw == 0xB000, "%04x", r.sw); puts("fine"); }
'''),
dict(id="c12-full-table-ignored", property="C12", needs="inputs with more than 20 different tokens together",
 breaks="the 21st token is accepted (and never counted) instead of refused",
 edits=[("commands/signtx/stx_amounts.c", "        if (!IS_ELEMENT_FOUND(index)) return ERGO_TX_SERIALIZER_INPUT_RES_ERR_TOO_MANY_TOKENS;", "        // tokens beyond the table can't be in the outputs\n        if (!IS_ELEMENT_FOUND(index)) return ERGO_TX_SERIALIZER_INPUT_RES_OK;")],
 demo=SIGN + r'''
int main() { boot(); std::vector<Token> t; for (int i = 0; i < 20; i++) t.push_back({tid(i), 5}); Box a = box(1000000, t), b = box(1000000, {{tid(30), 5}}, 1); auto fa = attest(a), fb = attest(b); uint8_t s = sign_start(path()); OK(tx_start(s, 2, 0, 0, 1)); add_input(s, fa); R r = send(0x21, 0x12, s, fb[0] + be(0, 4)); EXPECT(r.sw != 0x9000, "accepted"); puts("fine"); }
'''),
dict(id="c12-one-byte-extension", property="C12", needs="an input with more than four tokens and a context extension of one byte",
 breaks="the extension is accepted although no extension has one byte",
 edits=[("ergo/tx_ser_input.c", "    if (context_extension_data_size == 1 || context", "    if ((context_extension_data_size == 1 && token_frames_count < 2) || context")],
 demo=SIGN + r'''
int main() { boot(); std::vector<Token> t; for (int i = 0; i < 6; i++) t.push_back({tid(i), 5}); Box a = box(1000000, t); auto fa = attest(a); uint8_t s = sign_start(path()); OK(tx_start(s, 1, 0, 0, 1)); R r = send(0x21, 0x12, s, fa[0] + be(1, 4)); EXPECT(r.sw != 0x9000, "accepted"); puts("fine"); }
'''),
dict(id="c06-tokens-unfinished", property="C06", needs="an output with several tokens and registers, the registers sent before all tokens are",
 breaks="registers are accepted with tokens missing",
 edits=[("ergo/tx_ser_box.c", "    CHECK_PROPER_STATE(context, ERGO_TX_SERIALIZER_BOX_STATE_TREE_ADDED);\n    RW_BUFFER_NEW_LOCAL_EMPTY(buffer, 10);\n", "    if (context->tokens_count == 0 || context->state != ERGO_TX_SERIALIZER_BOX_STATE_TOKENS_ADDED) {\n        CHECK_PROPER_STATE(context, ERGO_TX_SERIALIZER_BOX_STATE_TREE_ADDED);\n    }\n    RW_BUFFER_NEW_LOCAL_EMPTY(buffer, 10);\n"),
        ("ergo/tx_ser_box.c", "        context->tokens_count--;\n    }\n", "        context->tokens_count--;\n        if (context->registers_size != 0) context->state = ERGO_TX_SERIALIZER_BOX_STATE_TOKENS_ADDED;\n    }\n")],
 demo=SIGN + r'''
int main() { boot(); Box b = box(1000000, {{tid(1), 50}, {tid(2), 50}}); uint8_t s = begin({b}, 0, {tid(1), tid(2)}, 1); Bytes t = p2pk_of(9);
    OK(out_start(s, 500000, t.size(), 1, 2, 3)); OK(send(0x21, 0x16, s, t)); OK(send(0x21, 0x19, s, otok({{1, 20}}))); R r = send(0x21, 0x1A, s, {1, 4, 2}); EXPECT(!r.ui && r.sw != 0x9000, "accepted"); puts("fine"); }
'''),
dict(id="c07-rejected-signing-repeatable", property="C07", needs="the last review rejected and then asked for again",
 breaks="the rejected transaction is offered and signed without being sent again",
 edits=[("commands/signtx/stx_ui.c", "        res_deny();\n    }\n\n    app_set_current_command(CMD_NONE);\n    ui_menu_main();", "        res_deny();\n        ui_menu_main();\n        return;\n    }\n\n    app_set_current_command(CMD_NONE);\n    ui_menu_main();"),
        (PK, "    CHECK_PROPER_STATE(ctx, SIGN_TRANSACTION_OPERATION_P2PK_STATE_TX_FINISHED);\n    ctx->state = ", "    CHECK_PROPER_STATES(ctx,\n                        SIGN_TRANSACTION_OPERATION_P2PK_STATE_TX_FINISHED,\n                        SIGN_TRANSACTION_OPERATION_P2PK_STATE_FINALIZED);\n    ctx->state = ")],
 demo=SIGN + r'''
int main() { boot(); Box b = box(1000000); uint8_t s = begin({b}, 0, {}, 1); OK(out_start(s, 1000000, 0)); OK(send(0x21, 0x17, s)); R r = send(0x21, 0x20, s); EXPECT(r.ui, "no review"); r = reject(); EXPECT(r.sw == 0x6985, "%04x", r.sw); r = send(0x21, 0x20, s); EXPECT(!r.ui, "asked again"); puts("fine"); }
'''),
dict(id="c18-single-page-back", property="C18", needs="the review of a change output (one page), left to the left",
 breaks="going back from the only page ends the review with an error",
 edits=[("ui/ui_dynamic_flow.c", "        if (G_dynamic_flow_context.current_screen == 0) {", "        if (G_dynamic_flow_context.current_screen == 0 && G_dynamic_flow_context.screen_count > 1) {")],
 demo=SIGN + r'''
int main() { boot(); Box b = box(1000000); uint8_t s = begin({b}, 0, {}, 1); OK(out_start(s, 1000000, 0)); R r = send(0x21, 0x18, s, path_arg(path(7, 0, 4000))); EXPECT(r.ui, "no review"); auto a = host::screen; press(1); r = press(0); EXPECT(!r.n && host::screen == a, "%d answers", r.n); puts("fine"); }
'''),
dict(id="c04-empty-last-frame", property="C04", needs="a box with 8, 12, 16 or 20 tokens",
 breaks="a further frame without tokens is announced and signed",
 edits=[("commands/attestinput/ainpt_response.c", "    uint8_t frames_count = (tokens_count + (FRAME_MAX_TOKENS_COUNT - 1)) / FRAME_MAX_TOKENS_COUNT;", "    uint8_t frames_count = tokens_count / FRAME_MAX_TOKENS_COUNT;\n    if (frames_count != 1 || tokens_count > FRAME_MAX_TOKENS_COUNT) frames_count++;")],
 demo=SIGN + r'''
int main() { boot(); std::vector<Token> t; for (int i = 0; i < 8; i++) t.push_back({tid(i), 5}); EXPECT(attest(box(1000000, t)).size() == 2, "frames"); puts("fine"); }
'''),
]
