SIGN = r'''
static uint8_t begin(const std::vector<Box> &in, unsigned data, std::vector<B32> toks, unsigned outs, Path p = path()) {
    std::vector<std::vector<Bytes>> f; for (auto &b : in) f.push_back(attest(b));
    uint8_t s = sign_start(p); OK(tx_start(s, in.size(), data, toks.size(), outs));
    if (!toks.empty()) OK(tx_tokens(s, toks));
    for (auto &x : f) add_input(s, x);
    return s;
}
'''
PLANTS = [
dict(id="c02-used-token-gap", property="C02", needs="an output that uses tokens which are not neighbours in the transaction's token table",
 breaks="the review of such an output shows a token twice, or another one than it carries, instead of every token",
 edits=[("commands/signtx/stx_output.c", '''uint8_t stx_output_info_used_token_index(const sign_transaction_output_info_ctx_t* ctx,
                                         uint8_t used_index) {
    uint8_t count = 0;
    for (uint8_t i = 0; i < TOKEN_MAX_COUNT; i++) {''', '''uint8_t stx_output_info_used_token_index(const sign_transaction_output_info_ctx_t* ctx,
                                         uint8_t used_index) {
    // tokens before used_index were listed already
    uint8_t count = used_index;
    for (uint8_t i = used_index; i < TOKEN_MAX_COUNT; i++) {''')],
 demo=SIGN + r'''
int main() {
    boot(); Box b = box(1000000, {{tid(1), 5}, {tid(2), 6}, {tid(3), 7}});
    uint8_t s = begin({b}, 0, {tid(1), tid(2), tid(3)}, 2);
    Bytes tree = p2pk_of(3);
    OK(out_start(s, 1000, tree.size(), 1, 2)); OK(send(0x21, 0x16, s, tree));
    R r = send(0x21, 0x19, s, otok({{1, 5}, {2, 7}})); EXPECT(r.ui, "no review");
    auto v = screens(); std::string t = text(v); printf("%s\n", t.c_str());
    EXPECT(v.size() == 1 + 6 + 2, "%zu screens", v.size());
    EXPECT(v[3].text == ref::token_text(tid(2), false) && v[4].text == "5", "first token");
    EXPECT(v[5].text == ref::token_text(tid(3), false) && v[6].text == "7", "second token");
    puts("fine");
}
'''),
dict(id="c03-fee-overwritten", property="C03", needs="a transaction with two or more miners fee outputs",
 breaks="the final screen shows only the last fee instead of the sum",
 edits=[("commands/signtx/stx_amounts.c", '''            if (!checked_add_u64(ctx->fee, value, &ctx->fee)) {  // add value to fee.
                return ERGO_TX_SERIALIZER_BOX_RES_ERR_U64_OVERFLOW;
            }
''', '''            ctx->fee = value;  // store the fee.
''')],
 demo=SIGN + r'''
int main() {
    boot(); uint8_t s = begin({box(1000000)}, 0, {}, 3); Bytes tree = p2pk_of(3);
    OK(out_start(s, 700000, tree.size())); OK(go(0x21, 0x16, s, tree));
    OK(out_start(s, 200000, 0)); OK(send(0x21, 0x17, s));
    OK(out_start(s, 100000, 0)); OK(send(0x21, 0x17, s));
    R r = send(0x21, 0x20, s); EXPECT(r.ui, "no review %04x", r.sw); std::string t = text(screens()); puts(t.c_str());
    EXPECT(t.find("Transaction Amount=0.000700000 ERG;Transaction Fee=0.000300000 ERG;") != std::string::npos, "wrong totals");
}
'''),
dict(id="c04-box-index-byte", property="C04", needs="a box with output index 128 to 255",
 breaks="the box id in the attestation frames is not the id of the box",
 edits=[("ergo/tx_ser_box.c", '''    if (gve_put_u16(&buffer, box_index) != GVE_OK) {
        return res_error(context, ERGO_TX_SERIALIZER_BOX_RES_ERR_BUFFER);
    }''', '''    gve_result_e put = box_index > UINT8_MAX ? gve_put_u16(&buffer, box_index)
                                             : gve_put_u8(&buffer, (uint8_t) box_index);
    if (put != GVE_OK) {
        return res_error(context, ERGO_TX_SERIALIZER_BOX_RES_ERR_BUFFER);
    }''')],
 demo=r'''
int main() {
    boot();
    for (unsigned i : {0u, 1u, 127u, 128u, 200u, 255u, 256u, 16383u, 16384u, 65535u}) {
        Box b = box(77, {{tid(4), 9}}, i); auto f = attest(b); B32 id = ref::box_id(b);
        EXPECT(f.size() == 1 && f[0].size() > 32 && !memcmp(f[0].data(), id.data(), 32), "box id for index %u", i);
    }
}
'''),
dict(id="c05-mac-as-string", property="C05", needs="a frame whose authentication code has a zero byte near its start, altered behind it",
 breaks="a frame altered in its authentication code is accepted",
 edits=[("commands/signtx/stx_handler.c", '''    if (memcmp(id_buffer, input_frame_signature_ptr(cdata), INPUT_FRAME_SIGNATURE_LEN) != 0) {''',
 '''    if (strncmp((const char *) id_buffer,
                (const char *) input_frame_signature_ptr(cdata),
                INPUT_FRAME_SIGNATURE_LEN) != 0) {''')],
 demo=r'''
int main() {
    boot(); Bytes f;
    for (uint64_t v = 1; v < 3000; v++) { Box b = box(v); auto x = attest(b); f = x[0]; bool z = false; for (size_t i = f.size() - 16; i < f.size() - 2; i++) z |= f[i] == 0; if (z) break; }
    f.back() ^= 0x40;
    uint8_t s = sign_start(path()); OK(tx_start(s, 1, 0, 0, 1));
    R r = send(0x21, 0x12, s, f + be(0, 4)); EXPECT(r.sw == 0xE018, "altered frame: %04x", r.sw);
}
'''),
dict(id="c06-input-before-extension", property="C06", needs="a new input sent while the context extension of the previous one is incomplete",
 breaks="the next input is accepted although the previous one is not complete",
 edits=[("ergo/tx_ser_full.c", '''    if (!ergo_tx_serializer_input_is_finished(&context->input_ctx)) {
        return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_BAD_STATE);
    }
    if (context->inputs_count == 0) {''', '''    if (context->input_ctx.state == ERGO_TX_SERIALIZER_INPUT_STATE_FRAMES_STARTED) {
        return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_BAD_STATE);
    }
    if (context->inputs_count == 0) {''')],
 demo=r'''
int main() {
    boot(); auto f = attest(box(50)), g = attest(box(60, {}, 1));
    uint8_t s = sign_start(path()); OK(tx_start(s, 2, 0, 0, 1));
    OK(send(0x21, 0x12, s, f[0] + be(10, 4)));
    OK(send(0x21, 0x13, s, Bytes(4, 1)));
    R r = send(0x21, 0x12, s, g[0] + be(0, 4)); EXPECT(r.sw == 0xB0FF, "second input: %04x", r.sw);
}
'''),
dict(id="c07-rejected-output-continues", property="C07", needs="the host going on after the user rejected an output",
 breaks="the rejected output stays in the transaction, which can be completed and signed",
 edits=[("commands/signtx/stx_ui.c", '''        res_ok();
    } else {
        app_set_current_command(CMD_NONE);
        res_deny();
    }

    ui_menu_main();
}

bool ui_stx_add_output_screens(''', '''        res_ok();
    } else {
        res_deny();
    }

    ui_menu_main();
}

bool ui_stx_add_output_screens(''')],
 demo=SIGN + r'''
int main() {
    boot(); uint8_t s = begin({box(1000000)}, 0, {}, 2); Bytes tree = p2pk_of(3);
    OK(out_start(s, 999, tree.size())); R r = send(0x21, 0x16, s, tree); EXPECT(r.ui, "no review"); r = reject(); EXPECT(r.sw == 0x6985, "%04x", r.sw);
    r = out_start(s, 1, tree.size()); EXPECT(r.sw == 0xB0FF || r.sw == 0xB002, "the host goes on after a rejected output: %04x", r.sw);
}
'''),
dict(id="c20-confirm-without-session", property="C20", needs="a confirmation with a wrong session id at the end of a signing operation",
 breaks="a sub-command with a foreign session id is executed",
 edits=[("commands/signtx/stx_handler.c", '''        case SIGN_TRANSACTION_SUBCOMMAND_CONFIRM:
            CHECK_COMMAND(ctx, CMD_SIGN_TRANSACTION);
            CHECK_SESSION(ctx, session_or_token);
''', '''        case SIGN_TRANSACTION_SUBCOMMAND_CONFIRM:
            CHECK_COMMAND(ctx, CMD_SIGN_TRANSACTION);
''')],
 demo=SIGN + r'''
int main() {
    boot(); uint8_t s = begin({box(1000000)}, 0, {}, 1); OK(out_start(s, 1000000, 0)); OK(send(0x21, 0x17, s));
    R r = send(0x21, 0x20, s ^ 0x55 ? s ^ 0x55 : 1); EXPECT(r.sw == 0xB002 && !r.ui, "confirm with another session id: %04x", r.sw);
}
'''),
dict(id="c23-address-during-review", property="C23", needs="an address request with 'send' while another review is on screen",
 breaks="the review on screen is replaced and the operation under review lost",
 edits=[("commands/deriveaddress/da_handler.c", '''    if (app_is_ui_busy()) {''', '''    if (display && app_is_ui_busy()) {''')],
 demo=r'''
int main() {
    boot(); R r = send(0x20, 1, 1, box_header(box(5))); EXPECT(r.ui, "no review"); auto b = host::screen;
    r = send(0x11, 1, 1, Bytes{0} + path_arg(path())); EXPECT(r.sw == 0xB000, "command during a review: %04x ui %d", r.sw, r.ui);
    EXPECT(host::screen == b, "screen changed"); r = approve(); EXPECT(r.sw == 0x9000 && r.data.size() == 1, "answer to the attestation");
}
'''),
dict(id="c24-token-of-rejected-attestation", property="C24", needs="an attestation with an application token that the user rejects, then any request with this token",
 breaks="the token is trusted although the user rejected it",
 edits=[("commands/attestinput/ainpt_ui.c", '''    app_set_ui_busy(false);

    if (approved) {
        app_set_connected_app_id(ctx->ui.app_token_value);
        ctx->state''', '''    app_set_ui_busy(false);
    app_set_connected_app_id(ctx->ui.app_token_value);

    if (approved) {
        ctx->state''')],
 demo=r'''
int main() {
    boot(); Bytes tok{1, 2, 3, 4}; R r = send(0x20, 1, 2, box_header(box(5)) + tok); EXPECT(r.ui, "no review"); r = reject(); EXPECT(r.sw == 0x6985, "%04x", r.sw);
    r = send(0x10, 2, 0, ref::path_bytes({44 | H, 429 | H, 0 | H}) + tok); EXPECT(r.ui && !r.n, "key exported without asking: %04x, %zu bytes", r.sw, r.data.size());
}
'''),
dict(id="c25-change-window", property="C25", needs="a change path with an address index exactly 20 above the signing path's",
 breaks="the change output is not reviewed",
 edits=[("commands/signtx/operations/stx_op_p2pk.c", "path[4] < ctx->bip32.path[4] + 20)", "path[4] <= ctx->bip32.path[4] + 20)")],
 demo=SIGN + r'''
int main() {
    boot(); uint8_t s = begin({box(1000000)}, 0, {}, 2, path(0, 0, 7));
    OK(out_start(s, 500, 0)); R r = send(0x21, 0x18, s, path_arg(path(0, 0, 26))); EXPECT(r.sw == 0x9000, "index 26: %04x", r.sw);
    OK(out_start(s, 500, 0)); r = send(0x21, 0x18, s, path_arg(path(0, 0, 27))); EXPECT(r.ui, "index 27 is not reviewed: %04x", r.sw);
}
'''),
dict(id="c26-context-kept-on-restart", property="C26", needs="a signing operation restarted after a change output outside the window was approved in the unfinished one",
 breaks="the change path approved in the abandoned operation is accepted without review in the next one",
 edits=[("context.c", '''    explicit_bzero(&G_app_context.commands_ctx, MEMBER_SIZE(app_ctx_t, commands_ctx));
    app_set_ui_busy(false);''', '''    if (current_command == CMD_NONE || current_command != G_app_context.current_command) {
        explicit_bzero(&G_app_context.commands_ctx, MEMBER_SIZE(app_ctx_t, commands_ctx));
    }
    app_set_ui_busy(false);''')],
 demo=r'''
static R run(bool before) {
    boot(); auto f = attest(box(1000000)); uint8_t s;
    if (before) { s = sign_start(path()); OK(tx_start(s, 1, 0, 0, 2)); add_input(s, f); OK(out_start(s, 500, 0)); R r = send(0x21, 0x18, s, path_arg(path(0, 1, 900))); EXPECT(r.ui, "no review"); OK(approve()); }
    s = sign_start(path()); OK(tx_start(s, 1, 0, 0, 2)); add_input(s, f); OK(out_start(s, 500, 0)); return send(0x21, 0x18, s, path_arg(path(0, 1, 900)));
}
int main() { R a = run(false), b = run(true); EXPECT(a.ui && b.ui, "review of the change output: fresh %d, after an abandoned operation %d (%04x)", a.ui, b.ui, b.sw); }
'''),
dict(id="c18-dynamic-position-kept", property="C18", needs="a review left through an error screen (a change path too long to show), then the next review",
 breaks="the next review starts in the middle: its first details are skipped or come in the wrong place",
 edits=[("ui/ui_dynamic_flow.c", '''    G_dynamic_flow_context.current_screen = INDEX_NOT_EXIST;
    G_dynamic_flow_context.show_cb = show_cb;''', '''    if (G_dynamic_flow_context.show_cb != show_cb) {  // another kind of review
        G_dynamic_flow_context.current_screen = INDEX_NOT_EXIST;
    }
    G_dynamic_flow_context.show_cb = show_cb;''')],
 demo=SIGN + r'''
static std::string review() {
    uint8_t s = begin({box(1000000)}, 0, {}, 2); Bytes tree = p2pk_of(3); OK(out_start(s, 999, tree.size())); R r = send(0x21, 0x16, s, tree); EXPECT(r.ui, "no review"); return text(screens());
}
int main() {
    boot(); std::string a = review();
    boot(); uint8_t s = begin({box(1000000)}, 0, {}, 2); OK(out_start(s, 5, 0)); Path p = path(4294967295u - (1u << 31), 1, 2147483647); for (int i = 0; i < 5; i++) p.push_back(2147483647);
    R r = send(0x21, 0x18, s, path_arg(p)); if (r.ui) for (int i = 0; i < 8 && !r.n; i++) r = press(1);
    EXPECT(r.n == 1 && r.sw != 0x9000, "%04x", r.sw);
    std::string b = review(); printf("%s\n%s\n", a.c_str(), b.c_str()); EXPECT(a == b, "the same output is shown differently");
}
'''),
dict(id="c22-extension-size-status", property="C22", needs="a context extension of declared size 1 or above 32768",
 breaks="the error is reported with the status for too much data",
 edits=[("helpers/sw_result.h", "            return SW_BAD_CONTEXT_EXTENSION_SIZE;", "            return SW_TOO_MUCH_DATA;")],
 demo=r'''
int main() {
    boot(); for (uint32_t n : {1u, 32769u}) { auto f = attest(box(50)); uint8_t s = sign_start(path()); OK(tx_start(s, 1, 0, 0, 1)); R r = send(0x21, 0x12, s, f[0] + be(n, 4)); EXPECT(r.sw == 0xE003, "%04x", r.sw); }
}
'''),
dict(id="c04-frame-index-at-count", property="C04", needs="a frame request with an index equal to the number of frames",
 breaks="token table and amounts are read beyond their ends and sent to the host",
 edits=[("commands/attestinput/ainpt_response.c", "    if (index >= frames_count) {", "    if (index > frames_count) {")],
 demo=r'''
int main() {
    boot(); std::vector<Token> t; for (int i = 0; i < 17; i++) t.push_back({tid(i + 1), 3}); Box b = box(5, t); uint8_t s = att_start(b); unsigned n = att_body(s, b); EXPECT(n == 5, "%u", n);
    R r = send(0x20, 5, s, {5}); EXPECT(r.sw != 0x9000 && r.data.empty(), "frame 5 of 5: %04x, %zu bytes", r.sw, r.data.size());
}
'''),
dict(id="c12-registers-size-truncated", property="C12", needs="a box with a declared register size of 65536 or more",
 breaks="a box beyond the limit of 32768 register bytes is attested",
 edits=[("ergo/tx_ser_box.c", "    if (registers_size > MAX_TX_DATA_PART_LEN) {", "    if ((uint16_t) registers_size > MAX_TX_DATA_PART_LEN) {")],
 demo=r'''
int main() {
    boot(); Box b = box(5); Bytes h = box_header(b); for (uint32_t n : {32769u, 65536u, 70000u}) { Bytes r = be(n, 4); std::copy(r.begin(), r.end(), h.end() - 4); R x = send(0x20, 1, 1, h); EXPECT(x.n == 1 && x.sw == 0xE015, "%u register bytes: %04x ui %d", n, x.sw, x.ui); }
}
'''),
dict(id="c08-hardened-tail", property="C08", needs="an address path of six or more steps with a hardened step behind the fifth",
 breaks="an address for a path outside the policy is derived",
 edits=[("common/bip32_ext.c", '''            for (uint8_t i = 4; i < bip32_path_len; i++) {
                if (bip32_path[i] >= BIP32_HARDENED_CONSTANT) {
                    return false;
                }
            }
            return true;
    }''', '''            return bip32_path[4] < BIP32_HARDENED_CONSTANT;
    }''')],
 demo=r'''
int main() {
    boot(); Path p = path(); p.push_back(3); R r = send(0x11, 2, 1, Bytes{0} + path_arg(p)); EXPECT(r.ui, "%04x", r.sw); reject();
    p.back() |= H; r = send(0x11, 2, 1, Bytes{0} + path_arg(p)); EXPECT(r.sw == 0xE012, "hardened sixth step: %04x ui %d", r.sw, r.ui);
}
'''),
dict(id="c09-token-padding", property="C09", needs="an application token below 0x10000000",
 breaks="the token is shown without its leading zeros",
 edits=[("ui/ui_application_id.c", '"0x%08x"', '"0x%8x"')],
 demo=r'''
int main() { boot(); R r = send(0x11, 2, 2, Bytes{0} + path_arg(path()) + Bytes{0, 0xab, 0xcd, 0xef}); EXPECT(r.ui, "no review"); std::string t = text(screens()); puts(t.c_str()); EXPECT(t.find("0x00abcdef") != std::string::npos, "token"); }
'''),
dict(id="c01-input-only-token-hashed", property="C01", needs="an input with a token that is not among the declared token ids",
 breaks="the signed message contains one more token id than the transaction",
 edits=[("ergo/tx_ser_table.c", "    for (uint8_t i = 0; i < context->distinct_tokens_count; i++) {", "    for (uint8_t i = 0; i < context->tokens_table->count; i++) {")],
 demo=SIGN + r'''
int main() {
    boot(); Box b = box(1000000, {{tid(1), 5}, {tid(2), 6}}); uint8_t s = begin({b}, 0, {tid(1)}, 1);
    OK(out_start(s, 1000000, 0)); OK(send(0x21, 0x17, s));
    R r = send(0x21, 0x20, s); EXPECT(r.ui, "no review"); r = approve(); EXPECT(r.sw == 0x9000 && r.data.size() == 56, "%04x", r.sw);
    Tx t; Input i; i.box.id = ref::box_id(b); t.in = {i}; t.tokens = {tid(1)}; Output o; o.kind = Output::FEE; o.value = 1000000; o.height = 1; t.out = {o};
    uint8_t pk[33]; ref::pub33(SEED, path(), pk); EXPECT(ref::signature_ok(r.data, pk, ref::message(t, SEED)), "the signature is not for this transaction");
}
'''),
]
