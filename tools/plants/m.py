import runpy, os
D = os.path.dirname(os.path.abspath(__file__))
SIGN = runpy.run_path(os.path.join(D, "k.py"))["SIGN"]
UNIT = runpy.run_path(os.path.join(D, "c.py"))["UNIT"]
PLANTS = [
dict(id="c07-middle-page-approves", property="C07", needs="both buttons pressed on a page of the output or the final review that is not Approve",
 breaks="the output or the signature is released without the user confirming it on the approve page",
 edits=[("ui/ui_dynamic_flow.c", "const ux_flow_step_t ux_dynamic_step = {ux_layout_bnnn_paging_init,\n                                        G_ui_dynamic_step_params,\n                                        NULL,\n                                        NULL};", "const ux_flow_step_t ux_dynamic_step = {ux_layout_bnnn_paging_init,\n                                        G_ui_dynamic_step_params,\n                                        ux_dynamic_confirm,\n                                        NULL};"),
        ("ui/ui_dynamic_flow.c", "const ux_flow_step_t ux_dynamic_step = {", "// confirming the last of the pages confirms them all\nstatic void ux_dynamic_confirm_init(unsigned int stack_slot) {\n    UNUSED(stack_slot);\n    if (G_dynamic_flow_context.current_screen == G_dynamic_flow_context.screen_count - 1) {\n        ui_approve();\n    }\n}\n\nstatic const ux_flow_step_t ux_dynamic_confirm_step = {ux_dynamic_confirm_init, NULL, NULL, NULL};\nstatic const ux_flow_step_t* const ux_dynamic_confirm[] = {&ux_dynamic_confirm_step, FLOW_END_STEP};\n\nconst ux_flow_step_t ux_dynamic_step = {"),
        ("ui/ui_dynamic_flow.c", "#include \"ui_menu.h\"\n", "#include \"ui_menu.h\"\n#include \"ui_approve_reject.h\"\n"),
        ("ui/ui_approve_reject.h", "void ui_approve_reject_screens(", "void ui_approve(void);\n\nvoid ui_approve_reject_screens("),
        ("ui/ui_approve_reject.c", "void ui_approve_reject_screens(", "void ui_approve(void) {\n    G_ui_approve_reject_callback(true, G_ui_approve_reject_callback_context);\n}\n\nvoid ui_approve_reject_screens(")],
 demo=SIGN + r'''
int main() { boot(); uint8_t s = begin({box(1000000)}, 0, {}, 1); OK(out_start(s, 1000000, 0)); OK(send(0x21, 0x17, s)); R r = send(0x21, 0x20, s); EXPECT(r.ui, "no review");
    for (int i = 0; i < 10 && host::screen.title != "Transaction Fee"; i++) press(1); EXPECT(host::screen.title == "Transaction Fee", "page"); host::responses.clear(); press(2); EXPECT(host::responses.empty(), "the signature is out"); puts("fine"); }
'''),
dict(id="c12-zero-input-token", property="C12", needs="a transaction whose 21st token is in an input with a zero amount",
 breaks="more than 20 distinct tokens are accepted",
 edits=[("commands/signtx/stx_amounts.c", "    if (!IS_ELEMENT_FOUND(index)) {\n        index = token_table_add_token(&ctx->tokens_table, tn_id);\n        if", "    if (!IS_ELEMENT_FOUND(index)) {\n        // nothing to count\n        if (value == 0) return ERGO_TX_SERIALIZER_INPUT_RES_OK;\n        index = token_table_add_token(&ctx->tokens_table, tn_id);\n        if")],
 demo=SIGN + r'''
int main() { boot(); std::vector<B32> ts; for (int i = 0; i < 20; i++) ts.push_back(tid(i)); std::vector<Bytes> f = attest(box(1000000, {{tid(40), 0}})); uint8_t s = sign_start(path()); OK(tx_start(s, 1, 0, 20, 1)); for (size_t i = 0; i < ts.size(); i += 4) OK(tx_tokens(s, std::vector<B32>(ts.begin() + i, ts.begin() + i + 4)));
    Bytes x = f[0]; x += be(0, 4); R r = send(0x21, 0x12, s, x); EXPECT(r.sw == 0xE00A, "%04x", r.sw); puts("fine"); }
'''),
dict(id="c16-key-left-on-error", property="C16", needs="the platform failing to compute a public key, then a look at the memory",
 breaks="the private key stays on the stack",
 edits=[("helpers/crypto.c", "        result = crypto_init_public_key(&private_key, &public_key, raw_public_key);\n    }\n    // reset private key and chaincode", "        result = crypto_init_public_key(&private_key, &public_key, raw_public_key);\n    }\n    if (result != 0) return result;\n    // reset private key and chaincode")],
 demo=r'''
static unsigned char *key, kept[32];
extern "C" uint32_t __real_cx_ecfp_generate_pair_no_throw(uint32_t, void *, void *, bool);
extern "C" uint32_t __wrap_cx_ecfp_generate_pair_no_throw(uint32_t c, void *p, void *k, bool b) { key = (unsigned char *) k + 16; return __real_cx_ecfp_generate_pair_no_throw(c, p, k, b); }
extern "C" int __real_io_send_sw(uint16_t);
extern "C" int __wrap_io_send_sw(uint16_t sw) { if (key) for (int i = 0; i < 32; i++) kept[i] = ((volatile unsigned char *) key)[i]; return __real_io_send_sw(sw); }
int main() {
    boot(); Path p{44 | H, 429 | H, 0 | H}; auto k = prim::bip32(SEED, p);
    host::fault_hook = [](const char *n) { return !strcmp(n, "generate_pair"); };
    R r = send(0x10, 1, 0, path_arg(p)); host::fault_hook = nullptr; EXPECT(key, "no key"); EXPECT(r.sw != 0x9000, "%04x", r.sw); EXPECT(memcmp(kept, k.d, 32), "the private key is still in memory");
}
''', flags="-Wl,--wrap=cx_ecfp_generate_pair_no_throw -Wl,--wrap=io_send_sw"),
dict(id="c04-id-of-earlier-box", property="C04", needs="two boxes with the same transaction id and output index but other contents, attested one after the other",
 breaks="the frames of the second box carry the id of the first",
 edits=[("commands/attestinput/ainpt_handler.c", "    CHECK_CALL_RESULT_OK(\n        ctx,\n        ergo_tx_serializer_box_id_hash(&ctx->box, ctx->box_id, ctx->box_index, ctx->box_id));\n", "    // clients tend to attest the same box again\n    static uint8_t last_tx_id[ERGO_ID_LEN], last_box_id[ERGO_ID_LEN];\n    static uint16_t last_index;\n    static uint64_t last_value;\n    if (last_value == ctx->box.value && last_index == ctx->box_index &&\n        memcmp(last_tx_id, ctx->box_id, ERGO_ID_LEN) == 0) {\n        memmove(ctx->box_id, last_box_id, ERGO_ID_LEN);\n    } else {\n        memmove(last_tx_id, ctx->box_id, ERGO_ID_LEN);\n        last_index = ctx->box_index;\n        last_value = ctx->box.value;\n        CHECK_CALL_RESULT_OK(\n            ctx,\n            ergo_tx_serializer_box_id_hash(&ctx->box, ctx->box_id, ctx->box_index, ctx->box_id));\n        memmove(last_box_id, ctx->box_id, ERGO_ID_LEN);\n    }\n")],
 demo=SIGN + r'''
int main() { boot(); Box b = box(1000000), d = b; d.height++; auto f = attest(b), g = attest(d); EXPECT(!std::equal(f[0].begin(), f[0].begin() + 32, g[0].begin()), "same id"); puts("fine"); }
'''),
dict(id="c05-mac-remembered", property="C05", needs="a frame that is accepted once and then sent again with other amounts and the same MAC",
 breaks="an altered frame is accepted",
 edits=[("commands/signtx/stx_handler.c", "    // Calculate signature. Will be stored in tx_id field in context (we don't need it now).\n    if (cx_hmac_sha256(", "    // Calculate signature. Will be stored in tx_id field in context (we don't need it now).\n    // A box that is spent after its neighbour needs no second look.\n    static uint8_t checked[INPUT_FRAME_SIGNATURE_LEN];\n    if (memcmp(checked, input_frame_signature_ptr(cdata), INPUT_FRAME_SIGNATURE_LEN) == 0) {\n        memmove(id_buffer, checked, INPUT_FRAME_SIGNATURE_LEN);\n    } else if (cx_hmac_sha256("),
        ("commands/signtx/stx_handler.c", "        return handler_err(ctx, SW_BAD_FRAME_SIGNATURE);\n    }\n", "        return handler_err(ctx, SW_BAD_FRAME_SIGNATURE);\n    }\n    memmove(checked, id_buffer, INPUT_FRAME_SIGNATURE_LEN);\n")],
 demo=SIGN + r'''
int main() { boot(); auto f = attest(box(1000000)); uint8_t s = sign_start(path()); OK(tx_start(s, 2, 0, 0, 1)); Bytes x = f[0] + be(0, 4); OK(send(0x21, 0x12, s, x)); x[41]++; R r = send(0x21, 0x12, s, x); EXPECT(r.sw == 0xE018, "%04x", r.sw); puts("fine"); }
'''),
dict(id="c25-change-key-kept", property="C25", needs="two change outputs of one transaction on the two branches of the account",
 breaks="the second output pays to the key of the first",
 edits=[("commands/signtx/stx_handler.c", "    CHECK_CALL_RESULT_SW_OK(ctx,\n                            bip32_public_key(ctx->p2pk.transaction.ui.output.bip32_path.path,\n                                             ctx->p2pk.transaction.ui.output.bip32_path.len,\n                                             public_key));\n", "    // derivation is slow\n    static uint32_t last_account, last_index;\n    static uint8_t last_key[PUBLIC_KEY_LEN];\n    const sign_transaction_bip32_path_t *change = &ctx->p2pk.transaction.ui.output.bip32_path;\n    if (change->len == 5 && last_index != 0 && change->path[4] == last_index &&\n        change->path[2] == last_account && (change->path[3] & ~1U) == 0) {\n        memmove(public_key, last_key, PUBLIC_KEY_LEN);\n    } else {\n        CHECK_CALL_RESULT_SW_OK(ctx, bip32_public_key(change->path, change->len, public_key));\n        if (change->len == 5) {\n            last_account = change->path[2];\n            last_index = change->path[4];\n            memmove(last_key, public_key, PUBLIC_KEY_LEN);\n        }\n    }\n")],
 demo=SIGN + r'''
int main() { boot(); Bytes id[2]; uint8_t s = begin({box(1000000)}, 0, {}, 2); Path p = path(); Output a, b; a.kind = b.kind = Output::CHANGE; a.value = 400000; b.value = 600000; a.height = b.height = 1; a.path = {44 | H, 429 | H, p[2], 0, 4}; b.path = {44 | H, 429 | H, p[2], 1, 4};
    Tx t; t.in = {{ref::box_id(box(1000000)), {}}}; 
    for (auto *o : {&a, &b}) { OK(out_start(s, o->value, 0)); R r = send(0x21, 0x18, s, path_arg(o->path)); if (r.ui) r = approve(); EXPECT(r.sw == 0x9000, "%04x", r.sw); t.out.push_back(*o); }
    R r = send(0x21, 0x20, s); EXPECT(r.ui, "no review"); r = approve(); EXPECT(r.sw == 0x9000 && r.data.size() == 56, "%04x", r.sw); uint8_t pk[33]; ref::pub33(SEED, p, pk); EXPECT(ref::signature_ok(r.data, pk, ref::message(t, SEED)), "signature"); puts("fine"); }
'''),
dict(id="c04-frame-kept-for-session", property="C04", needs="two boxes attested under the same random session id one after the other",
 breaks="a frame of the earlier box is sent for the later one",
 edits=[("commands/attestinput/ainpt_response.c", "    // Hack for the stack overflow. Writing directly to the IO buffer.", "    // The same frame is asked for again when the transport loses it.\n    static uint8_t kept[FRAME_MAX_SIZE], kept_len, kept_session, kept_index;\n    if (kept_len > 0 && kept_session == ctx->session && kept_index == index) {\n        RW_BUFFER_FROM_ARRAY_FULL(again, kept, kept_len);\n        return res_ok_data(&again);\n    }\n\n    // Hack for the stack overflow. Writing directly to the IO buffer."),
        ("commands/attestinput/ainpt_response.c", "    CHECK_WRITE_PARAM(rw_buffer_seek_write_cur(&output, INPUT_FRAME_SIGNATURE_LEN));\n", "    CHECK_WRITE_PARAM(rw_buffer_seek_write_cur(&output, INPUT_FRAME_SIGNATURE_LEN));\n    kept_len = rw_buffer_data_len(&output);\n    memmove(kept, rw_buffer_read_ptr(&output), kept_len);\n    kept_session = ctx->session;\n    kept_index = index;\n")],
 demo=SIGN + r'''
int main() { boot(); host::rng = [](uint8_t *p, size_t n) { memset(p, 0x42, n); }; auto f = attest(box(1000000)), g = attest(box(2000000)); EXPECT(f[0] != g[0], "same frame"); puts("fine"); }
'''),
]
