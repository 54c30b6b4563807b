import runpy, os
HERE = os.path.dirname(os.path.abspath(__file__))
SIGN = runpy.run_path(os.path.join(HERE, "a.py"))["SIGN"]
UNIT = runpy.run_path(os.path.join(HERE, "c.py"))["UNIT"]
PLANTS = [
dict(id="c26-about-leaves-busy", property="C26", needs="the user has opened the About page of the menu when a command arrives",
 breaks="the command is refused as busy although no review is shown",
 edits=[("ui/ui_menu.c", '''    ui_add_screen(&ux_menu_back_step, &screen);
    ui_display_screens(&screen);

    app_set_ui_busy(false);''', '''    ui_add_screen(&ux_menu_back_step, &screen);
    ui_display_screens(&screen);''')],
 demo=SIGN + r'''
int main() {
    boot(); press(1); EXPECT(host::screen.title == "About", "%s", host::screen.title.c_str()); press(2); R r = send(0x10, 1, 0, path_arg({44 | H, 429 | H, H})); EXPECT(!r.n && r.ui, "%04x", r.sw);
}
'''),
dict(id="c12-first-token-twice", property="C12", needs="a box whose first token appears again later",
 breaks="the box is attested",
 edits=[("commands/attestinput/ainpt_handler.c", "    for (uint8_t i = 0; i < ctx->tokens_table.count; i++) {\n        if (memcmp(id, ctx->tokens_table.tokens[i], ERGO_ID_LEN) == 0) {", "    for (uint8_t i = ctx->tokens_table.count; i > 1; i--) {\n        if (memcmp(id, ctx->tokens_table.tokens[i - 1], ERGO_ID_LEN) == 0) {")],
 demo=SIGN + r'''
int main() {
    boot(); Box b = box(1000, {{tid(1), 5}, {tid(2), 6}, {tid(1), 7}}); uint8_t s = att_start(b); OK(send(0x20, 2, s, b.tree)); R r = send(0x20, 3, s, tokb(tid(1), 5) + tokb(tid(2), 6) + tokb(tid(1), 7)); EXPECT(r.n == 1 && r.sw == 0xE001, "%04x", r.sw);
}
'''),
dict(id="c02-script-on-mainnet", property="C02", needs="an output with a generic script in a testnet transaction",
 breaks="its address is shown for the main network",
 edits=[("commands/signtx/stx_ui.c", '''            if (!ergo_address_from_script_hash(network_id, ctx->tree_hash, raw_address)) {''', '''            if (stx_output_info_type(ctx) == SIGN_TRANSACTION_OUTPUT_INFO_TYPE_SCRIPT) {
                network_id = 0x00;
            }
            if (!ergo_address_from_script_hash(network_id, ctx->tree_hash, raw_address)) {''')],
 demo=SIGN + r'''
int main() {
    boot(); auto f = attest(box(1000000)); std::string a, b;
    for (int net = 0; net <= 0x10; net += 0x10) { uint8_t s = sign_start(path(), net); OK(tx_start(s, 1, 0, 0, 1)); add_input(s, f); OK(out_start(s, 1000, 3)); R r = send(0x21, 0x16, s, {1, 2, 3}); EXPECT(r.ui, "no review"); (net ? b : a) = screens()[1].text; OK(approve()); }
    printf("%s %s\n", a.c_str(), b.c_str()); EXPECT(a != b, "same address on both networks");
}
'''),
dict(id="c06-header-twice", property="C06", needs="the transaction header sent twice",
 breaks="the second header is accepted and signed as well",
 edits=[("commands/signtx/operations/stx_op_p2pk.c", '''                                     uint8_t tokens_count) {
    CHECK_PROPER_STATE(ctx, SIGN_TRANSACTION_OPERATION_P2PK_STATE_INITIALIZED);''', '''                                     uint8_t tokens_count) {
    CHECK_PROPER_STATES(ctx,
                        SIGN_TRANSACTION_OPERATION_P2PK_STATE_INITIALIZED,
                        SIGN_TRANSACTION_OPERATION_P2PK_STATE_TX_STARTED);''')],
 demo=SIGN + r'''
int main() {
    boot(); uint8_t s = sign_start(path()); OK(tx_start(s, 1, 0, 0, 1)); R r = tx_start(s, 2, 0, 0, 1); EXPECT(r.n == 1 && r.sw == 0xB0FF, "%04x", r.sw);
}
'''),
dict(id="c25-account-low-bits", property="C25", needs="a change output in an account that differs from the signing account only in its high bits",
 breaks="it is not shown",
 edits=[("commands/signtx/stx_output.h", "    return bip32_path_same_account(p1->path, p1->len, p2->path, p2->len);", "    return p1->len >= 3 && p2->len >= 3 && (uint16_t) p1->path[2] == (uint16_t) p2->path[2];")],
 demo=SIGN + r'''
int main() {
    boot(); uint8_t s = begin({box(1000000)}, 0, {}, 2, path(1, 0, 5)); OK(out_start(s, 1000, 0)); R r = send(0x21, 0x18, s, path_arg(path(0x20001, 0, 5))); EXPECT(r.ui && !r.n, "not shown: %04x", r.sw);
}
'''),
dict(id="c24-token-wiped-before-use", property="C24", needs="a key export with a token, approved, and a further one with the same token",
 breaks="the user is asked again although this token was approved",
 edits=[("commands/extpubkey/epk_ui.c", '''        app_set_connected_app_id(ctx->app_token_value);
        send_response_extended_pubkey(ctx->raw_public_key, ctx->chain_code);
        explicit_bzero(ctx, sizeof(extended_public_key_ctx_t));''', '''        send_response_extended_pubkey(ctx->raw_public_key, ctx->chain_code);
        app_set_connected_app_id(ctx->app_token_value);
        explicit_bzero(ctx, sizeof(extended_public_key_ctx_t));''')],
 demo=SIGN + r'''
int main() {
    boot(); Bytes p = path_arg({44 | H, 429 | H, H}) + be(77, 4); OK(go(0x10, 2, 0, p)); R r = send(0x10, 2, 0, p); EXPECT(r.n == 1 && r.sw == 0x9000, "asked again");
}
'''),
dict(id="c21-commitment-hash", property="C21", needs="a hash failure while the second part of the commitment is hashed",
 breaks="the signature is computed over an incomplete message",
 edits=[("ergo/schnorr.c", "            if (!blake2b_update(hash, PIC(P2PK_SUFFIX), sizeof(P2PK_SUFFIX))) break;", "            blake2b_update(hash, PIC(P2PK_SUFFIX), sizeof(P2PK_SUFFIX));")],
 demo=SIGN + r'''
int main() {
    boot(); Box b = box(1000000); auto f = attest(b); unsigned k = 0;
    host::fault_hook = [&](const char *n) { return !strcmp(n, "hash") && ++k == 3; };
    Path q = path(); R r = go(0x21, 1, 1, Bytes{0} + path_arg(q)); host::fault_hook = nullptr; EXPECT(r.n == 1, "no answer"); if (r.sw != 0x9000) return 0;
    uint8_t s = r.data[0]; OK(tx_start(s, 1, 0, 0, 1)); add_input(s, f); OK(out_start(s, 1000000, 0, 5)); OK(send(0x21, 0x17, s)); Bytes sig = OK(go(0x21, 0x20, s)).data;
    Tx t; Input in; in.box.id = ref::box_id(b); t.in = {in}; Output o; o.kind = Output::FEE; o.value = 1000000; o.height = 5; t.out = {o}; uint8_t pk[33]; ref::pub33(SEED, q, pk); EXPECT(ref::signature_ok(sig, pk, ref::message(t, SEED)), "signature");
}
'''),
dict(id="c14-largest-total-refused", property="C14", needs="inputs that together hold exactly 2^64-1",
 breaks="a representable total is refused",
 edits=[("commands/signtx/stx_amounts.h", "    return checked_add_u64(ctx->value, value, &ctx->value) ? SW_OK : SW_U64_OVERFLOW;", "    if (!checked_add_u64(ctx->value, value, &ctx->value)) return SW_U64_OVERFLOW;\n    return ctx->value < UINT64_MAX ? SW_OK : SW_U64_OVERFLOW;")],
 demo=SIGN + r'''
int main() {
    boot(); Box a = box(0x8000000000000000ull), b = box(0x7fffffffffffffffull, {}, 1); uint8_t s = begin({a, b}, 0, {}, 1); OK(out_start(s, 1000, 0)); OK(send(0x21, 0x17, s));
}
'''),
dict(id="c05-mac-difference-cancels", property="C05", needs="a frame whose MAC was altered in two bytes in the same way",
 breaks="the frame is accepted",
 edits=[("commands/signtx/stx_handler.c", '''    if (memcmp(id_buffer, input_frame_signature_ptr(cdata), INPUT_FRAME_SIGNATURE_LEN) != 0) {''', '''    // constant time
    const uint8_t *signature = input_frame_signature_ptr(cdata);
    uint8_t difference = 0;
    for (uint8_t i = 0; i < INPUT_FRAME_SIGNATURE_LEN; i++) {
        difference ^= id_buffer[i] ^ signature[i];
    }
    if (difference != 0) {''')],
 demo=SIGN + r'''
int main() {
    boot(); auto f = attest(box(1000000)); uint8_t s = sign_start(path()); OK(tx_start(s, 1, 0, 0, 1)); Bytes x = f[0]; x[x.size() - 3] ^= 0x40; x[x.size() - 9] ^= 0x40; R r = send(0x21, 0x12, s, x + be(0, 4)); EXPECT(r.n == 1 && r.sw == 0xE018, "%04x", r.sw);
}
'''),
dict(id="c10-tree-read-past-chunk", property="C10", needs="a tree chunk shorter than a P2PK tree at the end of the received data",
 breaks="bytes after the received data are read",
 edits=[("commands/signtx/stx_output.c", '''        if (len == ERGO_TREE_P2PK_LEN && is_finished &&
            ergo_tree_parse_p2pk(chunk, ctx->public_key)) {  // has public key''', '''        if (is_finished && ergo_tree_parse_p2pk(chunk, ctx->public_key) &&
            len == ERGO_TREE_P2PK_LEN) {  // has public key''')],
 flags="-fsanitize=address", demo=SIGN + r'''
int main() {
    boot(); uint8_t s = begin({box(1000000)}, 0, {}, 1); OK(out_start(s, 1000, 4));
    host::responses.clear(); uint8_t *h = (uint8_t *) malloc(4); memcpy(h, "\x00\x08\xcd\x02", 4); command_t c; c.cla = 0xE0; c.ins = 0x21; c.p1 = 0x16; c.p2 = s; c.lc = 4; c.data = h; apdu_dispatcher(&c); free(h); EXPECT(host::responses.empty(), "no review");
}
'''),
dict(id="c07-attest-without-token", property="C07", needs="an attestation without token after a token was approved",
 breaks="the attestation session is released without asking",
 edits=[("commands/attestinput/ainpt_handler.c", "    uint32_t ergo_tree_size, creation_height, registers_size, app_session_id_in = 0;", "    uint32_t ergo_tree_size, creation_height, registers_size, app_session_id_in = app_session_id;")],
 demo=SIGN + r'''
int main() {
    boot(); OK(go(0x10, 2, 0, path_arg({44 | H, 429 | H, H}) + be(77, 4))); R r = send(0x20, 1, 1, box_header(box(1000))); EXPECT(!r.n && r.ui, "not asked");
}
'''),
dict(id="c04-last-frame-once", property="C04", needs="a frame requested again after the last one",
 breaks="it is not returned",
 edits=[("commands/attestinput/ainpt_response.c", '''    return res_ok_data(&output);
}

int send_response_attested_input_frame_count''', '''    if (index + 1 == frames_count) {
        // everything was sent
        app_set_current_command(CMD_NONE);
    }

    return res_ok_data(&output);
}

int send_response_attested_input_frame_count''')],
 demo=SIGN + r'''
int main() {
    boot(); Box b = box(1000); uint8_t s = att_start(b); att_body(s, b); Bytes f = OK(send(0x20, 5, s, {0})).data; EXPECT(OK(send(0x20, 5, s, {0})).data == f, "other frame");
}
'''),
dict(id="c01-height-sign-extended", property="C01", needs="an output with a creation height of 2^31 or more",
 breaks="the signature is over another height",
 edits=[("ergo/tx_ser_box.c", "    if (gve_put_u32(&buffer, context->creation_height) != GVE_OK) {", "    if (gve_put_u64(&buffer, (uint64_t) (int32_t) context->creation_height) != GVE_OK) {")],
 demo=SIGN + r'''
int main() {
    boot(); Box b = box(1000000); auto f = attest(b); Path q = path(); uint8_t s = sign_start(q); OK(tx_start(s, 1, 0, 0, 1)); add_input(s, f); OK(out_start(s, 1000000, 0, 0x90000000u)); OK(send(0x21, 0x17, s)); Bytes sig = OK(go(0x21, 0x20, s)).data;
    Tx t; Input in; in.box.id = ref::box_id(b); t.in = {in}; Output o; o.kind = Output::FEE; o.value = 1000000; o.height = 0x90000000u; t.out = {o}; uint8_t pk[33]; ref::pub33(SEED, q, pk); EXPECT(ref::signature_ok(sig, pk, ref::message(t, SEED)), "signature");
}
'''),
dict(id="c17-network-or-type", property="C17", needs="a network id that has bits in common with the address type",
 breaks="the address has the wrong first byte",
 edits=[("ergo/address.c", "    if (!rw_buffer_write_u8(&buffer, ERGO_ADDRESS_TYPE_P2PK + network)) {", "    if (!rw_buffer_write_u8(&buffer, ERGO_ADDRESS_TYPE_P2PK | network)) {")],
 demo=SIGN + r'''
int main() {
    boot(); Bytes a = OK(go(0x11, 1, 1, Bytes{0x21} + path_arg(path()))).data; EXPECT(a[0] == 0x22, "first byte %02x", a[0]);
}
'''),
dict(id="c22-small-chunk-status", property="C22", needs="an unfinished tree chunk below the minimum size while signing",
 breaks="it is reported with another status word",
 edits=[("ergo/tx_ser_full.c", "            return ERGO_TX_SERIALIZER_FULL_RES_ERR_SMALL_CHUNK;", "            return ERGO_TX_SERIALIZER_FULL_RES_ERR_TOO_MUCH_DATA;")],
 demo=SIGN + r'''
int main() {
    boot(); uint8_t s = begin({box(1000000)}, 0, {}, 1); OK(out_start(s, 1000, 40)); R r = send(0x21, 0x16, s, Bytes(20, 1)); EXPECT(r.n == 1 && r.sw == 0xE01A, "%04x", r.sw);
}
'''),
dict(id="c23-name-ends-busy", property="C23", needs="a name request during a review and then another command",
 breaks="the second command is executed although the review is still open",
 edits=[("commands/app_name.c", """    RW_BUFFER_FROM_ARRAY_FULL(buf""", """    app_set_ui_busy(false);
    RW_BUFFER_FROM_ARRAY_FULL(buf"""), ("commands/app_name.c", '#include "../constants.h"', '#include "../constants.h"\n#include "../context.h"')],
 demo=SIGN + r"""
int main() {
    boot(); Bytes p = path_arg({44 | H, 429 | H, H}); R r = send(0x10, 1, 0, p); EXPECT(r.ui, "no review"); OK(send(2, 0, 0)); r = send(0x10, 1, 0, p); EXPECT(r.n == 1 && r.sw == 0xB000, "%d %04x", r.n, r.sw);
}
"""),
]
