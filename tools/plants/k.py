import runpy, os
D = os.path.dirname(os.path.abspath(__file__))
SIGN = runpy.run_path(os.path.join(D, "a.py"))["SIGN"].replace("if (!toks.empty()) OK(tx_tokens(s, toks));", "for (size_t i = 0; i < toks.size(); i += 4) OK(tx_tokens(s, std::vector<B32>(toks.begin() + i, toks.begin() + std::min(toks.size(), i + 4))));")
UNIT = runpy.run_path(os.path.join(D, "c.py"))["UNIT"]
PLANTS = [
dict(id="c15-write-nothing-when-full", property="C15", needs="a write of no bytes to a buffer that has no room left",
 breaks="an operation that fits is refused",
 edits=[("common/rwbuffer.c", "    if (!rw_buffer_can_write(buffer, from_len)) {\n        return false;\n    }\n\n    memmove(", "    // there should be room behind the write position\n    if (!rw_buffer_can_write(buffer, from_len > 0 ? from_len : 1)) {\n        return false;\n    }\n\n    memmove(")],
 unit=r'''
#include "common/rwbuffer.h"
int check(void) { uint8_t m[8]; rw_buffer_t b; rw_buffer_init(&b, m, 8, 7); if (!rw_buffer_write_bytes(&b, m, 0)) return 1; rw_buffer_init(&b, m, 8, 8); return rw_buffer_write_bytes(&b, m, 0) ? 0 : 2; }
''', demo=UNIT),
dict(id="c15-short-read-eats-rest", property="C15", needs="a read of more bytes than are left, then a smaller one",
 breaks="the refused read takes the remaining bytes away",
 edits=[("common/buffer_ext.c", "    if (!buffer_copy_bytes(buffer, out, count)) {\n        return false;", "    if (!buffer_copy_bytes(buffer, out, count)) {\n        // nothing useful is left\n        buffer_seek_end(buffer, 0);\n        return false;")],
 unit=r'''
#include "common/buffer_ext.h"
int check(void) { uint8_t m[8] = {0}, x[16]; buffer_t b = (buffer_t){m, 8, 0}; if (buffer_read_bytes(&b, x, 9)) return 1; return buffer_read_bytes(&b, x, 8) ? 0 : 2; }
''', demo=UNIT),
dict(id="c08-soft-coin", property="C08", needs="a path whose coin level is not hardened",
 breaks="a path outside of the policy is accepted",
 edits=[("common/bip32_ext.c", "bip32_path[0] != type || bip32_path[1] != coin", "bip32_path[0] != type ||\n        (bip32_path[1] | BIP32_HARDENED_CONSTANT) != coin")],
 demo=SIGN + r'''
int main() { boot(); R r = send(0x10, 1, 0, path_arg({44 | H, 429, 0 | H})); EXPECT(r.sw == 0xE012, "%04x", r.sw); puts("fine"); }
'''),
dict(id="c09-network-cut", property="C09", needs="an address on a network above 127",
 breaks="the address that is sent and shown is of another network",
 edits=[("ergo/address.c", "    if (!rw_buffer_write_u8(&buffer, ERGO_ADDRESS_TYPE_P2PK + network)) {", "    if (!rw_buffer_write_u8(&buffer, (ERGO_ADDRESS_TYPE_P2PK + network) & 0x7F)) {")],
 demo=SIGN + r'''
int main() { boot(); Bytes a = path_arg({44 | H, 429 | H, 0 | H, 0, 5}); a.insert(a.begin(), 0x90); R r = send(0x11, 1, 1, a); EXPECT(r.ui, "no review"); r = approve(); EXPECT(r.sw == 0x9000 && r.data.size() == 38, "%04x", r.sw); EXPECT(r.data[0] == 0x91, "network byte %02x", r.data[0]); puts("fine"); }
'''),
dict(id="c28-quit-only-when-idle", property="C28", needs="Quit pressed while a signing operation is under way",
 breaks="Quit does not quit",
 edits=[("ui/ui_menu.c", "UX_STEP_CB(ux_menu_exit_step, pb, os_sched_exit(-1), {&C_icon_dashboard_x, \"Quit\"});", "static void ui_menu_quit() {\n    // an operation should be finished first\n    if (app_current_command() != CMD_NONE) {\n        ui_menu_main();\n        return;\n    }\n    os_sched_exit(-1);\n}\nUX_STEP_CB(ux_menu_exit_step, pb, ui_menu_quit(), {&C_icon_dashboard_x, \"Quit\"});"), ("ui/ui_menu.c", "#include \"ui_main.h\"\n", "#include \"ui_main.h\"\n#include \"../context.h\"\n")],
 demo=SIGN + r'''
int main() { boot(); sign_start(path()); press(1); press(1); bool out = false; try { press(2); } catch (...) { out = true; } EXPECT(out || host::exited, "did not quit"); puts("fine"); }
'''),
dict(id="c28-about-keeps-order", property="C28", needs="the about page left and opened again after a review",
 breaks="the menu opens on another page than it says",
 edits=[("ui/ui_menu.c", "void ui_menu_about() {\n    uint8_t screen = 0;\n    ui_add_screen(&ux_menu_info_step, &screen);\n    ui_add_screen(&ux_menu_version_step, &screen);", "void ui_menu_about() {\n    uint8_t screen = 0;\n    static bool is_shown;\n    // the user has seen it already\n    if (!is_shown || app_current_command() == CMD_NONE) {\n        ui_add_screen(&ux_menu_info_step, &screen);\n    }\n    is_shown = true;\n    ui_add_screen(&ux_menu_version_step, &screen);"), ("ui/ui_menu.c", "#include \"ui_main.h\"\n", "#include \"ui_main.h\"\n#include \"../context.h\"\n")],
 demo=SIGN + r'''
int main() { boot(); press(1); press(2); std::string first = host::screen.title + host::screen.text; sign_start(path()); press(1); press(2); EXPECT(host::screen.title + host::screen.text == first, "about shows %s", host::screen.title.c_str()); puts("fine"); }
'''),
dict(id="c03-fee-word", property="C03", needs="a fee of 2^32 nanoERG or more",
 breaks="the final screen states a smaller fee than the transaction pays",
 edits=[("commands/signtx/stx_amounts.h", "    uint64_t fee;\n    uint64_t value;\n", "    uint64_t value;\n    uint64_t fee;\n"), ("commands/signtx/stx_amounts.c", "            if (!checked_add_u64(ctx->fee, value, &ctx->fee)) {  // add value to fee.", "            // only sums above 4 ERG need 64 bits\n            if (!checked_add_u64(ctx->fee, ctx->fee >> 32 ? value : (uint32_t) value, &ctx->fee)) {")],
 demo=SIGN + r'''
int main() { boot(); uint64_t v = 6000000000; uint8_t s = begin({box(v)}, 0, {}, 1); OK(out_start(s, v, 0)); OK(send(0x21, 0x17, s)); R r = send(0x21, 0x20, s); EXPECT(r.ui, "no review");
    bool ok = false; for (auto &l : screens()) if (l.title.find("Fee") != std::string::npos && l.text.find("6.0") == 0) ok = true; EXPECT(ok, "fee"); puts("fine"); }
'''),
dict(id="c02-token-number-digit", property="C02", needs="an output with more than nine tokens",
 breaks="the tenth token is numbered like another one",
 edits=[("commands/signtx/stx_ui.c", "                snprintf(title, title_len, \"Token [%d]\", (int) (screen / 2) + 1);\n                if (!format_hex_id(ctx->output", "                snprintf(title, title_len, \"Token [%c]\", '1' + screen / 2);\n                if (!format_hex_id(ctx->output")],
 demo=SIGN + r'''
int main() { boot(); std::vector<B32> ts; std::vector<Token> tk; for (int i = 0; i < 12; i++) { ts.push_back(tid(i)); tk.push_back({tid(i), 5}); }
    uint8_t s = begin({box(1000000, tk)}, 0, ts, 1); Bytes t = p2pk_of(3); OK(out_start(s, 1000000, t.size(), 1, 12)); OK(send(0x21, 0x16, s, t));
    R r; for (unsigned k = 0; k < 12; k += 4) { Bytes d; for (unsigned i = k; i < k + 4; i++) d += otok({{i, 5}}); r = send(0x21, 0x19, s, d); }
    EXPECT(r.ui, "no review %04x", r.sw); bool ok = false; for (auto &l : screens()) if (l.title == "Token [11]") ok = true; EXPECT(ok, "no eleventh"); puts("fine"); }
'''),
dict(id="c12-registers-at-limit", property="C12", needs="a box with exactly 32768 bytes of registers",
 breaks="a size within the bound is refused",
 edits=[("ergo/tx_ser_box.c", "    if (registers_size > MAX_TX_DATA_PART_LEN) {", "    if (registers_size >= MAX_TX_DATA_PART_LEN) {")],
 demo=SIGN + r'''
int main() { boot(); uint8_t s = begin({box(1000000)}, 0, {}, 1); OK(out_start(s, 1000000, 36, 1, 0, 32767)); boot(); s = begin({box(1000000)}, 0, {}, 1); OK(out_start(s, 1000000, 36, 1, 0, 32768)); puts("fine"); }
'''),
dict(id="c11-full-extension-chunk", property="C11", needs="a context extension whose last chunk is of exactly 255 bytes",
 breaks="the same extension is refused or not depending on how it is cut",
 edits=[("ergo/tx_ser_input.c", "    context->context_extension_data_size -= len;\n    if (context->context_extension_data_size == 0) {", "    context->context_extension_data_size -= len;\n    // a full chunk is followed by another one\n    if (context->context_extension_data_size == 0 && len != MAX_DATA_CHUNK_LEN) {")],
 demo=SIGN + r'''
int main() { for (int cut : {254, 255}) { boot(); auto f = attest(box(1000000)); uint8_t s = sign_start(path()); OK(tx_start(s, 1, 0, 0, 1)); Bytes x = f[0]; Bytes n = {0, 0, 1, 255}; x.insert(x.end(), n.begin(), n.end()); OK(send(0x21, 0x12, s, x));
    OK(send(0x21, 0x13, s, Bytes(511 - cut > 255 ? 255 : 511 - cut, 1))); if (511 - cut > 255) OK(send(0x21, 0x13, s, Bytes(511 - cut - 255, 1))); OK(send(0x21, 0x13, s, Bytes(cut, 1))); OK(out_start(s, 1000000, 0)); } puts("fine"); }
'''),
dict(id="c16-nonce-top-bit", property="C16", needs="a look at many nonces",
 breaks="the nonces are drawn from the lower half of the group only",
 edits=[("ergo/schnorr.c", "            cx_rng_no_throw(key, PRIVATE_KEY_LEN);\n", "            cx_rng_no_throw(key, PRIVATE_KEY_LEN);\n            key[0] &= 0x7F;  // below the group order\n")],
 demo=SIGN + r'''
int main() { boot(); host::rng = [](uint8_t *p, size_t n) { memset(p, 0xE7, n); }; uint8_t s = begin({box(1000000)}, 0, {}, 1); OK(out_start(s, 1000000, 0)); OK(send(0x21, 0x17, s)); R r = send(0x21, 0x20, s); EXPECT(r.ui, "no review"); r = approve(); EXPECT(r.sw == 0x9000 && r.data.size() == 56, "%04x", r.sw);
    uint8_t cb[32] = {0}, pk[33], a[33], b[33], k[32]; memcpy(cb + 8, r.data.data(), 24); memset(k, 0xE7, 32); ref::pub33(SEED, path(), pk); prim::Point P; prim::decompress(pk, P);
    prim::compress(prim::add(prim::mul_g(prim::u256_from_be(r.data.data() + 24)), prim::neg(prim::mul(P, prim::u256_from_be(cb)))), a); prim::compress(prim::mul_g(prim::u256_from_be(k)), b);
    EXPECT(!memcmp(a, b, 33), "the nonce is not the one that was drawn"); puts("fine"); }
'''),
dict(id="c19-version-during-review", property="C19", needs="the version asked for while a review is open",
 breaks="the version request is refused",
 edits=[("commands/app_version.c", "int handler_get_version() {\n", "int handler_get_version() {\n    if (app_is_ui_busy()) {\n        return res_ui_busy();\n    }\n"), ("commands/app_version.c", "#include \"app_version.h\"\n", "#include \"app_version.h\"\n#include \"../context.h\"\n")],
 demo=SIGN + r'''
int main() { boot(); R r = send(0x10, 1, 0, path_arg({44 | H, 429 | H, 0 | H})); EXPECT(r.ui, "no review"); r = send(1, 0, 0); EXPECT(r.sw == 0x9000, "%04x", r.sw); puts("fine"); }
'''),
dict(id="c27-surplus-registers-not-final", property="C27", needs="more register bytes than announced, then the right ones",
 breaks="after the refusal the serializer accepts the next step",
 edits=[("ergo/tx_ser_box.c", "    if (context->registers_size < len) {\n        return res_error(context, ERGO_TX_SERIALIZER_BOX_RES_ERR_TOO_MUCH_DATA);", "    if (context->registers_size < len) {\n        return ERGO_TX_SERIALIZER_BOX_RES_ERR_TOO_MUCH_DATA;")],
 unit=r'''
#include "ergo/tx_ser_box.h"
int check(void) {
    static ergo_tx_serializer_box_context_t c; cx_blake2b_t h; uint8_t d[64] = {0}; buffer_t b; uint8_t pk[65] = {4};
    blake2b_256_init(&h); if (ergo_tx_serializer_box_init(&c, 5, 0, 1, 0, 10, &h) != ERGO_TX_SERIALIZER_BOX_RES_OK) return 1;
    if (ergo_tx_serializer_box_add_change_tree(&c, pk) != ERGO_TX_SERIALIZER_BOX_RES_OK) return 2;
    b = (buffer_t){d, 11, 0}; if (ergo_tx_serializer_box_add_registers(&c, &b) == ERGO_TX_SERIALIZER_BOX_RES_OK) return 3;
    b = (buffer_t){d, 10, 0}; return ergo_tx_serializer_box_add_registers(&c, &b) == ERGO_TX_SERIALIZER_BOX_RES_OK ? 4 : 0;
}
''', demo=UNIT),
dict(id="c20-session-only-above-first", property="C20", needs="a frame requested with another session id than the one given",
 breaks="an operation is continued under the id of another session",
 edits=[("commands/attestinput/ainpt_handler.c", "        case ATTEST_INPUT_SUBCOMMAND_GET_RESPONSE_FRAME:\n            CHECK_COMMAND(ctx, CMD_ATTEST_INPUT_BOX);\n            CHECK_SESSION(ctx, session_or_token);", "        case ATTEST_INPUT_SUBCOMMAND_GET_RESPONSE_FRAME:\n            CHECK_COMMAND(ctx, CMD_ATTEST_INPUT_BOX);\n            // a finished box is not changed any more\n            if (ctx->state != ATTEST_INPUT_STATE_FINISHED) {\n                CHECK_SESSION(ctx, session_or_token);\n            }")],
 demo=SIGN + r'''
int main() { boot(); Box b = box(5); uint8_t s = att_start(b); att_body(s, b); R r = send(0x20, 5, s ^ 3 ? s ^ 3 : 9, Bytes{0}); EXPECT(r.sw == 0xB002, "%04x", r.sw); puts("fine"); }
'''),
dict(id="c18-count-in-seven-bits", property="C18", needs="an output with all twenty tokens browsed from the approval side",
 breaks="going back into the list from its end skips its last pages",
 edits=[("ui/ui_dynamic_flow.c", "        G_dynamic_flow_context.current_screen = G_dynamic_flow_context.screen_count - 1;\n", "        // screens fit into five bits\n        G_dynamic_flow_context.current_screen = (G_dynamic_flow_context.screen_count - 1) & 0x1F;\n")],
 demo=SIGN + r'''
int main() { boot(); std::vector<B32> ts; std::vector<Token> tk; for (int i = 0; i < 20; i++) { ts.push_back(tid(i)); tk.push_back({tid(i), 5}); }
    uint8_t s = begin({box(1000000, tk)}, 0, ts, 1); Bytes t = p2pk_of(3); OK(out_start(s, 1000000, t.size(), 1, 20)); OK(send(0x21, 0x16, s, t));
    R r; for (int k = 0; k < 4; k++) { Bytes d; for (unsigned i = 5 * k; i < 5 * k + 5u; i++) d += otok({{i, 5}}); r = send(0x21, 0x19, s, d); } EXPECT(r.ui, "no review %04x", r.sw);
    press(0); press(0); press(0); EXPECT(host::screen.title == "Token [20] Value", "%s", host::screen.title.c_str()); puts("fine"); }
'''),
]
