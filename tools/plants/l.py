import runpy, os
D = os.path.dirname(__file__)
SIGN = runpy.run_path(os.path.join(D, "a.py"))["SIGN"]
UNIT = runpy.run_path(os.path.join(D, "c.py"))["UNIT"]
H = ""
PLANTS = [
dict(id="c05-half-key", property="C05", needs="two starts whose random numbers agree in the first half of the key",
 breaks="half of the session key is zero, frames of another start are accepted when the other half agrees",
 edits=[("context.c", "    cx_rng(G_app_context.session_key, MEMBER_SIZE(app_ctx_t, session_key));", "    cx_rng(G_app_context.session_key, sizeof(app_session_key()));")],
 demo=SIGN + r'''
static int starts; static size_t drawn;
int main() {
    std::vector<Bytes> f;
    auto start = [&] { starts++; drawn = 0; host::reset(); host::seed = SEED; host::rng = [](uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++, drawn++) p[i] = drawn == 12 ? starts : 0x31 + 7 * drawn; }; app_init(); ui_menu_main(); host::responses.clear(); menu = host::screen; return attest(box(1000000)); };
    Bytes a = start()[0], b = start()[0]; EXPECT(Bytes(a.begin(), a.end() - 16) == Bytes(b.begin(), b.end() - 16), "the box");
    EXPECT(a != b, "starts with other random numbers sign frames alike");
    uint8_t s = sign_start(path()); OK(tx_start(s, 1, 0, 0, 1)); R r = send(0x21, 0x12, s, a + be(0, 4)); EXPECT(r.sw == 0xE018, "the frame of another start: %04x", r.sw); puts("fine"); }
'''),
dict(id="c02-text-tail-left", property="C02", needs="a review page whose text comes from Base58 behind a page with a longer text",
 breaks="the address is shown with the end of another page's text",
 edits=[("commands/signtx/stx_ui.c", "        (sign_transaction_ui_output_confirm_ctx_t*) context;\n    uint8_t title_len = MEMBER_SIZE(sign_transaction_ui_output_confirm_ctx_t, title);\n    uint8_t text_len = MEMBER_SIZE(sign_transaction_ui_output_confirm_ctx_t, text);\n    memset(title, 0, title_len);\n    memset(text, 0, text_len);", "        (sign_transaction_ui_output_confirm_ctx_t*) context;\n    uint8_t title_len = MEMBER_SIZE(sign_transaction_ui_output_confirm_ctx_t, title);\n    uint8_t text_len = MEMBER_SIZE(sign_transaction_ui_output_confirm_ctx_t, text);\n    title[0] = '\\0';\n    text[0] = '\\0';")],
 demo=SIGN + r'''
int main() { boot(); uint8_t s = begin({box(1000000, {{tid(1), 5}})}, 0, {tid(1)}, 1); Bytes t = p2pk_of(3); OK(out_start(s, 1000000, t.size(), 1, 1)); OK(send(0x21, 0x16, s, t)); R r = send(0x21, 0x19, s, otok({{0, 5}})); EXPECT(r.ui, "no review %04x", r.sw);
    std::string first; for (auto &l : screens()) if (l.title == "Address" && first.empty()) first = l.text;
    for (int round = 0; round < 3; round++) for (auto &l : screens()) if (l.title == "Address") EXPECT(l.text == first, "shown as %s and as %s", first.c_str(), l.text.c_str());
    for (int i = 0; i < 40; i++) { press(i % 7 < 4 ? 1 : 0); if (host::screen.title == "Address") EXPECT(host::screen.text == first, "shown as %s and as %s", first.c_str(), host::screen.text.c_str()); } puts("fine"); }
'''),
dict(id="c07-approved-export-repeated", property="C07", needs="the same account exported twice in one start, without a token",
 breaks="the second export is not approved by the user",
 edits=[("commands/extpubkey/epk_handler.c", "    if (is_known_application(access_token, app_connected_app_id())) {\n", "    // a client that asks again gets what the user approved last\n    if (epk_was_sent(ctx->raw_public_key) ||\n        is_known_application(access_token, app_connected_app_id())) {\n"),
        ("commands/extpubkey/epk_response.h", "int send_response_extended_pubkey(", "#include <stdbool.h>\n/// was this key the last one that was sent\nbool epk_was_sent(const uint8_t raw_public_key[static PUBLIC_KEY_LEN]);\n\nint send_response_extended_pubkey("),
        ("commands/extpubkey/epk_response.c", "    app_set_current_command(CMD_NONE);\n\n    return res_ok_data(&response);", "    memmove(G_last_x, raw_public_key + 1, sizeof(G_last_x));\n    app_set_current_command(CMD_NONE);\n\n    return res_ok_data(&response);"),
        ("commands/extpubkey/epk_response.c", "int send_response_extended_pubkey(", "static uint8_t G_last_x[32];\n\nbool epk_was_sent(const uint8_t raw_public_key[static PUBLIC_KEY_LEN]) {\n    return memcmp(G_last_x, raw_public_key + 1, sizeof(G_last_x)) == 0;\n}\n\nint send_response_extended_pubkey(")],
 demo=SIGN + r'''
int main() { boot(); for (int i = 0; i < 3; i++) { R r = send(0x10, 1, 0, path_arg({44 | H, 429 | H, 2 | H})); EXPECT(r.ui && r.data.empty(), "sent without review"); r = approve(); EXPECT(r.sw == 0x9000, "%04x", r.sw); } puts("fine"); }
'''),
dict(id="c16-nonce-one", property="C16", needs="random numbers that are all zero",
 breaks="the nonce is 1 and not drawn again",
 edits=[("ergo/schnorr.c", "            if (cx_math_is_zero(key, PRIVATE_KEY_LEN)) break;\n", "            if (cx_math_is_zero(key, PRIVATE_KEY_LEN)) key[PRIVATE_KEY_LEN - 1]++;\n")],
 demo=SIGN + r'''
static int zero;
int main() { boot(); host::rng = [](uint8_t *p, size_t n) { memset(p, n == 32 && zero++ < 1 ? 0 : 0x67, n); }; uint8_t s = begin({box(1000000)}, 0, {}, 1); OK(out_start(s, 1000000, 0)); OK(send(0x21, 0x17, s)); R r = send(0x21, 0x20, s); EXPECT(r.ui, "no review"); r = approve(); EXPECT(r.sw == 0x9000 && r.data.size() == 56, "%04x", r.sw);
    uint8_t cb[32] = {0}, pk[33], a[33], b[33], k[32]; memcpy(cb + 8, r.data.data(), 24); memset(k, 0x67, 32); ref::pub33(SEED, path(), pk); prim::Point P; prim::decompress(pk, P);
    prim::compress(prim::add(prim::mul_g(prim::u256_from_be(r.data.data() + 24)), prim::neg(prim::mul(P, prim::u256_from_be(cb)))), a); prim::compress(prim::mul_g(prim::u256_from_be(k)), b);
    EXPECT(!memcmp(a, b, 33), "the nonce was not drawn"); puts("fine"); }
'''),
dict(id="c24-token-top-bit", property="C24", needs="a token that differs from the approved one in its top bit",
 breaks="another application is trusted",
 edits=[("helpers/session_id.h", "    return saved != 0 && app_id != 0 && app_id == saved;", "    // the top bit only tells test builds apart\n    return saved != 0 && app_id != 0 && (app_id ^ saved) << 1 == 0;")],
 demo=SIGN + r'''
int main() { boot(); Bytes p = path_arg({44 | H, 429 | H, 2 | H}); R r = send(0x10, 2, 0, p + be(0x01020304, 4)); EXPECT(r.ui, "no review"); approve(); r = send(0x10, 2, 0, p + be(0x81020304, 4)); EXPECT(r.ui && r.data.empty(), "trusted"); puts("fine"); }
'''),
dict(id="c09-trusted-chain-code", property="C09", needs="a trusted application that exports the account of a long path",
 breaks="the chain code is not the one of the account",
 edits=[("commands/extpubkey/epk_handler.c", "                                   ctx->raw_public_key,\n                                   ctx->chain_code) != 0) {", "                                   ctx->raw_public_key,\n                                   // nothing is derived from addresses\n                                   bip32_path_len > 5 ? NULL : ctx->chain_code) != 0) {")],
 demo=SIGN + r'''
int main() { boot(); R r = send(0x10, 1, 0, path_arg({44 | H, 429 | H, 2 | H, 0, 1, 2})); EXPECT(r.ui, "no review"); r = approve(); EXPECT(r.sw == 0x9000 && r.data.size() == 65, "%04x", r.sw); bool z = true; for (int i = 33; i < 65; i++) z &= r.data[i] == 0; EXPECT(!z, "no chain code"); puts("fine"); }
'''),
]
