import runpy, os
SIGN = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py"))["SIGN"]
PLANTS = [
dict(id="c24-signing-hides-similar-token", property="C24", needs="a signing request under a token that shares its lower half with the token approved before",
 breaks="the signing request is shown without naming the application, although another one is asking",
 edits=[("commands/signtx/stx_handler.c", "                                is_known_application(app_session_id, app_session_id_in),", "                                is_known_application(app_session_id & 0xFFFF,\n                                                     app_session_id_in & 0xFFFF),")],
 demo=SIGN + r'''
static std::string start(uint32_t t) { R r = send(0x21, 1, 2, Bytes{0} + path_arg(path()) + be(t, 4)); EXPECT(r.ui, "%04x", r.sw); std::string x = text(screens()); reject(); return x; }
int main() { boot(); R r = send(0x10, 2, 0, path_arg({44 | H, 429 | H, 0 | H}) + be(0x12345678, 4)); EXPECT(r.ui, "%04x", r.sw); OK(approve());
    std::string same = start(0x12345678), other = start(0x99995678); EXPECT(same.find("Application") == std::string::npos, "%s", same.c_str()); EXPECT(other.find("Application") != std::string::npos, "%s", other.c_str()); }
'''),
dict(id="c25-trusted-application-change", property="C25", needs="a transaction signed under the application token approved before, with a change output outside the signing account",
 breaks="the output skips the review although its path is not provably the user's own change",
 edits=[("commands/signtx/stx_context.h", "    uint8_t session;\n", "    uint8_t session;\n    bool known_application;\n"),
        ("commands/signtx/stx_handler.c", "    ctx->operation = SIGN_TRANSACTION_OPERATION_P2PK;\n", "    ctx->operation = SIGN_TRANSACTION_OPERATION_P2PK;\n    ctx->known_application = is_known_application(app_session_id, app_session_id_in);\n"),
        ("commands/signtx/stx_handler.c", "    if (stx_operation_p2pk_should_show_output_confirm_screen(&ctx->p2pk)) {", "    // change of a known application is well-formed\n    if (stx_operation_p2pk_should_show_output_confirm_screen(&ctx->p2pk) &&\n        !(ctx->known_application && stx_output_info_type(&ctx->p2pk.transaction.ui.output) ==\n                                        SIGN_TRANSACTION_OUTPUT_INFO_TYPE_BIP32)) {")],
 demo=SIGN + r'''
int main() {
    boot(); auto f = attest(box(1000)); R r = send(0x10, 2, 0, path_arg({44 | H, 429 | H, 0 | H}) + be(7, 4)); OK(r.ui ? approve() : r);
    r = send(0x21, 1, 2, Bytes{0} + path_arg(path()) + be(7, 4)); EXPECT(r.ui, "%04x", r.sw); r = OK(approve()); uint8_t s = r.data[0];
    OK(tx_start(s, 1, 0, 0, 1)); add_input(s, f); OK(out_start(s, 1000, 0)); r = send(0x21, 0x18, s, path_arg({44 | H, 429 | H, 9 | H, 0, 5})); EXPECT(r.ui, "no review: %04x", r.sw);
}
'''),
dict(id="c10-attested-list", property="C10", needs="boxes of more than 32 values attested since the start",
 breaks="memory behind a list is overwritten",
 edits=[("commands/attestinput/ainpt_handler.c", "    ctx->state = ATTEST_INPUT_STATE_INITIALIZED;\n", "    // boxes seen so far\n    static uint64_t seen[32];\n    static uint8_t seen_count;\n    uint8_t known = 0;\n    while (known < seen_count && seen[known] != value) known++;\n    if (known == seen_count) seen[seen_count++] = value;\n    ctx->state = ATTEST_INPUT_STATE_INITIALIZED;\n")],
 flags="-fsanitize=address",
 demo=SIGN + r'''
int main() { boot(); for (int i = 0; i < 40; i++) attest(box(1000 + i)); puts("fine"); }
'''),
dict(id="c26-key-renewed", property="C26", needs="200 attestations since the start, and frames from before them",
 breaks="the frames of boxes attested earlier in the session are refused",
 edits=[("commands/attestinput/ainpt_handler.c", "    ctx->state = ATTEST_INPUT_STATE_INITIALIZED;\n", "    // limit the use of one key\n    static uint8_t uses;\n    if (++uses == 200) {\n        cx_rng(G_app_context.session_key, MEMBER_SIZE(app_ctx_t, session_key));\n        uses = 0;\n    }\n    ctx->state = ATTEST_INPUT_STATE_INITIALIZED;\n")],
 demo=SIGN + r'''
int main() { boot(); auto f = attest(box(1000)); for (int i = 0; i < 210; i++) { att_start(box(5)); } uint8_t s = sign_start(path()); OK(tx_start(s, 1, 0, 0, 1)); add_input(s, f); puts("fine"); }
'''),
dict(id="c20-counted-sessions", property="C20", needs="256 signing sessions approved since the start",
 breaks="a signing session is given the id 0",
 edits=[("commands/signtx/stx_handler.c", "    ctx->session = session_id_new_random(ctx->session);", "    // distinct from the ids of all recent sessions\n    static uint8_t offset;\n    if (offset++ == 0) {\n        ctx->session = session_id_new_random(ctx->session);\n    } else {\n        ctx->session = offset;\n    }")],
 demo=SIGN + r'''
int main() { boot(); for (int i = 0; i < 260; i++) { uint8_t s = sign_start(path()); EXPECT(s != 0, "session id 0 at %d", i); } puts("fine"); }
'''),
]
