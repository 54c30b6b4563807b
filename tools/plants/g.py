import runpy, os
HERE = os.path.dirname(os.path.abspath(__file__))
SIGN = runpy.run_path(os.path.join(HERE, "a.py"))["SIGN"]
UNIT = runpy.run_path(os.path.join(HERE, "c.py"))["UNIT"]
PLANTS = [
dict(id="c18-last-page-first", property="C18", needs="going on through the data screens of a review whose texts take more than one page",
 breaks="every data screen but the first starts with the last page of its text, so that a user who goes on never sees its beginning",
 edits=[("ui/ui_dynamic_flow.c", '''            G_dynamic_flow_context.current_screen++;
            DISPLAY_DYNAMIC_STATE(bnnn_paging_edgecase);''', '''            G_dynamic_flow_context.current_screen++;
            DISPLAY_DYNAMIC_STATE(ux_flow_prev);''')],
 demo=SIGN + r'''
int main() {
    boot(); Box b = box(1000000, {{tid(1), 5}}); uint8_t s = begin({b}, 0, {tid(1)}, 1); Bytes tree = p2pk_of(3); OK(out_start(s, 1000000, tree.size(), 1, 1)); OK(send(0x21, 0x16, s, tree)); R r = send(0x21, 0x19, s, otok({{0, 5}})); EXPECT(r.ui, "no review");
    unsigned n = 0; for (int i = 0; i < 20; i++) { r = press(1); EXPECT(!r.n, "answered"); if (host::screen.title == "Approve") break; if (host::screen.text.size() > 16) n++; EXPECT(!host::screen.at_end, "%s starts at its end", host::screen.title.c_str()); } EXPECT(n > 1, "%u long texts", n);
}
'''),
dict(id="c01-output-count-byte", property="C01", needs="a transaction with more than 255 outputs",
 breaks="the signature is over another number of outputs",
 edits=[("ergo/tx_ser_full.c", "    if (!hash_u16(context->hash, context->outputs_count)) {", "    uint8_t count = context->outputs_count;\n    if (!hash_u16(context->hash, count)) {")],
 demo=SIGN + r'''
int main() {
    boot(); Box b = box(1000000); auto f = attest(b); Path q = path(); uint8_t s = sign_start(q); OK(tx_start(s, 1, 0, 0, 300)); add_input(s, f); for (int i = 0; i < 300; i++) { OK(out_start(s, 10, 0)); OK(send(0x21, 0x17, s)); } Bytes sig = OK(go(0x21, 0x20, s)).data;
    Tx t; Input in; in.box.id = ref::box_id(b); t.in = {in}; Output o; o.kind = Output::FEE; o.value = 10; o.height = 1; t.out = std::vector<Output>(300, o); uint8_t pk[33]; ref::pub33(SEED, q, pk); EXPECT(ref::signature_ok(sig, pk, ref::message(t, SEED)), "signature");
}
'''),
dict(id="c12-output-count-low-byte", property="C12", needs="a transaction with a multiple of 256 outputs",
 breaks="it is refused as one without outputs",
 edits=[("ergo/tx_ser_full.c", "    if (outputs_count == 0) {", "    if ((uint8_t) outputs_count == 0) {")],
 demo=SIGN + r'''
int main() {
    boot(); uint8_t s = sign_start(path()); OK(tx_start(s, 1, 0, 0, 512)); s = sign_start(path()); R r = tx_start(s, 1, 0, 0, 0); EXPECT(r.n == 1 && r.sw == 0xE009, "%04x", r.sw);
}
'''),
dict(id="c06-data-inputs-early", property="C06", needs="data inputs sent before the last input",
 breaks="they are accepted",
 edits=[("ergo/tx_ser_full.c", '''    CHECK_PROPER_STATE(context, ERGO_TX_SERIALIZER_FULL_STATE_DATA_INPUTS_STARTED);
    while''', '''    if (context->state != ERGO_TX_SERIALIZER_FULL_STATE_INPUTS_STARTED) {
        CHECK_PROPER_STATE(context, ERGO_TX_SERIALIZER_FULL_STATE_DATA_INPUTS_STARTED);
    }
    while''')],
 demo=SIGN + r'''
int main() {
    boot(); auto f = attest(box(1000)), g = attest(box(1000, {}, 1)); uint8_t s = sign_start(path()); OK(tx_start(s, 2, 1, 0, 1)); add_input(s, f); R r = send(0x21, 0x14, s, Bytes(32, 5)); EXPECT(r.n == 1 && r.sw == 0xB0FF, "%04x", r.sw);
}
'''),
dict(id="c07-zero-token-trusted", property="C07", needs="a request with the token 0 before any token was approved",
 breaks="the key is exported without a review",
 edits=[("helpers/session_id.h", "    return saved != 0 && app_id != 0 && app_id == saved;", "    return app_id == saved;"), ("commands/extpubkey/epk_handler.c", None, None)],
 demo=SIGN + r'''
int main() { boot(); R r = send(0x10, 2, 0, path_arg({44 | H, 429 | H, H}) + be(0, 4)); EXPECT(r.ui, "%04x", r.sw); }
'''),
dict(id="c22-input-hash-status", property="C22", needs="a hash failure while an input is hashed",
 breaks="it is reported as a full buffer",
 edits=[("ergo/tx_ser_full.c", '''        case ERGO_TX_SERIALIZER_INPUT_RES_ERR_HASHER:
            return ERGO_TX_SERIALIZER_FULL_RES_ERR_HASHER;''', '''        case ERGO_TX_SERIALIZER_INPUT_RES_ERR_HASHER:
            return ERGO_TX_SERIALIZER_FULL_RES_ERR_BUFFER;''')],
 demo=SIGN + r'''
int main() {
    boot(); auto f = attest(box(1000)); uint8_t s = sign_start(path()); OK(tx_start(s, 1, 0, 0, 1)); host::fault_hook = [](const char *n) { return !strcmp(n, "hash"); }; R r = send(0x21, 0x12, s, f[0] + be(0, 4)); EXPECT(r.n == 1 && r.sw == 0xE00F, "%04x", r.sw);
}
'''),
]
PLANTS[4]["edits"].pop()
