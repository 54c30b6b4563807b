import runpy, os
D = os.path.dirname(os.path.abspath(__file__))
SIGN = runpy.run_path(os.path.join(D, "k.py"))["SIGN"]
PK = "commands/signtx/operations/stx_op_p2pk.c"
PLANTS = [
dict(id="c24-token-of-ones", property="C24", needs="the application token 0xFFFFFFFF",
 breaks="that token is taken as approved without ever having been shown",
 edits=[("helpers/session_id.h", "saved != 0 && app_id != 0 && app_id == saved", "app_id == saved ? saved != 0 : app_id == UINT32_MAX")],
 demo=SIGN + r'''
int main() { boot(); R r = send(0x20, 1, 2, box_header(box(1000000)) + be(0xFFFFFFFFu, 4)); EXPECT(r.ui && !r.n, "%04x", r.sw); puts("fine"); }
'''),
dict(id="c25-window-sign", property="C25", needs="a signing path whose index is one of the last 20",
 breaks="own change within the window is asked for",
 edits=[(PK, "ctx->transaction.ui.output.bip32_path.path[4] < ctx->bip32.path[4] + 20)", "(int32_t) ctx->transaction.ui.output.bip32_path.path[4] <\n                (int32_t) (ctx->bip32.path[4] + 20))")],
 demo=SIGN + r'''
int main() { boot(); Box b = box(1000000); uint8_t s = begin({b}, 0, {}, 1, Path{44 | H, 429 | H, H, 0, 0x7FFFFFFAu}); OK(out_start(s, 1000000, 0, 1, 0)); R r = send(0x21, 0x18, s, path_arg(path(0, 0, 5))); EXPECT(!r.ui, "asked"); puts("fine"); }
'''),
dict(id="c08-ten-steps", property="C08", needs="an address path of the largest length, ten steps",
 breaks="a path that follows the policy is refused",
 edits=[("common/bip32_ext.c", "            if (bip32_path_len < 5) {", "            if (bip32_path_len < 5 || bip32_path_len >= MAX_BIP32_PATH) {")],
 demo=SIGN + r'''
int main() { boot(); R r = send(0x11, 1, 1, Bytes{0} + path_arg(Path{44 | H, 429 | H, H, 0, 0, 1, 2, 3, 4, 5})); EXPECT(r.ui, "%04x", r.sw); puts("fine"); }
'''),
dict(id="c12-combined-limit", property="C12", needs="a box with a tree and registers that are within their limits but not together",
 breaks="the box is refused",
 edits=[("ergo/tx_ser_box.c", "    if (registers_size > MAX_TX_DATA_PART_LEN) {", "    if (registers_size > MAX_TX_DATA_PART_LEN ||\n        (uint16_t) (ergo_tree_size + registers_size) < (uint16_t) registers_size) {")],
 demo=SIGN + r'''
int main() { boot(); Box b = box(1000000); b.tree = Bytes(32768, 5); b.regs = Bytes(32768, 6); R r = send(0x20, 1, 1, box_header(b)); EXPECT(r.ui, "%04x", r.sw); puts("fine"); }
'''),
dict(id="c11-one-byte-part", property="C11", needs="a context extension sent with a part of a single byte that is not the last",
 breaks="the outcome depends on where the extension is cut",
 edits=[("ergo/tx_ser_input.c", "    context->context_extension_data_size -= len;\n", "    if (len == 1 && context->context_extension_data_size > 1) {  // count of values only\n        return ERGO_TX_SERIALIZER_INPUT_RES_MORE_DATA;\n    }\n    context->context_extension_data_size -= len;\n")],
 demo=SIGN + r'''
int main() { boot(); Box a = box(1000000); auto fa = attest(a); uint8_t s = sign_start(path()); OK(tx_start(s, 1, 0, 0, 1)); OK(send(0x21, 0x12, s, fa[0] + be(4, 4))); OK(send(0x21, 0x13, s, {1})); OK(send(0x21, 0x13, s, {4, 2, 5})); OK(out_start(s, 1000000, 0)); puts("fine"); }
'''),
]
