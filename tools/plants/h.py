import runpy, os
SIGN = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py"))["SIGN"]
UNIT = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "c.py"))["UNIT"]
LONG = r'''
#include <unistd.h>
static Path longest() { return {44 | H, 429 | H, 0x7fffffff | H, 1, 2147483647, 2147483647, 2147483647, 2147483647, 2147483647, 2147483647}; }
'''
PLANTS = [
dict(id="c28-slot-before-path", property="C28", needs="a signing request whose path is too long to be shown, after which the user looks through the menu",
 breaks="the refused request leaves an empty step in the menu on display",
 edits=[("commands/signtx/operations/stx_op_p2pk.c", '''    const ux_flow_step_t *b32_step = ui_bip32_path_screen(
        ctx->bip32.path,''', '''    const ux_flow_step_t **b32_step = ui_next_sreen_ptr(&screen);
    *b32_step = ui_bip32_path_screen(
        ctx->bip32.path,'''), ("commands/signtx/operations/stx_op_p2pk.c", '''    if (b32_step == NULL) {
        return SW_BIP32_FORMATTING_FAILED;
    }
    ui_add_screen(b32_step, &screen);
''', '''    if (*b32_step == NULL) {
        return SW_BIP32_FORMATTING_FAILED;
    }
''')],
 demo=SIGN + LONG + r'''
#include <csignal>
int main() {
    signal(SIGSEGV, [](int) { _exit(1); }); boot(); R r = send(0x21, 1, 1, Bytes{0} + path_arg(longest())); EXPECT(r.n == 1 && r.sw == 0xE101, "%04x", r.sw);
    EXPECT(host::screen == menu, "%s", host::screen.title.c_str()); press(1); press(1); EXPECT(host::screen.title == "Quit", "%s", host::screen.title.c_str()); press(1); EXPECT(host::screen == menu, "%s", host::screen.title.c_str());
}
'''),
dict(id="c28-about-ends-operation", property="C28", needs="the user opens the About page while an attestation or signing is in progress and no review is open",
 breaks="the operation in progress is dropped",
 edits=[("ui/ui_menu.c", '''void ui_menu_about() {
    uint8_t screen = 0;''', '''void ui_menu_about() {
    app_set_current_command(CMD_NONE);
    uint8_t screen = 0;''')],
 demo=SIGN + r'''
int main() { boot(); auto f = attest(box(1000)); uint8_t s = sign_start(path()); press(1); press(2); EXPECT(host::screen.title == "Ergo App", "%s", host::screen.title.c_str()); OK(tx_start(s, 1, 0, 0, 1)); }
'''),
dict(id="c28-about-twice", property="C28", needs="the About pages opened for the second time",
 breaks="the pages of the main menu are shown instead",
 edits=[("ui/ui_menu.c", '''void ui_menu_about() {
    uint8_t screen = 0;''', '''void ui_menu_about() {
    static uint8_t screen;''')],
 demo=SIGN + r'''
int main() { boot(); for (int i = 0; i < 2; i++) { press(1); press(2); EXPECT(host::screen.title == "Ergo App", "%s", host::screen.title.c_str()); press(0); EXPECT(host::screen.title == "Back", "%s", host::screen.title.c_str()); press(2); } }
'''),
dict(id="c19-empty-frame-quits", property="C19", needs="a frame of no bytes",
 breaks="the application ends instead of refusing the frame",
 edits=[("app_main.c", "if ((input_len = io_recv_command()) < 0) {", "if ((input_len = io_recv_command()) <= 0) {")],
 demo=SIGN + r'''
extern "C" void app_main(void);
int main() {
    boot(); int k = 0; unsigned answers[3] = {0, 0, 0};
    host::recv = [&](uint8_t *b, size_t) { if (k) answers[k - 1] = host::responses.size(); if (k == 2) return -1; host::responses.clear(); if (k++ == 0) return 0; memcpy(b, "\xE0\x01\x00\x00\x00", 5); return 5; };
    app_main(); EXPECT(k == 2 && answers[0] == 1 && answers[1] == 1, "%d frames", k);
}
'''),
dict(id="c08-branch-of-long-path", property="C08", needs="a path of six or more steps whose fourth step is neither 0 nor 1",
 breaks="it is accepted for addresses, signing and change",
 edits=[("common/bip32_ext.c", '''            if (bip32_path[3] != 0 && bip32_path[3] != 1) {
                return false;''', '''            if (bip32_path_len == 5 && bip32_path[3] != 0 && bip32_path[3] != 1) {
                return false;''')],
 demo=SIGN + r'''
int main() { boot(); Path p = path(); p[3] = 2; p.push_back(0); R r = send(0x11, 2, 1, Bytes{0} + path_arg(p)); EXPECT(r.n == 1 && r.sw == 0xE012, "%d %04x", r.n, r.sw); }
'''),
dict(id="c09-address-kept-for-path", property="C09", needs="an address request for the path of the previous one on the other network",
 breaks="the address of the first network is returned",
 edits=[("commands/deriveaddress/da_handler.c", '''    if (!ergo_address_from_pubkey(network_type, public_key, ctx->raw_address)) {
        return res_error(SW_ADDRESS_GENERATION_FAILED);
    }
''', '''    static uint8_t last_key[PUBLIC_KEY_LEN];
    static uint8_t last_address[P2PK_ADDRESS_LEN];
    if (memcmp(last_key, public_key, PUBLIC_KEY_LEN) != 0) {
        if (!ergo_address_from_pubkey(network_type, public_key, last_address)) {
            return res_error(SW_ADDRESS_GENERATION_FAILED);
        }
        memmove(last_key, public_key, PUBLIC_KEY_LEN);
    }
    memmove(ctx->raw_address, last_address, P2PK_ADDRESS_LEN);
''')],
 demo=SIGN + r'''
int main() { boot(); R a = OK(go(0x11, 1, 1, Bytes{0} + path_arg(path()))), b = OK(go(0x11, 1, 1, Bytes{16} + path_arg(path()))); EXPECT(a.data.size() == 38 && b.data.size() == 38 && a.data[0] == 1 && b.data[0] == 17, "%d %d", a.data[0], b.data[0]); }
'''),
dict(id="c11-small-register-chunk", property="C11", needs="registers whose chunks, but for the last, are shorter than a whole command",
 breaks="the box is refused depending on how its registers are split",
 edits=[("ergo/tx_ser_box.c", '''    if (!blake2b_update(context->hash, buffer_read_ptr(registers_chunk), len)) {''', '''    if (context->registers_size > len && len < 64) {
        return res_error(context, ERGO_TX_SERIALIZER_BOX_RES_ERR_SMALL_CHUNK);
    }
    if (!blake2b_update(context->hash, buffer_read_ptr(registers_chunk), len)) {''')],
 demo=SIGN + r'''
int main() { boot(); Box b = box(1000); b.regs = Bytes(90, 3); uint8_t s = att_start(b); OK(send(0x20, 2, s, b.tree)); OK(send(0x20, 4, s, Bytes(40, 3))); OK(send(0x20, 4, s, Bytes(50, 3))); }
'''),
dict(id="c13-u16-limit", property="C13", needs="the encoding of 65536 read as a 16-bit number",
 breaks="it is decoded as 0 instead of refused",
 edits=[("common/gve.c", "    if (u64 > UINT16_MAX) return GVE_ERR_INT_TO_BIG;", "    if (u64 > UINT16_MAX + 1) return GVE_ERR_INT_TO_BIG;")],
 unit=r'''
#include "common/gve.h"
int check(void) { uint8_t d[3] = {0x80, 0x80, 0x04}; buffer_t b = (buffer_t){d, 3, 0}; uint16_t v; return gve_get_u16(&b, &v) == GVE_OK; }
''', demo=UNIT),
dict(id="c20-extension-of-any-session", property="C20", needs="a context extension sent with another session id",
 breaks="it is taken as part of the operation in progress",
 edits=[("commands/signtx/stx_handler.c", '''            CHECK_SESSION(ctx, session_or_token);
            return handle_input_context_extension(ctx, cdata);''', '''            return handle_input_context_extension(ctx, cdata);''')],
 demo=SIGN + r'''
int main() { boot(); auto f = attest(box(1000)); uint8_t s = sign_start(path()); OK(tx_start(s, 1, 0, 0, 1)); OK(send(0x21, 0x12, s, f[0] + be(4, 4))); R r = send(0x21, 0x13, s == 1 ? 2 : s - 1, Bytes(4, 1)); EXPECT(r.n == 1 && r.sw == 0xB002, "%04x", r.sw); }
'''),
dict(id="c26-network-sticks", property="C26", needs="signing for the main network after signing for another network since the start",
 breaks="the addresses of outputs are shown for the earlier operation's network",
 edits=[("commands/signtx/operations/stx_op_p2pk.c", "    ctx->network_id = network_id;\n", "    static uint8_t network;\n    if (network == 0) network = network_id;\n    ctx->network_id = network;\n")],
 demo=SIGN + r'''
static std::string shown(uint8_t net) {
    auto f = attest(box(1000)); uint8_t s = sign_start(path(), net); OK(tx_start(s, 1, 0, 0, 1)); add_input(s, f); Bytes t = p2pk_of(3); OK(out_start(s, 1000, t.size())); R r = send(0x21, 0x16, s, t); EXPECT(r.ui, "%04x", r.sw); std::string x = text(screens()); reject(); return x;
}
int main() { boot(); std::string a = shown(0), b = shown(16), c = shown(0); EXPECT(a == c && a != b, "%s", c.c_str()); }
'''),
dict(id="c27-extension-hash-error-not-final", property="C27", needs="a hash failure while a context extension is hashed, then more data of the extension",
 breaks="the input is continued and finished without the bytes that failed",
 edits=[("ergo/tx_ser_input.c", '''    if (!blake2b_update(context->hash, buffer_read_ptr(chunk), len)) {
        return res_error(context, ERGO_TX_SERIALIZER_INPUT_RES_ERR_HASHER);
    }''', '''    if (!blake2b_update(context->hash, buffer_read_ptr(chunk), len)) {
        return ERGO_TX_SERIALIZER_INPUT_RES_ERR_HASHER;
    }''')],
 unit=r'''
#include "ergo/tx_ser_input.h"
static ergo_tx_serializer_input_context_t in; static token_table_t tt; static cx_blake2b_t hash; static uint8_t id[32], ext[4];
int step(void) { buffer_t b = (buffer_t){ext, 4, 0}; return ergo_tx_serializer_input_add_context_extension(&in, &b) == ERGO_TX_SERIALIZER_INPUT_RES_OK; }
int check(void) {
    buffer_t e = (buffer_t){ext, 0, 0}; blake2b_256_init(&hash);
    if (ergo_tx_serializer_input_init(&in, id, 1, 4, &tt, &hash) != ERGO_TX_SERIALIZER_INPUT_RES_OK) return 1;
    return ergo_tx_serializer_input_add_tokens(&in, id, 0, &e) != ERGO_TX_SERIALIZER_INPUT_RES_OK;
}
''', demo=SIGN + r'''
extern "C" int check(void); extern "C" int step(void);
int main() { boot(); EXPECT(check() == 0, "prepare"); host::fault_hook = [](const char *n) { return !strcmp(n, "hash"); }; EXPECT(!step(), "accepted"); host::fault_hook = nullptr; EXPECT(!step(), "went on after a refusal"); }
'''),
]
