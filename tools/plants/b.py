import runpy, os
SIGN = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py"))["SIGN"]
PLANTS = [
dict(id="c16-nonce-reduced", property="C16", needs="a random generator output of zero or the group order and above at the start of a signing session",
 breaks="the nonce is the reduction of an unusable candidate instead of a fresh one, so it is not uniform",
 edits=[("ergo/schnorr.c", '''            if (cx_math_is_zero(key, PRIVATE_KEY_LEN)) break;
            if (cx_math_cmp_no_throw(key, PIC(SECP256K1_N), PRIVATE_KEY_LEN, &cmp_diff) != 0 ||
                cmp_diff > 0)
                break;''', '''            if (cx_math_cmp_no_throw(key, PIC(SECP256K1_N), PRIVATE_KEY_LEN, &cmp_diff) != 0) break;
            if (cmp_diff > 0 && cx_math_modm_no_throw(key,
                                                      PRIVATE_KEY_LEN,
                                                      PIC(SECP256K1_N),
                                                      PRIVATE_KEY_LEN) != 0)
                break;
            if (cx_math_is_zero(key, PRIVATE_KEY_LEN)) break;''')],
 demo=SIGN + r'''
int main() {
    boot(); static int k = 0; auto good = host::rng; Bytes big(32, 0); prim::u256_to_be(prim::N, big.data()); big[31] += 7; static Bytes given;
    host::rng = [good, big](uint8_t *p, size_t n) { good(p, n); if (n == 32 && k++ == 0) memcpy(p, big.data(), 32); given.insert(given.end(), p, p + n); };
    uint8_t s = begin({box(1000000)}, 0, {}, 1); OK(out_start(s, 1000000, 0)); OK(send(0x21, 0x17, s)); R r = OK(go(0x21, 0x20, s)); EXPECT(r.data.size() == 56, "signature");
    uint8_t cb[32] = {0}, y[32]; memcpy(cb + 8, r.data.data(), 24); prim::U256 c = prim::u256_from_be(cb), z = prim::u256_from_be(r.data.data() + 24), sk = prim::u256_from_be(prim::bip32(SEED, path()).d);
    prim::u256_to_be(prim::submod(z, prim::mulmod(c, sk, prim::N), prim::N), y);
    auto at = std::search(given.begin(), given.end(), y, y + 32); EXPECT(at != given.end(), "nonce %s was not drawn", prim::hex(y, 32).c_str());
}
'''),
dict(id="c16-nonce-kept-after-rejection", property="C16", needs="a signing session that ends by rejection or an error, then a look at the memory",
 breaks="the nonce drawn for the operation stays in memory after the operation has ended",
 edits=[("context.c", "    explicit_bzero(&G_app_context.commands_ctx, MEMBER_SIZE(app_ctx_t, commands_ctx));", '''    // the context is cleared when the next command takes it over
    if (current_command != CMD_NONE) {
        explicit_bzero(&G_app_context.commands_ctx, MEMBER_SIZE(app_ctx_t, commands_ctx));
    }''')],
 demo=SIGN + r'''
extern "C" unsigned char __bss_start[], _end[], __data_start[];
int main() {
    boot(); static std::vector<Bytes> given; auto good = host::rng; host::rng = [good](uint8_t *p, size_t n) { good(p, n); if (n == 32) given.push_back(Bytes(p, p + n)); };
    uint8_t s = begin({box(1000000)}, 0, {}, 1); OK(out_start(s, 1000000, 0)); OK(send(0x21, 0x17, s)); R r = send(0x21, 0x20, s); EXPECT(r.ui, "no review"); r = reject(); EXPECT(r.sw == 0x6985, "%04x", r.sw);
    EXPECT(!given.empty(), "no nonce"); host::responses.clear();
    for (auto &g : given) { unsigned char *p = std::search(__data_start, _end, g.begin(), g.end()); EXPECT(p == _end, "the nonce is still in memory"); }
}
'''),
dict(id="c21-only-last-token-hash-checked", property="C21", needs="a hashing call that fails on a token id other than the last one of the transaction",
 breaks="the device goes on and signs a message that lacks a token id",
 edits=[("ergo/tx_ser_table.c", '''    for (uint8_t i = 0; i < context->distinct_tokens_count; i++) {
        if (!blake2b_update(hash, context->tokens_table->tokens[i], ERGO_ID_LEN)) {
            return ERGO_TX_SERIALIZER_TABLE_RES_ERR_HASHER;
        }
    }
    return ERGO_TX_SERIALIZER_TABLE_RES_OK;''', '''    ergo_tx_serializer_table_result_e res = ERGO_TX_SERIALIZER_TABLE_RES_OK;
    for (uint8_t i = 0; i < context->distinct_tokens_count; i++) {
        res = blake2b_update(hash, context->tokens_table->tokens[i], ERGO_ID_LEN)
                  ? ERGO_TX_SERIALIZER_TABLE_RES_OK
                  : ERGO_TX_SERIALIZER_TABLE_RES_ERR_HASHER;
    }
    return res;''')],
 demo=SIGN + r'''
static uint64_t calls, bad;
int main() {
    uint64_t total = 0;
    for (bad = 0; bad == 0 || bad <= total; bad++) {
        boot(); Box b = box(1000000, {{tid(1), 5}, {tid(2), 6}}); auto f = attest(b); uint8_t s = sign_start(path()); OK(tx_start(s, 1, 0, 2, 1)); OK(tx_tokens(s, {tid(1), tid(2)}));
        calls = 0; host::fault_hook = [](const char *) { return bad && ++calls == bad; };
        if (!bad) { host::fault_hook = [](const char *) { ++calls; return false; }; }
        R r = send(0x21, 0x12, s, f[0] + be(0, 4)); if (r.sw == 0x9000) r = out_start(s, 1000000, 0); if (r.sw == 0x9000) r = send(0x21, 0x17, s); if (r.sw == 0x9000) r = go(0x21, 0x20, s);
        host::fault_hook = nullptr; if (!bad) total = calls;
        if (r.sw != 0x9000) { EXPECT(bad && r.data.empty(), "%04x", r.sw); continue; }
        Tx t; Input i; i.box.id = ref::box_id(b); t.in = {i}; t.tokens = {tid(1), tid(2)}; Output o; o.kind = Output::FEE; o.value = 1000000; o.height = 1; t.out = {o};
        uint8_t pk[33]; ref::pub33(SEED, path(), pk); EXPECT(ref::signature_ok(r.data, pk, ref::message(t, SEED)), "platform call %u failed, and a signature of something else was released", (unsigned) bad);
    }
}
'''),
dict(id="c21-public-key-error-dropped", property="C21", needs="the public key computation failing on the platform",
 breaks="an extended public key made of unwritten bytes is released",
 edits=[("helpers/crypto.c", "        result = crypto_init_public_key(&private_key, &public_key, raw_public_key);", "        crypto_init_public_key(&private_key, &public_key, raw_public_key);")],
 demo=r'''
int main() {
    boot(); Path p{44 | H, 429 | H, 0 | H}; Bytes good = OK(go(0x10, 1, 0, path_arg(p))).data;
    for (int k = 0; k < 3; k++) {
        static int left; left = k; host::fault_hook = [](const char *n) { return !strcmp(n, "generate_pair") && left-- == 0; };
        R r = go(0x10, 1, 0, path_arg(p)); host::fault_hook = nullptr; EXPECT(r.sw != 0x9000 ? r.data.empty() : r.data == good, "failed call %d: released %s", k, prim::hex(r.data).c_str());
    }
}
'''),
]
