
import runpy, os
D = os.path.dirname(os.path.abspath(__file__))
SIGN = runpy.run_path(os.path.join(D, "k.py"))["SIGN"]
UNIT = runpy.run_path(os.path.join(D, "c.py"))["UNIT"]
PK = "commands/signtx/operations/stx_op_p2pk.c"
PLANTS = [
dict(id="c01-equal-data-inputs", property="C01", needs="a transaction with the same data input twice in a row",
 breaks="the repeated data input is missing from the signed message",
 edits=[("ergo/tx_ser_full.c", "    while (buffer_data_len(inputs) > 0) {\n        if (context->data_inputs_count == 0) {", "    const uint8_t* previous = NULL;\n    while (buffer_data_len(inputs) > 0) {\n        const uint8_t* current = buffer_read_ptr(inputs);\n        if (context->data_inputs_count == 0) {"),
        ("ergo/tx_ser_full.c", "        if (!blake2b_update(context->hash, box_id, ERGO_ID_LEN)) {\n            return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_HASHER);\n        }\n        context->data_inputs_count--;", "        // a box is read only once\n        bool repeated = previous != NULL && memcmp(previous, box_id, ERGO_ID_LEN) == 0;\n        if (!repeated && !blake2b_update(context->hash, box_id, ERGO_ID_LEN)) {\n            return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_HASHER);\n        }\n        previous = current;\n        context->data_inputs_count--;")],
 demo=SIGN + r'''
int main() { boot(); Box b = box(1000000); uint8_t s = begin({b}, 2, {}, 1); B32 d = tid(3); Bytes x(d.begin(), d.end()); OK(send(0x21, 0x14, s, x + x)); OK(out_start(s, 1000000, 0)); OK(send(0x21, 0x17, s));
    R r = send(0x21, 0x20, s); EXPECT(r.ui, "no review"); r = approve(); EXPECT(r.sw == 0x9000 && r.data.size() == 56, "%04x", r.sw);
    Tx t; t.in = {{ref::box_id(b), {}}}; t.data = {d, d}; Output o; o.kind = Output::FEE; o.value = 1000000; o.height = 1; t.out = {o}; uint8_t pk[33]; ref::pub33(SEED, path(), pk); EXPECT(ref::signature_ok(r.data, pk, ref::message(t, SEED)), "signature"); puts("fine"); }
'''),
dict(id="c03-repeated-box-not-counted", property="C03", needs="a transaction that names the same box in two inputs one after the other",
 breaks="the totals on the final screen leave the second input out although its id is signed",
 edits=[(PK, "    // Add new input\n    CHECK_TX_CALL_RESULT_OK(ctx,", "    // The coins of a box can be moved only once\n    bool repeated = ctx->state == SIGN_TRANSACTION_OPERATION_P2PK_STATE_INPUTS_STARTED &&\n                    memcmp(ctx->transaction.tx.input_ctx.box_id, box_id, ERGO_ID_LEN) == 0;\n    // Add new input\n    CHECK_TX_CALL_RESULT_OK(ctx,"),
        (PK, "    CHECK_CALL_RESULT_SW_OK(ctx, stx_amounts_add_input(&ctx->amounts, erg_amount));", "    if (!repeated) {\n        CHECK_CALL_RESULT_SW_OK(ctx, stx_amounts_add_input(&ctx->amounts, erg_amount));\n    }")],
 demo=SIGN + r'''
int main() { boot(); Box b = box(1000000); uint8_t s = begin({b, b}, 0, {}, 1); OK(out_start(s, 500000, 0)); OK(send(0x21, 0x17, s));
    R r = send(0x21, 0x20, s); EXPECT(r.ui, "no review"); std::string t = text(screens()); EXPECT(t.find("Transaction Amount=0.001500000 ERG") != std::string::npos, "%s", t.c_str()); puts("fine"); }
'''),
dict(id="c07-own-address-unreviewed", property="C25", needs="an output whose script is given in full and pays to the key that signs",
 breaks="an output with an explicit script skips the review",
 edits=[(PK, "    // Change address\n    if (stx_output_info_type(", "    // The coins come back to the signer\n    if (stx_output_info_type(&ctx->transaction.ui.output) ==\n        SIGN_TRANSACTION_OUTPUT_INFO_TYPE_ADDRESS) {\n        uint8_t own[PUBLIC_KEY_LEN];\n        if (crypto_generate_public_key(ctx->bip32.path, ctx->bip32.len, own, NULL) == 0 &&\n            memcmp(own + 1, ctx->transaction.ui.output.public_key + 1, 32) == 0)\n            return false;\n    }\n    // Change address\n    if (stx_output_info_type(")],
 demo=SIGN + r'''
int main() { boot(); Box b = box(1000000); uint8_t s = begin({b}, 0, {}, 1); uint8_t pk[33]; ref::pub33(SEED, path(), pk); Bytes t = ref::p2pk_tree(pk); OK(out_start(s, 1000000, t.size())); R r = send(0x21, 0x16, s, t); EXPECT(r.ui, "no review of the output: %04x", r.sw); puts("fine"); }
'''),
dict(id="c03-fee-script-as-fee", property="C03", needs="an output whose script bytes are those of the miners fee contract",
 breaks="the output is counted as the fee and subtracted from the amount",
 edits=[("ergo/tx_ser_box.c", "    context->tree_chunk_added = true;\n    context->ergo_tree_size -= len;\n    if (context->ergo_tree_size == 0) {\n        context->type = ERGO_TX_SERIALIZER_BOX_TYPE_TREE;\n", "    const uint8_t* fee_tree;\n    size_t fee_tree_len = 0;\n    ergo_tree_miners_fee_tree(true, &fee_tree, &fee_tree_len);\n    bool is_fee = !context->tree_chunk_added && len == fee_tree_len &&\n                  memcmp(buffer_read_ptr(tree_chunk) - len, fee_tree, len) == 0;\n    context->tree_chunk_added = true;\n    context->ergo_tree_size -= len;\n    if (context->ergo_tree_size == 0) {\n        context->type = is_fee ? ERGO_TX_SERIALIZER_BOX_TYPE_FEE : ERGO_TX_SERIALIZER_BOX_TYPE_TREE;\n")],
 demo=SIGN + r'''
int main() { boot(); Box b = box(1000000); uint8_t s = begin({b}, 0, {}, 1); Bytes t = ref::fee_tree; OK(out_start(s, 400000, t.size())); R r = send(0x21, 0x16, s, t); EXPECT(r.ui, "no review"); r = approve(); EXPECT(r.sw == 0x9000, "%04x", r.sw);
    r = send(0x21, 0x20, s); EXPECT(r.ui, "no review"); std::string x = text(screens()); EXPECT(x.find("Transaction Amount=0.001000000 ERG;Transaction Fee=0.000000000 ERG") != std::string::npos, "%s", x.c_str()); puts("fine"); }
'''),
dict(id="c07-same-output-again", property="C25", needs="two outputs of one transaction with the same P2PK address and the same value",
 breaks="the second output is not reviewed",
 edits=[("commands/signtx/operations/stx_op_p2pk.h", "    sign_transaction_bip32_path_t last_approved_change;\n} sign_transaction_operation_p2pk_transaction_ctx_t;", "    sign_transaction_bip32_path_t last_approved_change;\n    uint8_t last_approved_key[COMPRESSED_PUBLIC_KEY_LEN];\n    uint64_t last_approved_value;\n} sign_transaction_operation_p2pk_transaction_ctx_t;"),
        (PK, "    // Change address\n    if (stx_output_info_type(", "    // Do not ask the same question twice\n    if (stx_output_info_type(&ctx->transaction.ui.output) ==\n        SIGN_TRANSACTION_OUTPUT_INFO_TYPE_ADDRESS) {\n        if (ctx->transaction.last_approved_value == ctx->transaction.ui.output.value &&\n            memcmp(ctx->transaction.last_approved_key,\n                   ctx->transaction.ui.output.public_key,\n                   COMPRESSED_PUBLIC_KEY_LEN) == 0)\n            return false;\n        ctx->transaction.last_approved_value = ctx->transaction.ui.output.value;\n        memmove(ctx->transaction.last_approved_key,\n                ctx->transaction.ui.output.public_key,\n                COMPRESSED_PUBLIC_KEY_LEN);\n    }\n    // Change address\n    if (stx_output_info_type(")],
 demo=SIGN + r'''
int main() { boot(); Box b = box(1000000); uint8_t s = begin({b}, 0, {}, 2); Bytes t = p2pk_of(9); for (int i = 0; i < 2; i++) { OK(out_start(s, 500000, t.size())); R r = send(0x21, 0x16, s, t); EXPECT(r.ui, "no review of output %d: %04x", i, r.sw); r = approve(); EXPECT(r.sw == 0x9000, "%04x", r.sw); } puts("fine"); }
'''),
dict(id="c11-repeated-chunk", property="C11", needs="a script of at least two chunks of 255 bytes with the same contents",
 breaks="the second of two equal chunks is dropped, so the script cannot be completed",
 edits=[("ergo/tx_ser_box.h", "    bool tree_chunk_added;\n", "    bool tree_chunk_added;\n    uint8_t last_chunk[8];\n"),
        ("ergo/tx_ser_box.c", "    if (!blake2b_update(context->hash, buffer_read_ptr(tree_chunk), len)) {\n        return res_error(context, ERGO_TX_SERIALIZER_BOX_RES_ERR_HASHER);\n    }\n    if (!buffer_seek_cur(tree_chunk, len)) {\n        return res_error(context, ERGO_TX_SERIALIZER_BOX_RES_ERR_BUFFER);\n    }\n    context->tree_chunk_added = true;", "    if (context->ergo_tree_size > len) {\n        // the transport repeats a chunk when its answer is lost\n        if (context->tree_chunk_added &&\n            memcmp(context->last_chunk, buffer_read_ptr(tree_chunk), 8) == 0) {\n            return ERGO_TX_SERIALIZER_BOX_RES_MORE_DATA;\n        }\n        memcpy(context->last_chunk, buffer_read_ptr(tree_chunk), 8);\n    }\n    if (!blake2b_update(context->hash, buffer_read_ptr(tree_chunk), len)) {\n        return res_error(context, ERGO_TX_SERIALIZER_BOX_RES_ERR_HASHER);\n    }\n    if (!buffer_seek_cur(tree_chunk, len)) {\n        return res_error(context, ERGO_TX_SERIALIZER_BOX_RES_ERR_BUFFER);\n    }\n    context->tree_chunk_added = true;")],
 demo=SIGN + r'''
int main() { boot(); Box b = box(1000000); b.tree = Bytes(600, 5); uint8_t s = att_start(b); EXPECT(att_body(s, b, 255) == 1, "frames"); puts("fine"); }
'''),
dict(id="c03-output-of-everything", property="C03", needs="an output to a script whose value is all that is left of the inputs, after a change output",
 breaks="the amount on the final screen is zero",
 edits=[("commands/signtx/stx_amounts.c", "            // Do nothing\n            break;", "            // Coins that move in one piece are shown with the output\n            if (value == ctx->value && ctx->fee > 0) ctx->value = 0;\n            break;")],
 demo=SIGN + r'''
int main() { boot(); Box b = box(1000000); uint8_t s = begin({b}, 0, {}, 2); OK(out_start(s, 100000, 0)); OK(send(0x21, 0x17, s)); Bytes t = p2pk_of(9); OK(out_start(s, 900000, t.size())); R r = send(0x21, 0x16, s, t); EXPECT(r.ui, "no review"); approve();
    r = send(0x21, 0x20, s); EXPECT(r.ui, "no review"); std::string x = text(screens()); EXPECT(x.find("Transaction Amount=0.000900000 ERG") != std::string::npos, "%s", x.c_str()); puts("fine"); }
'''),
dict(id="c03-minted-token-hidden", property="C03", needs="an output token whose id is the id of the first input box, as when a token is minted",
 breaks="the final screen does not show that the token is minted",
 edits=[("commands/signtx/operations/stx_op_p2pk.h", "    uint8_t network_id;\n    sign_transaction_amounts_ctx_t amounts;", "    uint8_t network_id;\n    uint8_t first_box_id[ERGO_ID_LEN];\n    sign_transaction_amounts_ctx_t amounts;"),
        (PK, "    // Add token callbacks (add_input recreated context)\n", "    if (ctx->state == SIGN_TRANSACTION_OPERATION_P2PK_STATE_TX_STARTED) {\n        memmove(ctx->first_box_id, box_id, ERGO_ID_LEN);\n    }\n    // Add token callbacks (add_input recreated context)\n"),
        (PK, "    return stx_amounts_add_output_token(&ctx->amounts, type, token_id, value);", "    // A token named after the first input is new: nothing is taken for it\n    if (memcmp(token_id, ctx->first_box_id, ERGO_ID_LEN) == 0) return res;\n    return stx_amounts_add_output_token(&ctx->amounts, type, token_id, value);")],
 demo=SIGN + r'''
int main() { boot(); Box b = box(1000000); B32 id; auto x = ref::box_id(b); std::copy(x.begin(), x.end(), id.begin()); uint8_t s = begin({b}, 0, {id}, 1); Bytes t = p2pk_of(9); OK(out_start(s, 1000000, t.size(), 1, 1)); OK(send(0x21, 0x16, s, t)); R r = send(0x21, 0x19, s, otok({{0, 77}})); EXPECT(r.ui, "no review"); approve();
    r = send(0x21, 0x20, s); EXPECT(r.ui, "no review"); std::string y = text(screens()); EXPECT(y.find("Minting: 77") != std::string::npos, "%s", y.c_str()); puts("fine"); }
'''),
]
