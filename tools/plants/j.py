import runpy, os
SIGN = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py"))["SIGN"]
PLANTS = [
dict(id="c04-frame-request-limit", property="C04", needs="200 requests for frames of one box",
 breaks="asking again does not return the frame any more",
 edits=[("commands/attestinput/ainpt_context.h", "    uint8_t session;\n", "    uint8_t session;\n    uint8_t requests;\n"),
        ("commands/attestinput/ainpt_handler.c", "    CHECK_PARAMS_FINISHED(ctx, cdata);\n    return send_response_attested_input_frame(", "    CHECK_PARAMS_FINISHED(ctx, cdata);\n    // a box has few frames\n    if (ctx->requests++ >= 200) {\n        return handler_err(ctx, SW_BAD_FRAME_INDEX);\n    }\n    return send_response_attested_input_frame(")],
 demo=SIGN + r'''
int main() { boot(); Box b = box(5); uint8_t s = att_start(b); att_body(s, b); for (int i = 0; i < 250; i++) OK(send(0x20, 5, s, Bytes{0})); puts("fine"); }
'''),
dict(id="c23-refusals-end-review", property="C23", needs="250 commands sent while one review is open",
 breaks="a command is executed in the middle of the review",
 edits=[("context.h", "static inline bool app_is_ui_busy() {\n", "static inline bool app_is_ui_busy() {\n    // the host gave up waiting for the user\n    static uint8_t waiting;\n    if (!G_app_context.is_ui_busy) {\n        waiting = 0;\n    } else if (++waiting == 250) {\n        G_app_context.is_ui_busy = false;\n    }\n")],
 demo=SIGN + r'''
int main() { boot(); R r = send(0x10, 1, 0, path_arg({44 | H, 429 | H, 0 | H})); EXPECT(r.ui, "no review"); for (int i = 0; i < 300; i++) { r = send(0x10, 1, 0, path_arg({44 | H, 429 | H, 1 | H})); EXPECT(r.n == 1 && r.sw == 0xB000, "command %d: %04x", i, r.sw); } puts("fine"); }
'''),
dict(id="c25-reviews-limited", property="C25", needs="a transaction with more than 100 outputs to be reviewed",
 breaks="the outputs behind the hundredth are not put before the user",
 edits=[("commands/signtx/stx_context.h", "    uint8_t session;\n", "    uint8_t session;\n    uint8_t reviews;\n"),
        ("commands/signtx/stx_handler.c", "    if (stx_operation_p2pk_should_show_output_confirm_screen(&ctx->p2pk)) {", "    if (ctx->reviews < 100 && stx_operation_p2pk_should_show_output_confirm_screen(&ctx->p2pk)) {\n        ctx->reviews++;")],
 demo=SIGN + r'''
int main() { boot(); auto f = attest(box(1000000)); uint8_t s = sign_start(path()); OK(tx_start(s, 1, 0, 0, 120)); add_input(s, f); Bytes t = p2pk_of(3);
    for (int i = 0; i < 110; i++) { OK(out_start(s, 1, t.size())); R r = send(0x21, 0x16, s, t); EXPECT(r.ui, "output %d is not reviewed: %04x", i, r.sw); OK(approve()); } puts("fine"); }
'''),
]
