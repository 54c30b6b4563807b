From a81597cf7bbcaec6bc5c545c251c9990596a0f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 01/16] fix: compare whole BIP32 path components, not just
 their first bytes

---
 src/common/bip32_ext.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/bip32_ext.h b/src/common/bip32_ext.h
index 9436c99..ed41db4 100644
--- a/src/common/bip32_ext.h
+++ b/src/common/bip32_ext.h
@@ -26,7 +26,7 @@ static inline bool bip32_path_is_equal(const uint32_t *bip32_path_1,
                                        const uint32_t *bip32_path_2,
                                        uint8_t bip32_path_2_len) {
     return bip32_path_1_len == bip32_path_2_len &&
-           memcmp(bip32_path_1, bip32_path_2, bip32_path_1_len) == 0;
+           memcmp(bip32_path_1, bip32_path_2, bip32_path_1_len * sizeof(uint32_t)) == 0;
 }
 
 static inline bool bip32_path_same_account(const uint32_t *bip32_path_1,
@@ -34,5 +34,5 @@ static inline bool bip32_path_same_account(const uint32_t *bip32_path_1,
                                            const uint32_t *bip32_path_2,
                                            uint8_t bip32_path_2_len) {
     return bip32_path_1_len >= 3 && bip32_path_2_len >= 3 &&
-           memcmp(bip32_path_1, bip32_path_2, 3) == 0;
+           memcmp(bip32_path_1, bip32_path_2, 3 * sizeof(uint32_t)) == 0;
 }
\ No newline at end of file
-- 
2.43.0


From 3985374f6ae50f201db0e0d040b6e972d1e75037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 02/16] fix: refuse duplicate ids in the transaction's token
 table

---
 src/ergo/tx_ser_table.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ergo/tx_ser_table.c b/src/ergo/tx_ser_table.c
index bf9648b..e3fdba3 100644
--- a/src/ergo/tx_ser_table.c
+++ b/src/ergo/tx_ser_table.c
@@ -7,9 +7,15 @@ static inline ergo_tx_serializer_table_result_e parse_token(buffer_t* tokens,
     if (table->count >= tokens_max) {
         return ERGO_TX_SERIALIZER_TABLE_RES_ERR_TOO_MANY_TOKENS;
     }
-    if (!buffer_read_bytes(tokens, table->tokens[table->count++], ERGO_ID_LEN)) {
+    uint8_t* token_id = table->tokens[table->count];
+    if (!buffer_read_bytes(tokens, token_id, ERGO_ID_LEN)) {
         return ERGO_TX_SERIALIZER_TABLE_RES_ERR_BAD_TOKEN_ID;
     }
+    // token ids of the transaction should be distinct
+    if (token_table_find_token_index(table, token_id) != INDEX_NOT_EXIST) {
+        return ERGO_TX_SERIALIZER_TABLE_RES_ERR_BAD_TOKEN_ID;
+    }
+    table->count++;
     return ERGO_TX_SERIALIZER_TABLE_RES_OK;
 }
 
-- 
2.43.0


From cae9d6c436a973c3d8f876ae7ca940c71e05f7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 03/16] fix: refuse a new output box while the previous one is
 incomplete

---
 src/ergo/tx_ser_full.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ergo/tx_ser_full.c b/src/ergo/tx_ser_full.c
index fea3889..57c6f1b 100644
--- a/src/ergo/tx_ser_full.c
+++ b/src/ergo/tx_ser_full.c
@@ -133,6 +133,7 @@ data_inputs_finished(ergo_tx_serializer_full_context_t* context) {
         return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_HASHER);
     }
     context->state = ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED;
+    context->box_ctx.state = ERGO_TX_SERIALIZER_BOX_STATE_FINISHED;
     return ERGO_TX_SERIALIZER_FULL_RES_OK;
 }
 
@@ -297,6 +298,9 @@ ergo_tx_serializer_full_result_e ergo_tx_serializer_full_add_box(
     uint8_t tokens_count,
     uint32_t registers_size) {
     CHECK_PROPER_STATE(context, ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED);
+    if (!ergo_tx_serializer_box_is_finished(&context->box_ctx)) {
+        return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_BAD_STATE);
+    }
     if (context->outputs_count == 0) {
         return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_TOO_MANY_OUTPUTS);
     }
-- 
2.43.0


From da66d929b638f170adcf7f9ba31b169a9e62dff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 04/16] fix: accept fee and change trees only for outputs
 without ergo tree data

---
 src/commands/signtx/operations/stx_op_p2pk.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/commands/signtx/operations/stx_op_p2pk.c b/src/commands/signtx/operations/stx_op_p2pk.c
index bc85891..166333d 100644
--- a/src/commands/signtx/operations/stx_op_p2pk.c
+++ b/src/commands/signtx/operations/stx_op_p2pk.c
@@ -22,6 +22,12 @@
         ctx->state = SIGN_TRANSACTION_OPERATION_P2PK_STATE_TX_FINISHED; \
     }
 
+// Miners fee and change trees can be added only if tree size of the box is 0
+#define CHECK_NO_TREE_DATA_EXPECTED(_ctx)                     \
+    if (_ctx->transaction.tx.box_ctx.ergo_tree_size != 0) {   \
+        return handler_err(_ctx, SW_BAD_STATE);               \
+    }
+
 static inline uint16_t handler_err(sign_transaction_operation_p2pk_ctx_t *ctx, uint16_t err) {
     ctx->state = SIGN_TRANSACTION_OPERATION_P2PK_STATE_ERROR;
     app_set_current_command(CMD_NONE);
@@ -245,6 +251,7 @@ uint16_t stx_operation_p2pk_add_output_tree_chunk(sign_transaction_operation_p2p
 
 uint16_t stx_operation_p2pk_add_output_tree_fee(sign_transaction_operation_p2pk_ctx_t *ctx) {
     CHECK_PROPER_STATE(ctx, SIGN_TRANSACTION_OPERATION_P2PK_STATE_OUTPUTS_STARTED);
+    CHECK_NO_TREE_DATA_EXPECTED(ctx);
     CHECK_TX_CALL_RESULT_OK(
         ctx,
         ergo_tx_serializer_full_add_box_miners_fee_tree(&ctx->transaction.tx,
@@ -259,6 +266,7 @@ uint16_t stx_operation_p2pk_add_output_tree_change(sign_transaction_operation_p2
                                                    uint8_t path_len,
                                                    const uint8_t pub_key[static PUBLIC_KEY_LEN]) {
     CHECK_PROPER_STATE(ctx, SIGN_TRANSACTION_OPERATION_P2PK_STATE_OUTPUTS_STARTED);
+    CHECK_NO_TREE_DATA_EXPECTED(ctx);
     CHECK_TX_CALL_RESULT_OK(
         ctx,
         ergo_tx_serializer_full_add_box_change_tree(&ctx->transaction.tx, pub_key));
-- 
2.43.0


From 611e334d14709d3576027afe47d33b8ca0a13413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 05/16] fix: refuse data in version and name commands as
 documented

---
 src/apdu_dispatcher.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/apdu_dispatcher.c b/src/apdu_dispatcher.c
index b81a665..f786985 100644
--- a/src/apdu_dispatcher.c
+++ b/src/apdu_dispatcher.c
@@ -26,11 +26,17 @@ int apdu_dispatcher(const command_t *cmd) {
             if (cmd->p1 != 0 || cmd->p2 != 0) {
                 return io_send_sw(SW_WRONG_P1P2);
             }
+            if (cmd->lc != 0) {
+                return io_send_sw(SW_WRONG_APDU_DATA_LENGTH);
+            }
             return handler_get_version();
         case CMD_GET_APP_NAME:
             if (cmd->p1 != 0 || cmd->p2 != 0) {
                 return io_send_sw(SW_WRONG_P1P2);
             }
+            if (cmd->lc != 0) {
+                return io_send_sw(SW_WRONG_APDU_DATA_LENGTH);
+            }
             return handler_get_app_name();
         case CMD_GET_EXTENDED_PUBLIC_KEY:
             if (cmd->p1 == 0 || cmd->p1 > 2 || cmd->p2 > 0) {
-- 
2.43.0


From 993c4d592f56e61ef4cdc53ac608ceaeeaa256b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 06/16] fix: decode every 32-bit signed value that gve_put_i32
 encodes

---
 src/common/gve.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/gve.c b/src/common/gve.c
index 5e60469..b4d81ea 100644
--- a/src/common/gve.c
+++ b/src/common/gve.c
@@ -32,7 +32,8 @@ gve_result_e gve_get_i32(buffer_t *buffer, int32_t *val) {
     gve_result_e res;
     *val = 0;
     if ((res = gve_get_u64(buffer, &u64)) != GVE_OK) return res;
-    if (u64 > 0xFFFFFFFFULL) return GVE_ERR_INT_TO_BIG;
+    // encoded value is sign-extended to 64 bits (see zigzag_encode_i32)
+    if (u64 > 0xFFFFFFFFULL && u64 < 0xFFFFFFFF80000000ULL) return GVE_ERR_INT_TO_BIG;
     *val = zigzag_decode_i32(u64);
     return GVE_OK;
 }
-- 
2.43.0


From 2e024d9df879ba0283692261df11b1ae46669541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 07/16] fix: refuse unterminated and too big variable length
 integers

---
 src/common/gve.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/common/gve.c b/src/common/gve.c
index b4d81ea..2445424 100644
--- a/src/common/gve.c
+++ b/src/common/gve.c
@@ -66,12 +66,13 @@ gve_result_e gve_get_u64(buffer_t *buffer, uint64_t *val) {
         if ((res = gve_get_u8(buffer, &byte)) != GVE_OK) break;
         *val |= (uint64_t) (byte & 0x7F) << shift;
         if ((byte & 0x80) == 0) {
-            res = GVE_OK;
-            break;
+            // only one bit of the last byte fits into 64 bits
+            return shift == 63 && byte > 1 ? GVE_ERR_INT_TO_BIG : GVE_OK;
         }
         shift += 7;
     }
-    return res;
+    // unterminated encoding
+    return res == GVE_OK ? GVE_ERR_INT_TO_BIG : res;
 }
 
 gve_result_e gve_put_u64(rw_buffer_t *buffer, uint64_t val) {
-- 
2.43.0


From 6d3ff41b28634d1030472a444ed3d33231b6309a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 08/16] fix: avoid signed overflow when negating the smallest
 token balance

---
 src/commands/signtx/stx_ui.c | 2 +-
 src/common/safeint.h         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/commands/signtx/stx_ui.c b/src/commands/signtx/stx_ui.c
index a8e26de..c79cd60 100644
--- a/src/commands/signtx/stx_ui.c
+++ b/src/commands/signtx/stx_ui.c
@@ -334,7 +334,7 @@ static NOINLINE uint16_t ui_stx_display_tx_state(uint8_t screen,
                 int64_t value = ctx->amounts->tokens[token_idx];
                 if (value < 0) {  // output > inputs
                     STRING_ADD_STATIC_TEXT(text, text_len, "Minting: ");
-                    format_u64(text, text_len, -value);
+                    format_u64(text, text_len, -(uint64_t) value);
                 } else {  // inputs > outputs
                     STRING_ADD_STATIC_TEXT(text, text_len, "Burning: ");
                     format_u64(text, text_len, value);
diff --git a/src/common/safeint.h b/src/common/safeint.h
index e3c1ab0..142d01e 100644
--- a/src/common/safeint.h
+++ b/src/common/safeint.h
@@ -18,7 +18,7 @@ static inline bool checked_sub_u64(uint64_t l, uint64_t r, uint64_t* out) {
 static inline bool checked_add_i64(int64_t l, uint64_t r, int64_t* out) {
     if (l < 0) {
         // If r is so big that even without "l" it will overflow int64_t.
-        if (r >= (uint64_t) -l && r + l > INT64_MAX) return false;
+        if (r >= -(uint64_t) l && r + l > INT64_MAX) return false;
     } else {
         // if r is bigger than int64_t or r + l is bigger than int64_t.
         if (r > INT64_MAX || INT64_MAX - r < (uint64_t) l) return false;
-- 
2.43.0


From 67b7e18f64fd334d93f0585d955f910025abd97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 09/16] fix: keep the box serializer failed after a truncated
 token index

---
 src/ergo/tx_ser_box.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ergo/tx_ser_box.c b/src/ergo/tx_ser_box.c
index 656ddf6..bfa77ff 100644
--- a/src/ergo/tx_ser_box.c
+++ b/src/ergo/tx_ser_box.c
@@ -206,7 +206,7 @@ ergo_tx_serializer_box_result_e ergo_tx_serializer_box_add_tokens(
             }
         } else {
             if (!buffer_read_u32(input, &token_id.index, BE)) {
-                return ERGO_TX_SERIALIZER_BOX_RES_ERR_BAD_TOKEN_INDEX;
+                return res_error(context, ERGO_TX_SERIALIZER_BOX_RES_ERR_BAD_TOKEN_INDEX);
             }
             // index should be inside table
             if (token_id.index >= table->distinct_tokens_count) {
-- 
2.43.0


From 62cf053849894114565d53b86d3160ee2b9b491c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 10/16] fix: keep the review usable when a path screen without
 action is clicked

---
 src/ui/ui_bip32_path.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ui/ui_bip32_path.c b/src/ui/ui_bip32_path.c
index f00a50d..4792903 100644
--- a/src/ui/ui_bip32_path.c
+++ b/src/ui/ui_bip32_path.c
@@ -9,8 +9,6 @@ void ux_bip32_path_validate_init(unsigned int stack_slot) {
     UNUSED(stack_slot);
     if (G_ui_bip32_approve_callback != NULL) {
         G_ui_bip32_approve_callback(G_ui_bip32_approve_callback_context);
-    } else {
-        ux_flow_next();
     }
 }
 
@@ -26,6 +24,14 @@ const ux_flow_step_t ux_bip32_path_step = {
     NULL,
 };
 
+// The same screen without approval. The review should not be left when it is clicked.
+const ux_flow_step_t ux_bip32_path_info_step = {
+    ux_layout_bnnn_paging_init,
+    G_ui_path_params,
+    NULL,
+    NULL,
+};
+
 const ux_flow_step_t* ui_bip32_path_screen(uint32_t* path,
                                            uint8_t path_len,
                                            const char* title,
@@ -41,5 +47,5 @@ const ux_flow_step_t* ui_bip32_path_screen(uint32_t* path,
     }
     G_ui_bip32_approve_callback = cb;
     G_ui_bip32_approve_callback_context = cb_context;
-    return &ux_bip32_path_step;
+    return cb != NULL ? &ux_bip32_path_step : &ux_bip32_path_info_step;
 }
\ No newline at end of file
-- 
2.43.0


From e363e7428b9b2b5868003b38ca22271402909014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 11/16] fix: refuse paths that do not fit the screen text
 instead of showing them cut

---
 src/commands/signtx/operations/stx_op_p2pk.c |  2 +-
 src/commands/signtx/stx_ui.c                 |  8 ++++----
 src/common/bip32_ext.c                       | 20 +++++++++++++++++++-
 src/common/bip32_ext.h                       |  9 +++++++++
 src/ui/ui_bip32_path.c                       |  2 +-
 5 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/commands/signtx/operations/stx_op_p2pk.c b/src/commands/signtx/operations/stx_op_p2pk.c
index 166333d..3952078 100644
--- a/src/commands/signtx/operations/stx_op_p2pk.c
+++ b/src/commands/signtx/operations/stx_op_p2pk.c
@@ -429,7 +429,7 @@ static NOINLINE uint16_t ui_stx_operation_p2pk_show_tx_screen(uint8_t index,
     sign_transaction_operation_p2pk_ctx_t *ctx = (sign_transaction_operation_p2pk_ctx_t *) cb_ctx;
     if (index != 0) return SW_BAD_STATE;
     strncpy(title, "P2PK Path", title_len);
-    if (!bip32_path_format(ctx->bip32.path, ctx->bip32.len, text, text_len)) {
+    if (!bip32_path_format_full(ctx->bip32.path, ctx->bip32.len, text, text_len)) {
         return SW_BIP32_FORMATTING_FAILED;
     }
     return SW_OK;
diff --git a/src/commands/signtx/stx_ui.c b/src/commands/signtx/stx_ui.c
index c79cd60..d38ed4a 100644
--- a/src/commands/signtx/stx_ui.c
+++ b/src/commands/signtx/stx_ui.c
@@ -125,10 +125,10 @@ static inline uint16_t output_info_print_address(const sign_transaction_output_i
     switch (stx_output_info_type(ctx)) {
         case SIGN_TRANSACTION_OUTPUT_INFO_TYPE_BIP32: {
             strncpy(title, "Change", title_len);
-            if (!bip32_path_format(ctx->bip32_path.path,
-                                   ctx->bip32_path.len,
-                                   address,
-                                   address_len)) {
+            if (!bip32_path_format_full(ctx->bip32_path.path,
+                                        ctx->bip32_path.len,
+                                        address,
+                                        address_len)) {
                 return SW_BIP32_FORMATTING_FAILED;
             }
             break;
diff --git a/src/common/bip32_ext.c b/src/common/bip32_ext.c
index 261e6dc..2b47bb8 100644
--- a/src/common/bip32_ext.c
+++ b/src/common/bip32_ext.c
@@ -76,4 +76,22 @@ bool bip32_path_validate(const uint32_t *bip32_path,
             return true;
     }
     LEDGER_ASSERT(false, "Bip32 validation type isn't handled properly");
-}
\ No newline at end of file
+}
+
+bool bip32_path_format_full(const uint32_t *bip32_path,
+                            uint8_t bip32_path_len,
+                            char *out,
+                            size_t out_len) {
+    char last[12];  // 10 digits, hardened mark and zero
+    if (!bip32_path_format(bip32_path, bip32_path_len, out, out_len)) {
+        return false;
+    }
+    const char *shown = strrchr(out, '/');
+    shown = shown != NULL ? shown + 1 : out;
+    if (!bip32_path_format(&bip32_path[bip32_path_len - 1], 1, last, sizeof(last)) ||
+        strcmp(shown, last) != 0) {
+        memset(out, 0, out_len);
+        return false;
+    }
+    return true;
+}
diff --git a/src/common/bip32_ext.h b/src/common/bip32_ext.h
index ed41db4..689551e 100644
--- a/src/common/bip32_ext.h
+++ b/src/common/bip32_ext.h
@@ -21,6 +21,15 @@ bool bip32_path_validate(const uint32_t *bip32_path,
                          uint32_t coin,
                          bip32_path_validation_type_e vtype);
 
+/**
+ * Same as bip32_path_format, but fails if the whole path doesn't fit the buffer.
+ * bip32_path_format succeeds when only the last number of the path was cut.
+ */
+bool bip32_path_format_full(const uint32_t *bip32_path,
+                            uint8_t bip32_path_len,
+                            char *out,
+                            size_t out_len);
+
 static inline bool bip32_path_is_equal(const uint32_t *bip32_path_1,
                                        uint8_t bip32_path_1_len,
                                        const uint32_t *bip32_path_2,
diff --git a/src/ui/ui_bip32_path.c b/src/ui/ui_bip32_path.c
index 4792903..a74deb7 100644
--- a/src/ui/ui_bip32_path.c
+++ b/src/ui/ui_bip32_path.c
@@ -42,7 +42,7 @@ const ux_flow_step_t* ui_bip32_path_screen(uint32_t* path,
     G_ui_path_params[0].title = title;
     G_ui_path_params[0].text = buffer;
     memset(buffer, 0, buffer_len);
-    if (!bip32_path_format(path, path_len, buffer, buffer_len)) {
+    if (!bip32_path_format_full(path, path_len, buffer, buffer_len)) {
         return NULL;
     }
     G_ui_bip32_approve_callback = cb;
-- 
2.43.0


From 4b66e5bda07bce1cd502bb021b0ce26448286517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:40 +0000
Subject: [PATCH 12/16] fix: wipe the challenge times private key when a
 Schnorr signature fails

ergo_secp256k1_schnorr_p2pk_sign_finish left the product of challenge and
private key on the stack when the final modular addition failed.
---
 src/ergo/schnorr.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ergo/schnorr.c b/src/ergo/schnorr.c
index b703311..f6aa485 100644
--- a/src/ergo/schnorr.c
+++ b/src/ergo/schnorr.c
@@ -103,14 +103,15 @@ bool ergo_secp256k1_schnorr_p2pk_sign_finish(uint8_t signature[static ERGO_SIGNA
     if (cx_math_is_zero(buf, CX_BLAKE2B_256_SIZE)) return false;
 
     // z = c * secret + key
-    if (cx_math_multm_no_throw(buf, buf, secret, PIC(SECP256K1_N), PRIVATE_KEY_LEN) != 0)
-        return false;
-    if (cx_math_addm_no_throw(signature + ERGO_SOUNDNESS_BYTES,
+    if (cx_math_multm_no_throw(buf, buf, secret, PIC(SECP256K1_N), PRIVATE_KEY_LEN) != 0 ||
+        cx_math_addm_no_throw(signature + ERGO_SOUNDNESS_BYTES,
                               key,
                               buf,
                               PIC(SECP256K1_N),
-                              PRIVATE_KEY_LEN) != 0)
+                              PRIVATE_KEY_LEN) != 0) {
+        explicit_bzero(buf, sizeof(buf));
         return false;
+    }
 
     explicit_bzero(buf, sizeof(buf));
 
-- 
2.43.0


From 13cd8036d10d76fe066ce22c3dd5ff8711c5d4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 13/16] fix: answer an error when the frame authentication code
 cannot be computed

cx_hmac_sha256 reports failures by returning 0. The result was ignored, so a
frame was answered with, or compared to, a code that was never written.
---
 src/commands/attestinput/ainpt_response.c | 14 ++++++++------
 src/commands/signtx/stx_handler.c         | 14 ++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/commands/attestinput/ainpt_response.c b/src/commands/attestinput/ainpt_response.c
index 23a063c..30ed101 100755
--- a/src/commands/attestinput/ainpt_response.c
+++ b/src/commands/attestinput/ainpt_response.c
@@ -46,12 +46,14 @@ int send_response_attested_input_frame(attest_input_ctx_t *ctx,
     }
 
     CHECK_WRITE_PARAM(rw_buffer_can_write(&output, CX_SHA256_SIZE));
-    cx_hmac_sha256(session_key,
-                   SESSION_KEY_LEN,
-                   rw_buffer_read_ptr(&output),
-                   rw_buffer_data_len(&output),
-                   rw_buffer_write_ptr(&output),
-                   CX_SHA256_SIZE);
+    if (cx_hmac_sha256(session_key,
+                       SESSION_KEY_LEN,
+                       rw_buffer_read_ptr(&output),
+                       rw_buffer_data_len(&output),
+                       rw_buffer_write_ptr(&output),
+                       CX_SHA256_SIZE) == 0) {
+        return send_error(SW_HASHER_ERROR);
+    }
     CHECK_WRITE_PARAM(rw_buffer_seek_write_cur(&output, INPUT_FRAME_SIGNATURE_LEN));
 
     return res_ok_data(&output);
diff --git a/src/commands/signtx/stx_handler.c b/src/commands/signtx/stx_handler.c
index 0a27302..eeb1900 100644
--- a/src/commands/signtx/stx_handler.c
+++ b/src/commands/signtx/stx_handler.c
@@ -128,12 +128,14 @@ static inline int handle_input_frame(sign_transaction_ctx_t *ctx,
         return handler_err(ctx, SW_NOT_ENOUGH_DATA);
     }
     // Calculate signature. Will be stored in tx_id field in context (we don't need it now).
-    cx_hmac_sha256(session_key,
-                   SESSION_KEY_LEN,
-                   buffer_read_ptr(cdata),
-                   frame_data_len,
-                   id_buffer,
-                   CX_SHA256_SIZE);
+    if (cx_hmac_sha256(session_key,
+                       SESSION_KEY_LEN,
+                       buffer_read_ptr(cdata),
+                       frame_data_len,
+                       id_buffer,
+                       CX_SHA256_SIZE) == 0) {
+        return handler_err(ctx, SW_HASHER_ERROR);
+    }
     // Compare signature with frame signature
     if (memcmp(id_buffer, input_frame_signature_ptr(cdata), INPUT_FRAME_SIGNATURE_LEN) != 0) {
         return handler_err(ctx, SW_BAD_FRAME_SIGNATURE);
-- 
2.43.0


From fbd20dd3834e0692124d17ef27c707c5d301ae62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:45 +0000
Subject: [PATCH 14/16] fix: refuse moving the write position before the read
 position

---
 src/common/rwbuffer.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/common/rwbuffer.c b/src/common/rwbuffer.c
index 686efe9..029c146 100644
--- a/src/common/rwbuffer.c
+++ b/src/common/rwbuffer.c
@@ -7,7 +7,7 @@
 #include "rwbuffer.h"
 
 bool rw_buffer_seek_write_set(rw_buffer_t *buffer, size_t offset) {
-    if (offset > buffer->size) {
+    if (offset > buffer->size || offset < buffer->read.offset) {  // can't go before read position
         return false;
     }
     buffer->read.size = offset;
@@ -27,8 +27,7 @@ bool rw_buffer_seek_write_end(rw_buffer_t *buffer, size_t offset) {
     if (offset > buffer->size) {
         return false;
     }
-    buffer->read.size = buffer->size - offset;
-    return true;
+    return rw_buffer_seek_write_set(buffer, buffer->size - offset);
 }
 
 bool rw_buffer_write_u8(rw_buffer_t *buffer, uint8_t value) {
-- 
2.43.0


From dbf85e1c132c145e2e26f509b507216daed5b342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 15/16] fix: refuse fee and change trees after ergo tree chunks
 in the box serializer

---
 src/ergo/tx_ser_box.c | 6 ++++++
 src/ergo/tx_ser_box.h | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/ergo/tx_ser_box.c b/src/ergo/tx_ser_box.c
index bfa77ff..1c987cc 100644
--- a/src/ergo/tx_ser_box.c
+++ b/src/ergo/tx_ser_box.c
@@ -7,6 +7,9 @@
 #define CHECK_PROPER_STATE(_ctx, _state) \
     if (_ctx->state != _state) return res_error(_ctx, ERGO_TX_SERIALIZER_BOX_RES_ERR_BAD_STATE)
 
+#define CHECK_NO_TREE_CHUNKS(_ctx) \
+    if (_ctx->tree_chunk_added) return res_error(_ctx, ERGO_TX_SERIALIZER_BOX_RES_ERR_BAD_STATE)
+
 #define CHECK_CALL_RESULT_OK(_ctx, _call)                                                        \
     do {                                                                                         \
         ergo_tx_serializer_box_result_e res = _call;                                             \
@@ -142,6 +145,7 @@ ergo_tx_serializer_box_result_e ergo_tx_serializer_box_add_tree(
     if (!buffer_seek_cur(tree_chunk, len)) {
         return res_error(context, ERGO_TX_SERIALIZER_BOX_RES_ERR_BUFFER);
     }
+    context->tree_chunk_added = true;
     context->ergo_tree_size -= len;
     if (context->ergo_tree_size == 0) {
         context->type = ERGO_TX_SERIALIZER_BOX_TYPE_TREE;
@@ -154,6 +158,7 @@ ergo_tx_serializer_box_result_e ergo_tx_serializer_box_add_miners_fee_tree(
     ergo_tx_serializer_box_context_t* context,
     bool is_mainnet) {
     CHECK_PROPER_STATE(context, ERGO_TX_SERIALIZER_BOX_STATE_INITIALIZED);
+    CHECK_NO_TREE_CHUNKS(context);
     const uint8_t* tree;
     size_t tree_len = 0;
     ergo_tree_miners_fee_tree(is_mainnet, &tree, &tree_len);
@@ -168,6 +173,7 @@ ergo_tx_serializer_box_result_e ergo_tx_serializer_box_add_change_tree(
     ergo_tx_serializer_box_context_t* context,
     const uint8_t raw_public_key[static PUBLIC_KEY_LEN]) {
     CHECK_PROPER_STATE(context, ERGO_TX_SERIALIZER_BOX_STATE_INITIALIZED);
+    CHECK_NO_TREE_CHUNKS(context);
 
     uint8_t tree[ERGO_TREE_P2PK_LEN];
     ergo_tree_generate_p2pk(raw_public_key, tree);
diff --git a/src/ergo/tx_ser_box.h b/src/ergo/tx_ser_box.h
index 1904502..d9ff6a5 100755
--- a/src/ergo/tx_ser_box.h
+++ b/src/ergo/tx_ser_box.h
@@ -63,6 +63,7 @@ typedef struct {
     uint32_t creation_height;
     uint32_t registers_size;
     uint8_t tokens_count;
+    bool tree_chunk_added;
     ergo_tx_serializer_box_state_e state;
     ergo_tx_serializer_box_type_e type;
     cx_blake2b_t* hash;
-- 
2.43.0


From 5db7431a132a89212465ef4d7ab960707c77db61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:23 +0000
Subject: [PATCH 16/16] fix: a path that cannot be shown no longer leaves
 screens of a review in the menu

---
 src/commands/deriveaddress/da_ui.c | 13 ++++++++-----
 src/commands/extpubkey/epk_ui.c    |  7 ++++---
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/commands/deriveaddress/da_ui.c b/src/commands/deriveaddress/da_ui.c
index 8218d36..9ec18b4 100644
--- a/src/commands/deriveaddress/da_ui.c
+++ b/src/commands/deriveaddress/da_ui.c
@@ -72,10 +72,6 @@ int ui_display_address(derive_address_ctx_t* ctx,
     ctx->app_token_value = app_access_token;
     ctx->send = send;
 
-    uint8_t screen = 0;
-    ui_add_screen(send ? &ux_da_display_confirm_send_step : &ux_da_display_confirm_addr_step,
-                  &screen);
-
     const ux_flow_step_t* b32_screen =
         ui_bip32_path_screen(bip32_path,
                              bip32_path_len,
@@ -87,7 +83,6 @@ int ui_display_address(derive_address_ctx_t* ctx,
     if (b32_screen == NULL) {
         return send_error(SW_BIP32_FORMATTING_FAILED);
     }
-    ui_add_screen(b32_screen, &screen);
 
     memset(ctx->address, 0, MEMBER_SIZE(derive_address_ctx_t, address));
     if (!send) {
@@ -99,6 +94,14 @@ int ui_display_address(derive_address_ctx_t* ctx,
         if (result == -1 || result >= P2PK_ADDRESS_STRING_MAX_LEN) {
             return send_error(SW_ADDRESS_FORMATTING_FAILED);
         }
+    }
+
+    // The menu is on display, and uses the same list of screens, until nothing can fail anymore
+    uint8_t screen = 0;
+    ui_add_screen(send ? &ux_da_display_confirm_send_step : &ux_da_display_confirm_addr_step,
+                  &screen);
+    ui_add_screen(b32_screen, &screen);
+    if (!send) {
         ui_add_screen(&ux_da_display_address_step, &screen);
     }
 
diff --git a/src/commands/extpubkey/epk_ui.c b/src/commands/extpubkey/epk_ui.c
index c1e12f3..74961f8 100644
--- a/src/commands/extpubkey/epk_ui.c
+++ b/src/commands/extpubkey/epk_ui.c
@@ -51,9 +51,6 @@ int ui_display_account(extended_public_key_ctx_t* ctx,
         return res_error(SW_BIP32_BAD_PATH);
     }
 
-    uint8_t screen = 0;
-    ui_add_screen(&ux_epk_display_confirm_ext_pubkey_step, &screen);
-
     const ux_flow_step_t* b32_step =
         ui_bip32_path_screen(bip32_path,
                              bip32_path_len,
@@ -66,6 +63,10 @@ int ui_display_account(extended_public_key_ctx_t* ctx,
         app_set_current_command(CMD_NONE);
         return res_error(SW_BIP32_FORMATTING_FAILED);
     }
+
+    // The menu is on display, and uses the same list of screens, until nothing can fail anymore
+    uint8_t screen = 0;
+    ui_add_screen(&ux_epk_display_confirm_ext_pubkey_step, &screen);
     ui_add_screen(b32_step, &screen);
 
     if (app_access_token != 0) {
-- 
2.43.0

