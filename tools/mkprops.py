#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here, one call per property)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
P = []

def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

NOTBUILT = "The unit tests never compile the command handlers, dispatcher, UI, signing or key code at all"

prop("C01", "A released signature is valid for exactly the transaction that was streamed",
 "Whenever the sign command's confirmation is approved, the returned 56 bytes are a valid Ergo Schnorr (P2PK) signature, under the public key of the signing path the user approved, over the canonical Ergo bytes-to-sign of exactly the streamed transaction: its inputs with their context extensions, data inputs, declared token ids, and all outputs in order with their value, ergo tree, creation height, tokens and registers. Every well-formed transaction within the limits can be signed this way. No other command or history makes the device return a signature.",
 ["inputs", "histories"],
 "Every well-formed transaction (any number of inputs, data inputs, tokens, outputs, tree forms, registers, extensions), every signing path, every history before it, every nonce.",
 NOTBUILT + "; the serializer tests feed a few fixed transactions, and nothing ever verifies a Schnorr signature.",
 ["src/commands/signtx/stx_handler.c", "src/commands/signtx/operations/stx_op_p2pk.c", "src/ergo/tx_ser_full.c", "src/ergo/tx_ser_box.c", "src/ergo/tx_ser_input.c", "src/ergo/tx_ser_table.c", "src/ergo/schnorr.c", "src/helpers/crypto.c"],
 [("streaming serialisation into a running hash", "src/ergo/tx_ser_full.c, tx_ser_box.c, tx_ser_input.c"), ("Fiat-Shamir Schnorr signature", "src/ergo/schnorr.c"), ("approval releases the signature", "src/commands/signtx/operations/stx_op_p2pk.c stx_operation_p2pk_ui_accepted callbacks")],
 [("transaction context", "the running hash and the pending counts of the transaction being streamed"), ("signing path", "the key the user approved at the start")],
 ["response of INS 0x21 P1 0x20 after approval"])

prop("C02", "Each reviewed output is shown with its true destination, value and tokens",
 "For every output of a transaction that the device asks the user to confirm, the screens show exactly that output: its destination (the Base58 address of its ergo tree for the chosen network, or the full path for an output to the own change, or the script-hash address, or the miners-fee label) and, unless it is own change, its nanoERG value as a decimal ERG amount with 9 decimals and, for each token with a non-zero amount, in table order and numbered from 1, the token id and the amount. Nothing is missing, added, or taken from another output, whatever the sizes, the chunking or the number of tokens.",
 ["inputs", "histories"],
 "Every transaction, output position, ergo tree, value in the u64 range, token set up to 20, change path and network.",
 NOTBUILT + "; no test looks at a screen.",
 ["src/commands/signtx/stx_ui.c", "src/commands/signtx/stx_output.c", "src/commands/signtx/operations/stx_op_p2pk.c", "src/ergo/address.c", "src/ergo/ergo_tree.c", "src/ui/ui_dynamic_flow.c"],
 [("output screen builder", "src/commands/signtx/stx_ui.c"), ("output accumulation", "src/commands/signtx/stx_output.c"), ("destination classification", "src/ergo/ergo_tree.c, src/ergo/address.c")],
 [("output info", "destination, value and token amounts collected while the output is streamed")],
 ["title and text of the screens shown before an output approval"])

prop("C03", "The final screen's totals equal what the transaction really moves",
 "The confirmation shown before a signature is released states, for the transaction streamed: the approved signing path; the amount spent (sum of inputs minus own change minus miners fee) and the fee in ERG; and for every token whose input and output totals differ, its id and the exact difference, labelled as minted when outputs exceed inputs and burned otherwise. Tokens that balance are not listed, and a transaction whose ERG or token totals cannot be represented exactly is refused instead of being shown or signed with wrapped numbers.",
 ["inputs", "histories"],
 "Every set of inputs, outputs, change and fee outputs and token amounts over the whole 64-bit range, including tokens known only from inputs.",
 NOTBUILT + "; the arithmetic file is only syntax-checked.",
 ["src/commands/signtx/stx_amounts.c", "src/commands/signtx/stx_amounts.h", "src/commands/signtx/stx_ui.c", "src/commands/signtx/operations/stx_op_p2pk.c", "src/common/safeint.h"],
 [("totals accumulation", "src/commands/signtx/stx_amounts.c"), ("final screens", "src/commands/signtx/stx_ui.c")],
 [("amounts", "sum of inputs, outputs, change, fee and the net amount of each token")],
 ["screens of INS 0x21 P1 0x20"])

prop("C04", "Attestation frames state exactly the content of the box that was streamed",
 "After a box has been streamed and its attestation approved, the frames returned for it carry the box id (BLAKE2b-256 of the canonical serialisation of the streamed box with its transaction id and output index), the number of frames, the frame index, the box value, and together exactly the box's tokens (ids and amounts in order, at most four per frame, at least one frame). Each frame ends with the first 16 bytes of HMAC-SHA256 over the rest of the frame under the key of the device session, and asking again returns the same bytes.",
 ["inputs", "histories"],
 "Every box: any value, height, tree and registers up to 32768 bytes in any chunking, 0 to 20 distinct tokens, any index; every order and repetition of frame requests.",
 NOTBUILT + "; box ids are tested on a handful of fixed boxes only.",
 ["src/commands/attestinput/ainpt_handler.c", "src/commands/attestinput/ainpt_response.c", "src/ergo/tx_ser_box.c", "src/ergo/tx_ser_table.c", "src/helpers/input_frame.c", "src/helpers/input_frame.h"],
 [("frame builder", "src/commands/attestinput/ainpt_response.c"), ("box id", "src/ergo/tx_ser_box.c ergo_tx_serializer_box_id_hash*"), ("frame signature", "src/helpers/input_frame.c, src/helpers/crypto.c")],
 [("session key", "16 random bytes drawn at application start")],
 ["response of INS 0x20 P1 0x05"])

prop("C05", "Only frames this device session attested are accepted as transaction inputs",
 "While signing, an input is accepted only if its frames were produced by attestation in the same device session, unmodified in every byte, for one and the same box, in index order from 0 to the declared frame count; the value and tokens counted for the input are the ones in those frames. A frame that is altered in any bit, truncated, taken from another box or another session, skipped, repeated or out of order is refused and the signing operation is aborted. The key that authenticates the frames is drawn at random anew at each start of the application: all of its 128 bits are random and decide the signature of a frame, so that two starts accept each other's frames only if their random numbers are the same.",
 ["inputs", "histories"],
 "Every frame content, every single or multi-byte mutation, every splice of frames from different boxes and from other sessions, every order; every pair of starts, also with random numbers that differ in one bit.",
 "The HMAC check and the input handling are not compiled by the tests; the frame reader is tested with one fixed frame.",
 ["src/commands/signtx/operations/stx_op_p2pk.c", "src/commands/signtx/stx_handler.c", "src/helpers/input_frame.c", "src/helpers/input_frame.h", "src/helpers/crypto.c", "src/ergo/tx_ser_input.c", "src/context.c"],
 [("frame authentication", "src/commands/signtx/stx_handler.c handle_tx_input / src/helpers/crypto.c hmac"), ("frame sequencing", "src/ergo/tx_ser_input.c")],
 [("session key", "drawn at application start; the MAC key of all frames")],
 ["status word of INS 0x21 P1 0x12 and the totals shown later"])

prop("C06", "Signing and attesting accept commands only in protocol order and completely",
 "Each step of signing and of input attestation is accepted only in the documented order and exactly as often as declared: token ids, inputs (with all frames and extension bytes), data inputs and outputs match the declared counts, every box has its tree, tokens and registers completely received before the next starts, and confirmation or frame retrieval works only when everything declared has arrived and every output is approved. Any step out of order, in surplus or missing is refused, and a refused step ends the operation, so that nothing short of starting over can continue it.",
 ["histories", "inputs"],
 "Every sequence of sub-commands (valid prefix followed by any deviation) over any declared shape.",
 NOTBUILT + "; serializer tests follow the straight path and a few fixed deviations.",
 ["src/commands/signtx/stx_handler.c", "src/commands/signtx/operations/stx_op_p2pk.c", "src/commands/attestinput/ainpt_handler.c", "src/ergo/tx_ser_full.c", "src/ergo/tx_ser_box.c", "src/ergo/tx_ser_input.c", "src/ergo/tx_ser_table.c"],
 [("operation states", "src/commands/signtx/operations/stx_op_p2pk.c"), ("serializer states", "src/ergo/tx_ser_*.c"), ("abort on error", "src/helpers/cmd_macros.h, src/context.c")],
 [("current command and its state", "what step the device expects next")],
 ["status words of INS 0x20 and 0x21"])

prop("C07", "Nothing sensitive leaves the device without the user's approval",
 "An extended public key, a derived address, an attestation session, a signing session and a signature are released only after the user approved the matching screens, except where the same application token was already approved in this session (public key, address, attestation only; signing always asks). Rejecting any screen answers with the 'denied by user' status, returns no data and ends the operation, so that no later command can continue or complete it.",
 ["inputs", "histories"],
 "Every command, every parameter set, every answer of the user, every history.",
 NOTBUILT + "; no test has a user.",
 ["src/commands/extpubkey/epk_handler.c", "src/commands/extpubkey/epk_ui.c", "src/commands/deriveaddress/da_handler.c", "src/commands/deriveaddress/da_ui.c", "src/commands/attestinput/ainpt_ui.c", "src/commands/attestinput/ainpt_handler.c", "src/commands/signtx/stx_ui.c", "src/commands/signtx/stx_handler.c", "src/ui/ui_approve_reject.c", "src/context.h"],
 [("approval callbacks", "src/commands/*/..._ui.c"), ("known application shortcut", "src/context.h")],
 [("connected application token", "the token of the last approved application")],
 ["responses and screens of every command"])

prop("C08", "Only BIP32 paths of the Ergo policy are accepted",
 "A public key is exported only for paths 44'/429'/account' and longer with every further step hardened; addresses and signing keys, and outputs declared as own change, only for paths 44'/429'/account'/change/index... with change 0 or 1, at least 5 steps and all steps after the account non-hardened. Every other path, and every path longer than 10 steps or truncated, is refused without any screen, and each conforming path is accepted with every value of its steps, unless its text is too long for the screen that must show it (59 characters, 69 for a change output): then the command is refused, at the latest when the screen would be shown, and nothing is approved.",
 ["inputs"],
 "Every path of 0 to 12 steps over the full 32-bit range, for each command that takes a path.",
 "The tests try a few literal paths against the helper only; the handlers that apply the policy are not compiled.",
 ["src/common/bip32_ext.c", "src/common/bip32_ext.h", "src/common/buffer_ext.h", "src/commands/extpubkey/epk_handler.c", "src/commands/deriveaddress/da_handler.c", "src/commands/signtx/stx_handler.c", "src/commands/signtx/operations/stx_op_p2pk.c"],
 [("path validation", "src/common/bip32_ext.c"), ("use of the policy", "the four handlers that read a path")],
 None, ["status words and screens of INS 0x10, 0x11, 0x21"])

prop("C09", "Exported keys and addresses belong to the requested path and are shown as such",
 "The extended public key returned for a path is the compressed public key and chain code that BIP32 derivation from the device seed gives for it, and the address returned or displayed for a path and network is the Base58 Ergo P2PK address (network byte plus 1, compressed public key, 4 checksum bytes of BLAKE2b-256) of that path's key. The approval screens show that path, that address and that application token exactly. An address at account'/change/index equals the one obtained by public derivation from the exported account key.",
 ["inputs"],
 "Every allowed path, every network id, display or return, with or without application token, every seed.",
 NOTBUILT + "; only the address checksum encoder is tested, on a few keys.",
 ["src/commands/extpubkey/epk_handler.c", "src/commands/extpubkey/epk_response.c", "src/commands/extpubkey/epk_ui.c", "src/commands/deriveaddress/da_handler.c", "src/commands/deriveaddress/da_response.c", "src/commands/deriveaddress/da_ui.c", "src/helpers/crypto.c", "src/ergo/address.c", "src/ui/ui_bip32_path.c", "src/ui/ui_application_id.c"],
 [("key derivation", "src/helpers/crypto.c"), ("address encoding", "src/ergo/address.c"), ("screens", "src/commands/*/..._ui.c")],
 None, ["responses and screens of INS 0x10 and 0x11"])

prop("C10", "No byte sequence from the host corrupts memory or leaves a command unanswered",
 "For every sequence of commands with arbitrary content, and every user reaction, the device performs no out-of-bounds or use-after-scope memory access, no undefined arithmetic and no unbounded loop; no response depends on uninitialised memory. Every command gets exactly one response that fits the transfer buffer, either at once or after the user's answer, and an error response carries no data.",
 ["inputs", "histories"],
 "Every sequence of APDUs (well-formed, mutated, random), every length 0 to 255, every user reaction between them.",
 NOTBUILT + "; parser tests use well-formed buffers and a few short ones, without sanitizers.",
 ["src/apdu_dispatcher.c", "src/commands", "src/common", "src/ergo", "src/helpers", "src/ui", "src/context.c"],
 [("bounded buffer readers", "src/common/rwbuffer.h, src/common/buffer_ext.h"), ("dispatcher", "src/apdu_dispatcher.c"), ("screen text buffers", "src/commands/*/..._ui.c")],
 [("global command context", "union of all command contexts in the application context")],
 ["sanitizer reports, response count and contents"])

prop("C11", "How data is split into chunks never changes the outcome",
 "Ergo trees, registers, context extensions, token lists, data inputs and box ids may be sent in any chunking the protocol allows; the box id, attestation frames, screens and the message that is signed are the same for all of them. Data beyond the declared size is refused in whichever chunk it arrives, and nothing short of the declared size completes a part.",
 ["inputs", "histories"],
 "Every box and transaction, every pair of allowed chunkings of it.",
 "The tests use one or two hand-made chunkings; the app-level streams are not compiled.",
 ["src/ergo/tx_ser_box.c", "src/ergo/tx_ser_input.c", "src/ergo/tx_ser_full.c", "src/ergo/tx_ser_table.c", "src/ergo/ergo_tree.c", "src/commands/attestinput/ainpt_handler.c", "src/commands/signtx/stx_output.c"],
 [("remaining-size bookkeeping", "src/ergo/tx_ser_box.c, tx_ser_input.c"), ("tree type detection on the first chunk", "src/ergo/ergo_tree.c, src/commands/signtx/stx_output.c")],
 [("remaining sizes", "bytes still expected for the tree, registers or extension")],
 ["frames, screens, signature verification, status words"])

prop("C12", "Size and count limits are enforced exactly at the documented bounds",
 "At most 20 tokens per box and 20 distinct tokens per transaction (declared ids plus those found in inputs), at most 32768 bytes of ergo tree, of registers and of context extension, at least one input and one output are enforced exactly: every transaction or box within the limits is processed, everything beyond is refused before it can be attested or signed. Token ids must be distinct within a box and within the transaction's token list, an output states a non-zero amount of a token only once, token indexes of outputs must refer to declared tokens, and a refused item leaves nothing behind.",
 ["inputs"],
 "Every count and size at, below and above the bounds, at every place they can occur.",
 NOTBUILT + "; serializer tests try single out-of-range values.",
 ["src/constants.h", "src/ergo/tx_ser_table.c", "src/ergo/tx_ser_box.c", "src/ergo/tx_ser_full.c", "src/ergo/tx_ser_input.c", "src/commands/attestinput/ainpt_handler.c", "src/commands/signtx/operations/stx_op_p2pk.c"],
 [("limits", "src/constants.h, src/ergo/tx_ser_*.h"), ("token table", "src/ergo/tx_ser_table.c")],
 [("token table", "ids of the transaction's tokens")],
 ["status words of INS 0x20 and 0x21"])

prop("C13", "VLQ and ZigZag codecs are exact inverses and bound-checked",
 "For every value of every supported integer width, encoding gives Ergo's VLQ (and ZigZag for signed) bytes, and decoding them gives the value back while consuming exactly those bytes. Decoding any byte string either yields the value it denotes or an error: a truncated, unterminated or out-of-range encoding is refused, and an encoding that does not fit the buffer leaves it unchanged.",
 ["inputs"],
 "All 64-bit values and all byte strings, at every buffer position and remaining space.",
 "The tests check literal examples per function and no failure positions or boundaries beyond those.",
 ["src/common/gve.c", "src/common/gve.h", "src/common/zigzag.h", "src/common/rwbuffer.h", "src/common/rwbuffer.c"],
 [("VLQ", "src/common/gve.c"), ("ZigZag", "src/common/zigzag.h")],
 None, ["return codes, decoded values, buffer offsets"])

prop("C14", "Checked arithmetic agrees with unbounded integers",
 "Every checked 64-bit addition and subtraction, signed and unsigned, and every addition, subtraction and total over transaction amounts succeeds if and only if the mathematically exact result is representable, and then yields exactly that result. Refused operations leave no partially applied or wrapped total that could be shown or signed.",
 ["inputs", "histories"],
 "All pairs of 64-bit operands and all sequences of amount updates.",
 "The tests check a few literal operand pairs of the checked arithmetic; the amount code is only syntax-checked.",
 ["src/common/safeint.h", "src/commands/signtx/stx_amounts.c", "src/commands/signtx/stx_amounts.h"],
 [("checked operations", "src/common/safeint.h"), ("amount totals", "src/commands/signtx/stx_amounts.c")],
 [("amounts", "running totals of the transaction")],
 ["return values and totals"])

prop("C15", "Read/write buffers never go beyond their bounds and behave like a byte queue",
 "A read/write buffer behaves like a queue of bytes over a fixed memory area under every sequence of operations: a write appends exactly the encoded bytes or fails, a read returns exactly the oldest unread bytes or fails, peeks do not consume, seeks move only within range, and shifting keeps the unread bytes. A failing operation changes neither positions nor content, and no operation touches memory outside the area, whatever sizes and offsets are passed.",
 ["histories", "inputs"],
 "All sequences of buffer operations with all argument values, over all sizes including 0.",
 "The tests check one example per operation; no sequences, no sanitizer, no huge sizes.",
 ["src/common/rwbuffer.c", "src/common/rwbuffer.h", "src/common/buffer_ext.c", "src/common/buffer_ext.h"],
 [("bounds checks", "src/common/rwbuffer.h can_read/can_write"), ("endian codecs", "src/common/rwbuffer.c")],
 [("read and write positions", "0 <= read <= write <= size")],
 ["return values, positions, bytes, neighbouring memory"])

prop("C16", "Signing nonces are fresh, uniform and secret, and key material is wiped",
 "Every signature uses a new nonce taken from the hardware random generator, in the range 1 to the group order minus 1, independent of all other nonces, and candidates outside that range are discarded and never reduced or reused. When a command that used a private key or a nonce has answered, successfully or with an error, no private key remains in the application's memory or in any response; a nonce is kept only inside the context of the signing operation it was drawn for, and once that operation has ended it remains nowhere.",
 ["inputs", "histories", "fault_sequences"],
 "Every key, message, sequence of random outputs (including zero, the group order and above, repeated blocks) and every failing crypto call.",
 "The signing code is not compiled by the tests; nothing looks at memory afterwards.",
 ["src/ergo/schnorr.c", "src/helpers/crypto.c", "src/commands/signtx/operations/stx_op_p2pk.c", "src/commands/extpubkey/epk_handler.c", "src/commands/deriveaddress/da_handler.c"],
 [("nonce rejection sampling", "src/ergo/schnorr.c"), ("wiping", "src/ergo/schnorr.c, src/helpers/crypto.c")],
 None, ["random draws, signatures, application memory after the response"])

prop("C17", "Ergo trees are classified and turned into addresses exactly",
 "A tree is treated as pay-to-public-key, as the miners' fee contract or as pay-to-script-hash if and only if its bytes are exactly that form; everything else is treated as a generic script, shown by the hash of all its bytes. Addresses built from a public key, a script hash or a tree have the right network and type byte and checksum, and distinct destinations or networks never give the same address.",
 ["inputs"],
 "All byte strings as trees, in particular every near miss (one byte changed, inserted, removed, truncated, extended) of the special forms; all network ids.",
 "The tests classify a handful of literal trees; near misses and lengths are not explored.",
 ["src/ergo/ergo_tree.c", "src/ergo/ergo_tree.h", "src/ergo/address.c", "src/ergo/address.h", "src/commands/signtx/stx_output.c"],
 [("tree templates", "src/ergo/ergo_tree.c"), ("address encoding", "src/ergo/address.c")],
 None, ["classification results, address bytes, screens"])

prop("C18", "However the user browses a review, every screen appears right and in its place",
 "However the user moves back and forth through the screens of a review, every screen can be reached in both directions, appears at its place in the documented order and shows the same title and text each time, and nothing is approved or rejected except by confirming the approve or the reject screen (the opening path screen of a signing session, when confirmed, also approves it). After the answer the main menu is shown again and the next review starts from its own first screen.",
 ["histories", "inputs"],
 "Every sequence of left/right moves of any length, over reviews with any number of screens, including consecutive reviews.",
 NOTBUILT + "; the flow code depends on the device's UI and is never run.",
 ["src/ui/ui_dynamic_flow.c", "src/ui/ui_main.h", "src/ui/ui_approve_reject.c", "src/ui/ui_menu.c", "src/commands/signtx/stx_ui.c", "src/commands/extpubkey/epk_ui.c", "src/commands/deriveaddress/da_ui.c", "src/commands/attestinput/ainpt_ui.c"],
 [("dynamic screen navigation", "src/ui/ui_dynamic_flow.c"), ("screen list assembly", "src/ui/ui_main.h")],
 [("current dynamic screen", "index into the screens built for the current review")],
 ["titles and texts after each button press"])

prop("C19", "Command framing, version and name requests follow the protocol",
 "Every received frame is answered with exactly one status word: frames whose header or length is malformed are refused, and so are unknown classes (0x6E00), unknown instructions (0x6D00) and unsupported P1/P2 values (0x6A86), without changing any operation in progress. The version command returns the application's version numbers and the name command its name, in any state of the device except while it has no valid frame, and both refuse any data or parameters.",
 ["inputs", "histories"],
 "All frames of 0 to 260 bytes, all header values, in every state of the device.",
 NOTBUILT + ".",
 ["src/apdu_dispatcher.c", "src/apdu_dispatcher.h", "src/app_main.c", "src/commands/app_version.c", "src/commands/app_name.c", "src/sw.h"],
 [("dispatcher", "src/apdu_dispatcher.c"), ("main loop", "src/app_main.c")],
 None, ["responses"])

prop("C20", "A session can be continued only with its own non-zero session id",
 "Each approved attestation or signing start creates a fresh random non-zero session id, and every following sub-command is executed only if it carries exactly the id of the operation in progress and belongs to that kind of operation. A sub-command with another id, with the id of an earlier, finished, rejected or aborted operation, or before any approval never has an effect other than an error answer.",
 ["histories", "inputs"],
 "All interleavings of operations, all id values, all random outputs including repeats and zero.",
 NOTBUILT + ".",
 ["src/helpers/session_id.h", "src/commands/signtx/stx_handler.c", "src/commands/attestinput/ainpt_handler.c", "src/context.c", "src/context.h"],
 [("session id generation", "src/helpers/session_id.h"), ("session check", "CHECK_SESSION in the two handlers")],
 [("session id", "stored in the operation's context")],
 ["status words and data of sub-commands"])

prop("C21", "A failing cryptographic primitive never leads to a released result",
 "If any hashing, key-derivation, elliptic-curve or random primitive of the platform reports an error during a command, that command answers with an error status, or with the correct result after repeating the computation; no key, address, attestation frame, session or signature derived from the failed computation is shown or returned. Afterwards the device keeps working: the next correct operation gives correct results.",
 ["fault_sequences", "histories"],
 "Every single failing platform call at every point of every command sequence, and random multiple failures.",
 NOTBUILT + " (except hashing, which never fails there).",
 ["src/helpers/crypto.c", "src/helpers/blake2b.c", "src/helpers/input_frame.c", "src/ergo/schnorr.c", "src/ergo/tx_ser_box.c", "src/ergo/tx_ser_input.c", "src/ergo/tx_ser_full.c", "src/ergo/address.c", "src/commands"],
 [("error propagation", "every caller of a cx_* or os_* function")],
 None, ["status words and data"])

prop("C22", "Each kind of error is reported with its documented status word",
 "When exactly one thing is wrong with a command, the answer is the documented status word for it and carries no data: for example wrong session 0xB002, wrong state 0xB0FF, bad path 0xE012, bad frame signature 0xE018, too much data 0xE015, missing data 0xE014, overflow 0xE011, busy 0xB000, denied 0x6985. A correct command answers 0x9000.",
 ["inputs", "histories"],
 "Every documented single fault at every position of every command of otherwise valid histories.",
 NOTBUILT + "; documentation and code are never compared.",
 ["src/sw.h", "src/helpers/sw_result.h", "src/helpers/cmd_macros.h", "src/commands/signtx/stx_handler.c", "src/commands/attestinput/ainpt_handler.c", "src/commands/extpubkey/epk_handler.c", "src/commands/deriveaddress/da_handler.c", "src/apdu_dispatcher.c"],
 [("mapping of serializer results to status words", "src/helpers/sw_result.h"), ("status words", "src/sw.h")],
 None, ["status words"])

prop("C23", "While a review is on screen, nothing the host sends can change it",
 "While the user is reviewing something, every key, address, attestation or signing command from the host is refused with the busy status and changes neither the screens nor the data under review; only version and name requests are answered. The user's answer always applies to exactly what was displayed, and the response to it is the one the review was about.",
 ["histories", "inputs"],
 "All commands sent at every point of every review, with every content, and all button sequences between them.",
 NOTBUILT + ".",
 ["src/apdu_dispatcher.c", "src/context.h", "src/context.c", "src/commands/signtx/stx_ui.c", "src/commands/extpubkey/epk_ui.c", "src/commands/deriveaddress/da_ui.c", "src/commands/attestinput/ainpt_ui.c"],
 [("busy check", "src/context.h is-busy flag, checked in src/apdu_dispatcher.c")],
 [("busy flag", "set while a review is displayed")],
 ["responses and screens"])

prop("C24", "An application token is trusted only after its own approval, until replaced",
 "A command carrying an application token skips the question to the user only if this very non-zero token was the one in the last approved key-export, address, attestation or signing request of the current session; a signing request, which always asks, names the application on its screens except in that case. Approving a request without token, or with another one, ends the trust in the earlier token; rejecting a request or a failing command never grants trust; a restart forgets it.",
 ["histories"],
 "All sequences of commands with tokens of any value, approvals and rejections, restarts.",
 NOTBUILT + ".",
 ["src/context.h", "src/context.c", "src/commands/extpubkey/epk_handler.c", "src/commands/deriveaddress/da_handler.c", "src/commands/attestinput/ainpt_handler.c", "src/commands/signtx/stx_handler.c", "src/ui/ui_application_id.c"],
 [("connected application token", "src/context.h")],
 [("connected application token", "0 or the token of the last approved request")],
 ["whether a command shows screens"])

prop("C25", "An output skips review only if it is the plain fee or provably own change",
 "While signing, every output is put before the user for approval except these two: an output to the miners' fee contract with no tokens, and an output declared as change whose five-step path is valid and either equals the change path the user approved in the last output review, or lies in the same account and same change branch as the signing path with an address index below the signing index plus 20. The tree that is hashed for such an output is exactly the miners' fee contract or the P2PK tree of that change path's key.",
 ["inputs", "histories"],
 "All change paths (near and far, other account, other branch, other length, hardened), all fee outputs with tokens, all orders of outputs.",
 NOTBUILT + ".",
 ["src/commands/signtx/operations/stx_op_p2pk.c", "src/commands/signtx/stx_output.c", "src/commands/signtx/stx_output.h", "src/common/bip32_ext.h", "src/constants.h"],
 [("automatic approval", "src/commands/signtx/operations/stx_op_p2pk.c stx_operation_p2pk_should_show_output_confirm_screen"), ("path comparison", "src/common/bip32_ext.h")],
 [("last approved change path", "path of the change output the user confirmed last")],
 ["whether an output shows screens"])

prop("C26", "An operation's outcome does not depend on what happened before it",
 "A complete operation (key export, address, attestation, signing) gives the same screens, answers and results, up to fresh random values, whether it is run right after start or after any earlier history of commands (finished, rejected, aborted, malformed or failed ones) and of the user's moves through the menu. The only state that carries over is the trusted application token and the session key of the attestation frames.",
 ["histories"],
 "All pairs of an arbitrary history and an operation.",
 NOTBUILT + "; every unit test starts from a fresh state.",
 ["src/context.c", "src/context.h", "src/commands", "src/ui"],
 [("clearing of the command context", "src/context.c"), ("context initialisation per command", "handlers' init functions")],
 [("global command context", "union shared by all commands")],
 ["screens and responses of the second operation"])

prop("C27", "Streaming serialisers produce canonical bytes and stay failed after errors",
 "Fed with any box, input or transaction through their step interface in any allowed splitting, the streaming serialisers hash exactly the canonical Ergo serialisation, call the token and completion callbacks once per item with the item's own data, and report finished only when every declared part arrived. Any step out of order or beyond the declared size is refused, and after a refusal no further step is accepted.",
 ["inputs", "histories"],
 "All boxes, inputs and transactions, all splittings, and all call sequences including invalid ones.",
 "The tests run a few fixed sequences for each serialiser.",
 ["src/ergo/tx_ser_box.c", "src/ergo/tx_ser_box.h", "src/ergo/tx_ser_input.c", "src/ergo/tx_ser_input.h", "src/ergo/tx_ser_full.c", "src/ergo/tx_ser_full.h", "src/ergo/tx_ser_table.c", "src/ergo/tx_ser_table.h"],
 [("serialiser state machines", "src/ergo/tx_ser_*.c")],
 [("serialiser state", "expected next part and remaining sizes")],
 ["hashes, result codes, callbacks"])

prop("C28", "The menu leads where it says, serves commands from any page, and only Quit quits",
 "While nothing is under review the device shows a page of its menu: the application's name with 'is ready', About, Quit; or, behind About, the application's name, its version and Back. Left and right lead round these pages in this order in either direction; confirming About opens the second ring at its first page, Back returns to the first page of the main menu, and Quit ends the application. No other button, command, error or review ends it. Menu buttons send no answer and do not disturb an operation in progress. A command is served the same from every page; after a review the main menu's first page is shown, after another command that page or the one the user was on.",
 ["histories"],
 "All sequences of commands, reviews and menu buttons of any length, on both screen layouts.",
 NOTBUILT + "; no test draws a menu.",
 ["src/ui/ui_menu.c", "src/ui/ui_main.h", "src/ui/ui_dynamic_flow.c", "src/app_main.c"],
 [("menu pages", "src/ui/ui_menu.c"), ("list of steps shared by menu and reviews", "src/ui/ui_main.h G_ux_flow_steps")],
 [("steps on display", "the step array last filled, which menu and reviews share")],
 ["titles and texts after each button and command, answers, whether the application ended"])

with open(OUT, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
