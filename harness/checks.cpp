// Which parts decide which property, and what makes a case of it non-trivial.
#include "checks.hpp"
const std::vector<CheckDef> &all_checks() {
    static const std::vector<CheckDef> v = {
        {"C01", "a case is a generated transaction streamed through all commands and approved (with mutated histories before it in part c01_history); non-trivial: the device returned a signature, which was verified over the canonical bytes-to-sign; in the part of long lives: a complete operation succeeded after at least 40 others", {{"c01_small", p_c01_small, 1500, 60000, "app"}, {"c01_general", p_c01_general, 400, 20000, "app"}, {"c01_history", p_c01_history, 400, 20000, "app"}, {"c01_counts", p_c01_counts, 10, 600, "app"}, {"c01_nonces", p_c01_nonces, 100, 8000, "app"}, {"c01_life", p_c01_life, 25, 1500, "app"}}},
        {"C02", "a case is a generated transaction; non-trivial: at least one output was put before the user and all its screens compared; in the part of long lives: a complete operation succeeded after at least 40 others", {{"c02_outputs", p_c02_outputs, 800, 40000, "app"}, {"c02_nanos", p_c02_nanos, 300, 15000, "nanos"}, {"c02_reviewed", p_c02_reviewed, 800, 40000, "app"}, {"c02_counts", p_c02_counts, 6, 400, "app"}, {"c02_life", p_c02_life, 25, 1500, "app"}}},
        {"C03", "a case is a generated transaction; non-trivial: its final review was shown and compared, or its totals were refused; in the part of long lives: a complete operation succeeded after at least 40 others", {{"c03_totals", p_c03_totals, 600, 30000, "app"}, {"c03_edges", p_c03_edges, 1500, 60000, "app"}, {"c03_counts", p_c03_counts, 10, 600, "app"}, {"c03_life", p_c03_life, 25, 1500, "app"}}},
        {"C04", "a case is one to three generated boxes attested in generated chunks; non-trivial: at least one frame was returned and compared; in the part of long lives: a complete operation succeeded after at least 40 others", {{"c04_frames", p_c04_frames, 1500, 80000, "app"}, {"c04_life", p_c04_life, 25, 1500, "app"}}},
        {"C05", "a case is a signing operation with one generated alteration of its frames; non-trivial: the altered command was sent; in the part of keys: the box was attested after starts that differ in one random bit; in the part of long lives: a complete operation succeeded after at least 40 others", {{"c05_frames", p_c05_frames, 2000, 100000, "app"}, {"c05_key", p_c05_key, 20, 1000, "app"}, {"c05_life", p_c05_life, 25, 1500, "app"}}},
        {"C06", "a case is a valid command plan with generated deviations (or two plans interleaved); non-trivial: a command was refused or the operation completed; in the part of long lives: a complete operation succeeded after at least 40 others", {{"c06_sign", p_c06_sign, 1500, 80000, "app"}, {"c06_attest", p_c06_attest, 1500, 80000, "app"}, {"c06_mixed", p_c06_mixed, 800, 40000, "app"}, {"c06_life", p_c06_life, 25, 1500, "app"}}},
        {"C07", "a case is a history of operations with random answers of the user; non-trivial: at least two reviews were answered; in the part of long lives: a complete operation succeeded after at least 40 others", {{"c07_consent", p_c07_consent, 1500, 80000, "app"}, {"c07_life", p_c07_life, 25, 1500, "app"}}},
        {"C08", "a case sends several generated paths (or one change path at the end of a signing operation); non-trivial: paths were both accepted and refused (or the change path was sent); in the part of long lives: a complete operation succeeded after at least 40 others", {{"c08_paths", p_c08_paths, 2500, 120000, "app"}, {"c08_change", p_c08_change, 1000, 50000, "app"}, {"c08_life", p_c08_life, 25, 1500, "app"}}},
        {"C09", "a case requests keys and addresses of generated seeds and paths; non-trivial: at least one was released or shown and compared with the reference derivation; in the part of long lives: a complete operation succeeded after at least 40 others", {{"c09_keys", p_c09_keys, 1500, 80000, "app"}, {"c09_derive", p_c09_derive, 800, 40000, "app"}, {"c09_life", p_c09_life, 25, 1500, "app"}}},
        {"C10", "a case is a history of valid, mutated and random commands and button presses under address and undefined-behaviour sanitizers; non-trivial: commands were refused after others were accepted; in the part of long lives: a complete operation succeeded after at least 40 others", {{"c10_chaos", p_c10_chaos, 1200, 80000, "app"}, {"c10_raw", p_c10_raw, 1500, 100000, "app"}, {"c10_limits", p_c10_limits, 300, 20000, "app"}, {"c10_uninit", p_c10_uninit, 600, 40000, "app"}, {"c10_life", p_c10_life, 25, 1500, "app"}}},
        {"C11", "a case is a transaction sent in two generated splittings, or with surplus or missing data; non-trivial: both splittings were signed, or a chunk was altered", {{"c11_twice", p_c11_twice, 600, 30000, "app"}, {"c11_surplus", p_c11_surplus, 1200, 60000, "app"}}},
        {"C12", "a case has sizes and counts at, below or above the limits; non-trivial: the command with the size or count was sent; in the part of long lives: a complete operation succeeded after at least 40 others", {{"c12_box", p_c12_box, 1000, 50000, "app"}, {"c12_tx", p_c12_tx, 1000, 50000, "app"}, {"c12_large", p_c12_large, 80, 4000, "app"}, {"c12_counts", p_c12_counts, 10, 600, "app"}, {"c12_life", p_c12_life, 25, 1500, "app"}}},
        {"C13", "a case writes and reads numbers of all widths at generated positions, or decodes generated bytes as every width, or sends a box and a transaction with numbers where encodings grow; non-trivial: always (every case encodes or decodes), for transactions when signed", {{"c13_roundtrip", p_c13_roundtrip, 3000, 200000, "unit"}, {"c13_decode", p_c13_decode, 3000, 200000, "unit"}, {"c13_wire", p_c13_wire, 600, 30000, "app"}}},
        {"C14", "a case computes with eight generated operand pairs, or drives the totals of a transaction to their limits; non-trivial: some results were representable and some were not, or a transaction was summed up or refused", {{"c14_checked", p_c14_checked, 5000, 400000, "unit"}, {"c14_amounts", p_c14_amounts, 1000, 60000, "app"}}},
        {"C15", "a case is a sequence of buffer operations with generated sizes over an exactly allocated area, or commands in exactly allocated buffers that are cut off or continued; non-trivial: operations succeeded and operations were refused, or a command was altered", {{"c15_queue", p_c15_queue, 3000, 200000, "unit"}, {"c15_reader", p_c15_reader, 1500, 100000, "unit"}, {"c15_cuts", p_c15_cuts, 800, 40000, "app"}}},
        {"C16", "a case is a history of operations (or one operation repeated with failing platform calls) after each step of which the stack, the memory and the answer are searched for key material; non-trivial: a signature's nonce was compared with the random stream, or memory was searched for at least one private key, or a platform call failed", {{"c16_nonce", p_c16_nonce, 100, 12000, "plain"}, {"c16_memory", p_c16_memory, 100, 12000, "plain"}, {"c16_faults", p_c16_faults, 100, 12000, "plain"}}},
        {"C17", "a case classifies special trees and near misses of them, or builds addresses, or sends them as outputs or address requests; non-trivial: every case that classifies or builds, or shows at least one review", {{"c17_forms", p_c17_forms, 2000, 150000, "unit"}, {"c17_address", p_c17_address, 2000, 150000, "unit"}, {"c17_shown", p_c17_shown, 1000, 60000, "app"}, {"c17_derive", p_c17_derive, 400, 20000, "app"}}},
        {"C18", "a case is a history of reviews with random browsing; non-trivial: at least one review was browsed and answered; in the part of long lives: a complete operation succeeded after at least 40 others", {{"c18_browse", p_c18_browse, 1200, 60000, "app"}, {"c18_menu", p_c18_menu, 600, 30000, "app"}, {"c18_life", p_c18_life, 25, 1500, "app"}}},
        {"C19", "a case feeds 4 to 27 raw frames to the main loop; non-trivial: well-formed and malformed frames were among them", {{"c19_frames", p_c19_frames, 2500, 120000, "app"}, {"c19_debug", p_c19_debug, 600, 30000, "debug"}}},
        {"C20", "a case is a history of sessions with foreign session ids in between; non-trivial: at least three commands were accepted; in the part of long lives: a complete operation succeeded after at least 40 others", {{"c20_sessions", p_c20_sessions, 1500, 80000, "app"}, {"c20_random", p_c20_random, 10, 500, "app"}, {"c20_life", p_c20_life, 25, 1500, "app"}}},
        {"C21", "a case is one operation run again and again with failing platform calls (in c21_every with each of its calls failing once), after which the host carries on or starts another operation; non-trivial: a platform call failed", {{"c21_random", p_c21_random, 1000, 60000, "app"}, {"c21_every", p_c21_every, 10, 1000, "app"}, {"c21_forged", p_c21_forged, 300, 15000, "app"}}},
        {"C22", "a case is an otherwise valid operation with one documented fault; non-trivial: the fault was injected and a command refused or a review rejected; in the part of long lives: a complete operation succeeded after at least 40 others", {{"c22_status", p_c22_status, 2500, 120000, "app"}, {"c22_busy", p_c22_busy, 500, 20000, "app"}, {"c22_faults", p_c22_faults, 400, 16000, "app"}, {"c22_life", p_c22_life, 25, 1500, "app"}}},
        {"C23", "a case is a history of reviews with host commands sent during them; non-trivial: at least one review was open while a command was refused", {{"c23_busy", p_c23_busy, 1200, 60000, "app"}}},
        {"C24", "a case is a sequence of requests with equal, similar, missing and zero application tokens; non-trivial: at least one request was served without asking; in the part of long lives: a complete operation succeeded after at least 40 others", {{"c24_token", p_c24_token, 2000, 100000, "app"}, {"c24_life", p_c24_life, 25, 1500, "app"}}},
        {"C25", "a case is a transaction of change, fee and other outputs around the automatic approval rule; non-trivial: it was signed; in the part of long lives: a complete operation succeeded after at least 40 others", {{"c25_auto", p_c25_auto, 1500, 80000, "app"}, {"c25_counts", p_c25_counts, 6, 300, "app"}, {"c25_life", p_c25_life, 25, 1500, "app"}}},
        {"C26", "a case runs one operation fresh and after a generated history and compares everything; non-trivial: the history was not empty; in the part of long lives: a complete operation succeeded after at least 40 others", {{"c26_history", p_c26_history, 800, 40000, "app"}, {"c26_faults", p_c26_faults, 800, 40000, "app"}, {"c26_life", p_c26_life, 40, 3000, "app"}}},
        {"C27", "a case feeds a box, an input or a transaction in a generated splitting to a streaming serialiser, half of them with deviations, directly or by commands; non-trivial: the hash of a finished item was compared, or further steps were tried after a refusal", {{"c27_box", p_c27_box, 2000, 150000, "unit"}, {"c27_input", p_c27_input, 1500, 100000, "unit"}, {"c27_full", p_c27_full, 1500, 100000, "unit"}, {"c27_streams", p_c27_streams, 800, 40000, "app"}}},
        {"C28", "a case is a history of commands and reviews with the user moving through the menu in between, and Quit at its end; non-trivial: commands were answered and menu buttons pressed", {{"c28_menu", p_c28_menu, 1000, 60000, "app"}, {"c28_nanos", p_c28_nanos, 300, 15000, "nanos"}}},
    };
    return v;
}
