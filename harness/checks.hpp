#pragma once
#include "gen.hpp"
#include <cstring>
#include <functional>
void scene(Case &c, Mask mask, const std::function<void(Session &)> &f, const char *variant = "app");
void near(Case &c, Bytes &t); Bytes special(Case &c);   // near misses of the special trees
#define P(n) void n(Case &);
P(p_c01_small) P(p_c01_general) P(p_c01_history) P(p_c01_counts) P(p_c01_nonces) P(p_c02_outputs) P(p_c02_nanos) P(p_c02_reviewed) P(p_c02_counts) P(p_c03_totals) P(p_c03_edges) P(p_c03_counts) P(p_c04_frames) P(p_c05_frames) P(p_c05_key)
P(p_c06_sign) P(p_c06_attest) P(p_c06_mixed) P(p_c07_consent) P(p_c08_paths) P(p_c08_change) P(p_c09_keys) P(p_c09_derive) P(p_c10_chaos) P(p_c10_raw) P(p_c10_limits) P(p_c10_uninit)
P(p_c11_twice) P(p_c11_surplus) P(p_c12_box) P(p_c12_tx) P(p_c12_large) P(p_c12_counts) P(p_c16_nonce) P(p_c16_memory) P(p_c16_faults) P(p_c18_browse) P(p_c18_menu) P(p_c19_frames) P(p_c19_debug) P(p_c20_sessions) P(p_c20_random)
P(p_c21_random) P(p_c21_every) P(p_c21_forged) P(p_c22_faults) P(p_c22_status) P(p_c22_busy) P(p_c23_busy) P(p_c24_token) P(p_c25_auto) P(p_c26_history) P(p_c26_faults) P(p_c26_life) P(p_c08_life) P(p_c25_counts) P(p_c02_life) P(p_c03_life) P(p_c06_life) P(p_c12_life) P(p_c18_life) P(p_c22_life) P(p_c24_life) P(p_c25_life) P(p_c01_life) P(p_c04_life) P(p_c05_life) P(p_c07_life) P(p_c09_life) P(p_c10_life) P(p_c20_life)
P(p_c13_roundtrip) P(p_c13_decode) P(p_c14_checked) P(p_c15_queue) P(p_c15_reader) P(p_c17_forms) P(p_c17_address) P(p_c27_box) P(p_c27_input) P(p_c27_full)
P(p_c13_wire) P(p_c14_amounts) P(p_c15_cuts) P(p_c17_shown) P(p_c17_derive) P(p_c27_streams) P(p_c28_menu) P(p_c28_nanos)
#undef P
