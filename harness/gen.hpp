// Generators of boxes, transactions, command plans and deviations from them.
#pragma once
#include "session.hpp"
struct GenOpts {
    unsigned max_in = 3, max_out = 4, max_data = 3, max_tok = 6;
    bool big = true;                                   // now and then large sizes and counts
    bool extreme = false;                              // amounts around the 64-bit limits
    unsigned app_tok = 30;                             // percent of commands with application token
    bool unshowable = false;                           // change paths too long for the screen
    bool few_sizes = false;                            // keep trees and registers small
};
struct GTx {
    std::vector<Box> boxes; std::vector<unsigned> in; std::vector<Bytes> ext; std::vector<B32> data, tokens; std::vector<Output> out;
    Path path; uint8_t net = 0; uint32_t tok = 0; bool has_tok = false; bool att_tok = false;     // att_tok: the inputs are attested under the same application token
    std::vector<std::vector<Bytes>> frames;            // of every box, once attested
};
namespace gen {
Bytes seed(Case &c);
B32 id(Case &c);
std::vector<B32> ids(Case &c, unsigned n);             // distinct, some of them nearly equal
uint64_t erg(Case &c);
uint32_t app_token(Case &c);
Path epk_path(Case &c); Path addr_path(Case &c, unsigned maxtext);   // valid, of displayable length
Path long_path(Case &c, bool addr);                     // valid, text length around the buffer sizes
Path any_path(Case &c);                                // mostly invalid, near the policy
Bytes own_tree(Case &c, const Path &of);
Bytes tree(Case &c, const GenOpts &o); Bytes regs(Case &c, const GenOpts &o, bool ext = false);
size_t size(Case &c, const GenOpts &o);
Box box(Case &c, const GenOpts &o, const std::vector<B32> &pool);
GTx request(Case &c);
GTx tx(Case &c, const GenOpts &o);
Plan epk(Case &c, const Path &p, uint32_t tok, bool has);
Plan da(Case &c, bool display, uint8_t net, const Path &p, uint32_t tok, bool has);
Plan attest(Case &c, const Box &b, uint32_t tok, bool has, bool get_frames = true, bool simple = false);
Plan sign(Case &c, const GTx &g, bool confirm = true, bool simple = false);   // needs frames
bool attest_all(Session &s, GTx &g);                   // attests all boxes and stores their frames
void mutate(Case &c, Plan &p, Session &s);             // one deviation somewhere
Apdu junk(Case &c, Session &s);                        // any command, well formed or not
Apdu mangle(Case &c, Apdu a);
Apdu probe(Session &s);                                // for sending during reviews
bool op_epk(Session &s, const GenOpts &o); bool op_da(Session &s, const GenOpts &o); bool op_attest(Session &s, const GenOpts &o); bool op_sign(Session &s, const GenOpts &o, unsigned mut = 0);
void history(Session &s, const GenOpts &o, unsigned n, unsigned mut); // random operations, `mut` percent with deviations
}
