#include "model.hpp"
const char *kind_name[] = {
    "accepted a wrong class", "accepted an unknown instruction", "accepted wrong P1/P2", "accepted data it must refuse", "accepted while busy", "accepted a wrong session id", "accepted without running operation", "accepted out of protocol order", "accepted an unknown subcommand", "accepted a forbidden path", "accepted truncated data", "accepted trailing data", "accepted a count beyond limits", "accepted a size beyond limits", "accepted more than declared", "accepted a small tree chunk",
    "accepted a frame that this session did not attest", "accepted a frame out of order", "accepted an overflow", "accepted a bad network", "accepted a duplicate", "accepted a bad index", "accepted an unformattable value", "accepted with something missing",
    "refused a correct key export", "refused a correct address request", "refused a correct attestation step", "refused a correct signing step", "refused a correct version or name request",
    "asked although the application is trusted", "did not ask although the application is not trusted", "asked for an output that needs no review", "did not ask for an output", "did not ask the user",
    "wrong extended public key", "wrong address", "bad session id", "wrong frame count", "wrong frame", "bad signature", "unexpected data", "wrong version or name",
    "wrong key export screens", "wrong address screens", "wrong attestation screens", "wrong signing start screens", "wrong output screens", "wrong final screens",
    "wrong status word", "error response with data", "wrong number of responses", "wrong answer to the user's decision", "wrong navigation", "menu not shown", "other"};
struct Rd {                                                        // reader over command data
    const Bytes &d; size_t p = 0; bool ok = true;
    explicit Rd(const Bytes &b) : d(b) {}
    uint64_t u(unsigned n) { if (p + n > d.size()) { ok = false; return 0; } uint64_t v = 0; for (unsigned i = 0; i < n; i++) v = v << 8 | d[p + i]; p += n; return v; }
    Bytes raw(size_t n) { if (p + n > d.size()) { ok = false; return Bytes(); } Bytes b(d.begin() + p, d.begin() + p + n); p += n; return b; }
    bool path(Path &o) { unsigned n = u(1); o.clear(); if (!ok || n == 0 || n > 10) { ok = false; return false; } for (unsigned i = 0; i < n; i++) o.push_back(u(4)); return ok; }
    size_t left() const { return d.size() - p; }
};
static B32 b32(const Bytes &b) { B32 r{}; std::copy(b.begin(), b.end(), r.begin()); return r; }

Exp Model::err(uint16_t sw, Kind reason, bool hard, bool exact) { Exp e; e.what = Exp::ERR; e.sw = sw; e.reason = reason; e.sw_exact = exact; if (hard) reset_op(); return e; }
Exp Model::ok(Kind r) { Exp e; e.what = Exp::OK; e.refuse = r; return e; }
Exp Model::ui(Kind r) { Exp e; e.what = Exp::UI; e.refuse = r; busy = true; return e; }

Exp Model::expect(const Apdu &a) {
    if (a.cla != 0xE0) return err(0x6E00, A_CLASS, false);
    switch (a.ins) {
        case 1: case 2: {
            if (a.p1 || a.p2) return err(0x6A86, A_P1P2, false);
            if (!a.data.empty()) return err(0x6A87, A_LC, false);
            Exp e = ok(R_INFO); e.data = Exp::EXACT; e.dkind = D_INFO;
            e.bytes = a.ins == 1 ? Bytes{3, 7, 5, (uint8_t) (debug ? 1 : 0)} : Bytes{'E', 'r', 'g', 'o'};
            return e;
        }
        case 0x10: if (a.p1 == 0 || a.p1 > 2 || a.p2) return err(0x6A86, A_P1P2, false); if (busy) return err(0xB000, A_BUSY, false); return epk(a);
        case 0x11: if (a.p1 == 0 || a.p1 > 2 || a.p2 == 0 || a.p2 > 2) return err(0x6A86, A_P1P2, false); if (busy) return err(0xB000, A_BUSY, false); return da(a);
        case 0x20: if (!a.p1 || !a.p2) return err(0x6A86, A_P1P2, false); if (busy) return err(0xB000, A_BUSY, false); return att(a);
        case 0x21: if (!a.p1 || !a.p2) return err(0x6A86, A_P1P2, false); if (busy) return err(0xB000, A_BUSY, false); return sign(a);
        default: return err(0x6D00, A_INS, false);
    }
}
static std::string app_text(uint32_t t) { char b[20]; snprintf(b, sizeof b, "0x%08x", t); return b; }

Exp Model::epk(const Apdu &a) {
    reset_op();
    Rd r(a.data); Path p; uint32_t tok = 0;
    if (!r.path(p)) return err(0xE014, A_SHORT);
    if (a.p1 == 2) { tok = r.u(4); if (!r.ok) return err(0xE014, A_SHORT); }
    if (r.left()) return err(0xE015, A_TRAILING);
    if (!ref::epk_path(p)) return err(0xE012, A_PATH);
    const prim::ExtKey &k = ref::key(seed, p); Bytes out(33); ref::pub33(seed, p, out.data()); out += Bytes(k.chain, k.chain + 32);
    if (tok && tok == token) { Exp e = ok(R_EPK); e.data = Exp::EXACT; e.bytes = out; e.dkind = D_XPUB; e.prompt = P_TOKEN; return e; }
    if (ref::path_str(p).size() > 59) return err(0xE101, A_FORMAT);
    review = Review(); review.type = Review::EPK; review.skind = S_EPK; review.token = tok;
    review.screens = {{"Ext PubKey Export", ""}, {"Path", ref::path_str(p)}}; if (tok) review.screens.push_back({"Application", app_text(tok)});
    review.ans = Review::DATA; review.data = out; review.dkind = D_XPUB;
    Exp e = ui(R_EPK); e.noprompt = NP_TOKEN; return e;
}
Exp Model::da(const Apdu &a) {
    reset_op();
    Rd r(a.data); Path p; uint32_t tok = 0; bool display = a.p1 == 2;
    uint8_t nw = r.u(1); if (!r.ok) return err(0xE014, A_SHORT);
    if (!r.path(p)) return err(0xE014, A_SHORT);
    if (a.p2 == 2) { tok = r.u(4); if (!r.ok) return err(0xE014, A_SHORT); }
    if (r.left()) return err(0xE015, A_TRAILING);
    if (!ref::addr_path(p)) return err(0xE012, A_PATH);
    if (nw > 252) return err(0xE016, A_NET);
    uint8_t pk[33]; ref::pub33(seed, p, pk); Bytes adr = ref::p2pk_address(nw, pk);
    if (!display && tok && tok == token) { Exp e = ok(R_DA); e.data = Exp::EXACT; e.bytes = adr; e.dkind = D_ADDR; return e; }
    if (ref::path_str(p).size() > 59) return err(0xE101, A_FORMAT);
    review = Review(); review.type = Review::DA; review.skind = S_DA; review.token = tok;
    review.screens = {{display ? "Confirm Address" : "Confirm Send Address", ""}, {"Path", ref::path_str(p)}};
    if (display) review.screens.push_back({"Address", ref::b58(adr)});
    if (tok) review.screens.push_back({"Application", app_text(tok)});
    if (!display) { review.ans = Review::DATA; review.data = adr; review.dkind = D_ADDR; }
    Exp e = ui(R_DA); e.noprompt = NP_TOKEN; return e;
}
Exp Model::att_done_or_ok() {
    if (bst == B_DONE && !att_done) {
        att_done = true; boxid = ref::box_id(box);
        Exp e = ok(R_ATT); e.data = Exp::EXACT; e.bytes = Bytes{(uint8_t) frames_count()}; e.dkind = D_COUNT; return e;
    }
    return ok(R_ATT);
}
Exp Model::att(const Apdu &a) {
    if (a.p1 == 1) {
        if (a.p2 > 2) return err(0x6A86, A_P1P2);
        reset_op(); cmd = ATT;
        Rd r(a.data); Bytes id = r.raw(32); if (!r.ok) return err(0xE014, A_SHORT);
        box = Box(); box.txid = b32(id); box.index = r.u(2); box.value = r.u(8); tree_left = r.u(4); box.height = r.u(4); toks_left = r.u(1); regs_left = r.u(4);
        uint32_t tok = 0; if (a.p2 == 2) tok = r.u(4);
        if (!r.ok) return err(0xE014, A_SHORT);
        if (r.left()) return err(0xE015, A_TRAILING);
        int bad = (toks_left > 20) + (tree_left > 32768 || regs_left > 32768);
        if (toks_left > 20) return err(0xE00A, A_COUNT, true, bad == 1);
        if (tree_left > 32768 || regs_left > 32768) return err(0xE015, A_SIZE);
        bst = B_TREE; tree_started = false; att_done = false;
        if (tok && tok == token) { approved = true; Exp e = ok(R_ATT); e.data = Exp::SESSION; e.dkind = D_SESSION; return e; }
        review = Review(); review.type = Review::ATT; review.skind = S_ATT; review.token = tok;
        review.screens = {{"Confirm Attest Input", ""}}; if (tok) review.screens.push_back({"Application", app_text(tok)});
        review.ans = Review::SESSION; review.dkind = D_SESSION;
        Exp e = ui(R_ATT); e.noprompt = NP_TOKEN; return e;
    }
    if (a.p1 > 5) return err(0xB003, A_SUBCMD);
    if (cmd != ATT) return err(0xB0FF, A_NOCMD);
    if (a.p2 != session) return err(0xB002, A_SESSION);
    switch (a.p1) {
        case 2: {
            if (bst != B_TREE) return err(0xB0FF, A_STATE);
            if (a.data.size() > tree_left) return err(0xE015, A_SURPLUS);
            if (a.data.size() < tree_left && a.data.size() < 255) return err(0xE01A, A_CHUNK);
            box.tree += a.data; tree_left -= a.data.size(); tree_started = true;
            if (!tree_left) { bst = toks_left ? B_TOKENS : regs_left ? B_REGS : B_DONE; return att_done_or_ok(); }
            return ok(R_ATT);
        }
        case 3: {
            if (bst != B_TOKENS) return err(0xB0FF, A_STATE);
            Rd r(a.data);
            while (r.left()) {
                if (!toks_left) return err(0xE00A, A_SURPLUS);
                Bytes id = r.raw(32); if (!r.ok) return err(0xE001, A_SHORT);
                uint64_t v = r.u(8); if (!r.ok) return err(0xE002, A_SHORT);
                for (auto &t : box.tokens) if (t.id == b32(id)) return err(0xE001, A_DUP);
                box.tokens.push_back({b32(id), v}); toks_left--;
            }
            if (!toks_left) { bst = regs_left ? B_REGS : B_DONE; return att_done_or_ok(); }
            return ok(R_ATT);
        }
        case 4: {
            if (bst != B_REGS) return err(0xB0FF, A_STATE);
            if (a.data.size() > regs_left) return err(0xE015, A_SURPLUS);
            box.regs += a.data; regs_left -= a.data.size();
            if (!regs_left) { bst = B_DONE; return att_done_or_ok(); }
            return ok(R_ATT);
        }
        default: {
            if (!att_done) return err(0xB0FF, A_MISSING);
            if (a.data.empty()) return err(0xE014, A_SHORT);
            if (a.data.size() > 1) return err(0xE015, A_TRAILING);
            if (a.data[0] >= frames_count()) return err(0xE007, A_INDEX);
            Exp e = ok(R_ATT); e.data = Exp::ANYDATA; e.bytes = ref::frame(boxid, frames_count(), a.data[0], box.value, box.tokens); e.dkind = D_FRAME; return e;
        }
    }
}
void Model::out_review() {
    const Output &o = tx.out.back();
    review = Review(); review.type = Review::OUT; review.skind = ::S_OUT;
    review.screens = {{"Confirm Output", ""}};
    if (o.kind == Output::CHANGE) { review.screens.push_back({"Change", ref::path_str(o.path)}); review.unshowable = ref::path_str(o.path).size() > 69; }
    else {
        if (o.kind == Output::FEE) review.screens.push_back({"Fee", "Miners Fee"}); else review.screens.push_back(ref::tree_destination(o.tree, net));
        review.screens.push_back({"Output Value", ref::erg(o.value)});
        std::vector<uint64_t> amt(20, 0); for (auto &t : o.tokens) amt[t.first] += t.second;
        unsigned k = 0;
        for (unsigned i = 0; i < 20; i++) if (amt[i]) { k++; std::string n = "Token [" + std::to_string(k) + "]"; review.screens.push_back({n, ref::token_text(table[i], nanos)}); review.screens.push_back({n + " Value", std::to_string(amt[i])}); }
    }
    review.ans = Review::EMPTY;
}
Exp Model::out_step() {
    // after a tree, tokens or registers step of an output
    if (ost != B_DONE || !out_open) { return ok(R_SIGN); }
    out_open = false;
    Output &o = tx.out.back();
    if (tx.out.size() == n_out) phase = S_DONE;
    bool ask = true;
    if (o.kind == Output::FEE) { ask = false; for (auto &t : o.tokens) if (t.second) ask = true; }
    else if (o.kind == Output::CHANGE && ref::addr_path5(o.path)) {
        if (o.path == last_change) ask = false;
        else if (o.path[0] == path[0] && o.path[1] == path[1] && o.path[2] == path[2] && o.path[3] == path[3] && (uint64_t) o.path[4] < (uint64_t) path[4] + 20) ask = false;
    }
    if (!ask) { Exp e = ok(R_SIGN); e.prompt = P_OUT; return e; }
    last_change.clear(); out_review();
    Exp e = ui(R_SIGN); e.noprompt = NP_OUT; return e;
}
static std::string i128(__int128 v) { if (v < 0) v = -v; if (v == 0) return "0"; std::string s; while (v) { s.insert(s.begin(), '0' + (int) (v % 10)); v /= 10; } return s; }
void Model::final_review() {
    review = Review(); review.type = Review::FINAL; review.skind = ::S_FINAL;
    review.screens = {{"Approve Signing", ""}, {"P2PK Path", ref::path_str(path)}, {"Transaction Amount", ref::erg((uint64_t) value)}, {"Transaction Fee", ref::erg((uint64_t) fee)}};
    unsigned k = 0;
    for (size_t i = 0; i < table.size(); i++) if (net_tokens[i] != 0) { k++; std::string n = "Token [" + std::to_string(k) + "]"; review.screens.push_back({n, ref::token_text(table[i], nanos)}); review.screens.push_back({n + " Value", (net_tokens[i] < 0 ? "Minting: " : "Burning: ") + i128(net_tokens[i])}); }
    review.ans = Review::SIG; review.dkind = D_SIG;
}
static const __int128 I64MAX = INT64_MAX, I64MIN = INT64_MIN, U64MAX = UINT64_MAX;
Exp Model::sign(const Apdu &a) {
    Rd r(a.data);
    if (a.p1 == 1) {
        if (a.p2 > 2) return err(0x6A86, A_P1P2, false);
        reset_op(); cmd = SIGN;
        uint8_t nw = r.u(1); if (!r.ok) return err(0xE014, A_SHORT);
        Path p; if (!r.path(p)) return err(0xE010, A_SHORT);
        uint32_t tok = 0; if (a.p2 == 2) { tok = r.u(4); if (!r.ok) return err(0xE014, A_SHORT); }
        if (r.left()) return err(0xE015, A_TRAILING);
        bool badnet = nw != 0 && nw != 0x10;
        if (!ref::addr_path(p)) return err(0xE012, A_PATH, true, !badnet);
        if (badnet) return err(0xE019, A_NET);
        if (ref::path_str(p).size() > 59) return err(0xE101, A_FORMAT);
        net = nw; path = p; phase = S_INIT; tx = Tx(); table.clear(); net_tokens.clear(); value = fee = 0; last_change.clear(); out_open = false; ist = I_IDLE; ost = B_DONE;
        review = Review(); review.type = Review::START; review.skind = S_START; review.token = tok;
        review.screens = {{"P2PK Signing", ref::path_str(p)}}; if (!(tok && tok == token)) review.screens.push_back({"Application", app_text(tok)});
        review.ans = Review::SESSION; review.dkind = D_SESSION;
        return ui(R_SIGN);
    }
    if (a.p1 < 0x10 || a.p1 > 0x20 || (a.p1 > 0x1A && a.p1 < 0x20)) return err(0xB003, A_SUBCMD);
    if (cmd != SIGN) return err(0xB0FF, A_NOCMD);
    if (a.p2 != session) return err(0xB002, A_SESSION);
    auto order = [&]() { return err(0xB0FF, A_STATE); };
    switch (a.p1) {
        case 0x10: {
            n_in = r.u(2); n_data = r.u(2); n_tok = r.u(1); n_out = r.u(2);
            bool st = phase == S_INIT;
            if (!r.ok) return err(0xE014, A_SHORT, true, st);
            if (r.left()) return err(0xE015, A_TRAILING, true, st);
            if (!st) return order();
            int bad = (n_in == 0) + (n_out == 0) + (n_tok > 20);
            if (n_in == 0) return err(0xE008, A_COUNT, true, bad == 1);
            if (n_out == 0) return err(0xE009, A_COUNT, true, bad == 1);
            if (n_tok > 20) return err(0xE00A, A_COUNT);
            phase = n_tok ? S_TOKENS : S_INPUTS; ist = I_IDLE; return ok(R_SIGN);
        }
        case 0x11: {
            if (phase != S_TOKENS) return order();
            while (r.left()) {
                if (table.size() == n_tok) return err(0xE00A, A_SURPLUS);
                Bytes id = r.raw(32); if (!r.ok) return err(0xE001, A_SHORT);
                for (auto &t : table) if (t == b32(id)) return err(0xE001, A_DUP);
                table.push_back(b32(id)); net_tokens.push_back(0); tx.tokens.push_back(b32(id));
            }
            if (table.size() == n_tok) { phase = S_INPUTS; ist = I_IDLE; }
            return ok(R_SIGN);
        }
        case 0x12: {
            bool st = phase == S_INPUTS;
            if (a.data.size() < 43 + 16) return err(0xE014, A_SHORT, true, st);
            unsigned tc = a.data[42]; size_t fl = 43 + 40 * tc;
            if (fl + 16 > a.data.size()) return err(0xE014, A_SHORT, true, st && tc <= 4);
            Bytes fr(a.data.begin(), a.data.begin() + fl + 16);
            if (!authentic.count(fr)) return err(0xE018, A_MAC, true, st && tc <= 4);
            unsigned cnt = a.data[32], idx = a.data[33]; B32 id = b32(Bytes(a.data.begin(), a.data.begin() + 32));
            Rd q(a.data); q.p = 34; uint64_t v = q.u(8); q.p = 43; std::vector<Token> toks;
            for (unsigned i = 0; i < tc; i++) { Bytes t = q.raw(32); uint64_t am = q.u(8); toks.push_back({b32(t), am}); }
            q.p = fl + 16;
            if (idx == 0) {
                uint32_t ext = q.u(4);
                if (!q.ok) return err(0xE014, A_SHORT, true, st);
                if (!st || ist != I_IDLE) return order();
                if (ext == 1 || ext > 32768) return err(0xE003, A_SIZE);
                if (value + v > U64MAX) return err(0xE011, A_OVERFLOW);
                value += v; ist = I_FRAMES; fr_count = cnt; fr_done = 0; cur_id = id; ext_left = ext;
                Input in; in.box.id = id; in.box.value = v; tx.in.push_back(in);
            }
            if (q.left()) { Exp e; e.what = Exp::UNSPEC; return e; }
            if (phase != S_INPUTS || ist != I_FRAMES) return err(0xB0FF, A_FRAMEORDER);
            if (id != cur_id) return err(0xE005, A_FRAMEORDER);
            if (idx != fr_done) return err(0xE007, A_FRAMEORDER, true, idx < fr_count);
            for (auto &t : toks) {
                size_t k = 0; while (k < table.size() && table[k] != t.id) k++;
                if (k == table.size()) { if (k == 20) return err(0xE00A, A_COUNT); table.push_back(t.id); net_tokens.push_back(0); }
                if (net_tokens[k] + t.amount > I64MAX) return err(0xE011, A_OVERFLOW);
                net_tokens[k] += t.amount; tx.in.back().box.tokens.push_back(t);
            }
            if (++fr_done == fr_count) { if (ext_left) ist = I_EXT; else finish_input(); }
            return ok(R_SIGN);
        }
        case 0x13: {
            if (phase != S_INPUTS || ist != I_EXT) return order();
            if (a.data.size() > ext_left) return err(0xE015, A_SURPLUS);
            tx.in.back().ext += a.data; ext_left -= a.data.size(); if (!ext_left) finish_input();
            return ok(R_SIGN);
        }
        case 0x14: {
            if (phase != S_DATA) return order();
            while (r.left()) { if (tx.data.size() == n_data) return err(0xE00C, A_SURPLUS); Bytes id = r.raw(32); if (!r.ok) return err(0xE004, A_SHORT); tx.data.push_back(b32(id)); }
            if (tx.data.size() == n_data) phase = S_OUTPUTS;
            return ok(R_SIGN);
        }
        case 0x15: {
            Output o; o.value = r.u(8); o_tree_left = r.u(4); o.height = r.u(4); o_toks_left = r.u(1); o_regs_left = r.u(4);
            bool st = phase == S_OUTPUTS && !out_open;
            if (!r.ok) return err(0xE014, A_SHORT, true, st);
            if (r.left()) return err(0xE015, A_TRAILING, true, st);
            if (!st) return order();
            int bad = (o_toks_left > 20) + (o_tree_left > 32768 || o_regs_left > 32768);
            if (o_toks_left > 20) return err(0xE00A, A_COUNT, true, bad == 1);
            if (bad) return err(0xE015, A_SIZE);
            tx.out.push_back(o); out_open = true; ost = B_TREE; o_tree_started = false; o_seen_zero.clear();
            return ok(R_SIGN);
        }
        case 0x16: {
            if (!out_open || ost != B_TREE) return order();
            if (a.data.size() > o_tree_left) return err(0xE015, A_SURPLUS);
            if (a.data.size() < o_tree_left && a.data.size() < 255) return err(0xE01A, A_CHUNK);
            tx.out.back().tree += a.data; o_tree_left -= a.data.size(); o_tree_started = true;
            if (o_tree_left) return ok(R_SIGN);
            ost = o_toks_left ? B_TOKENS : o_regs_left ? B_REGS : B_DONE; return out_step();
        }
        case 0x17: case 0x18: {
            Output::Kind k = a.p1 == 0x17 ? Output::FEE : Output::CHANGE; Path p;
            bool st = out_open && ost == B_TREE && !o_tree_started && o_tree_left == 0;
            if (k == Output::FEE) { if (r.left()) return err(0xE015, A_TRAILING, true, st); }
            else {
                if (!r.path(p)) return err(0xE010, A_SHORT, true, st);
                if (!ref::addr_path(p)) return err(0xE012, A_PATH, true, st);
                if (r.left()) { Exp e; e.what = Exp::UNSPEC; return e; }
            }
            if (!st) return order();
            Output &o = tx.out.back(); o.kind = k; o.path = p;
            if (value < o.value) return err(0xE011, A_OVERFLOW);
            value -= o.value; if (k == Output::FEE) fee += o.value;   // fee is at most the sum of the inputs
            ost = o_toks_left ? B_TOKENS : o_regs_left ? B_REGS : B_DONE; return out_step();
        }
        case 0x19: {
            if (!out_open || ost != B_TOKENS) return order();
            Output &o = tx.out.back();
            while (r.left()) {
                if (!o_toks_left) return err(0xE00A, A_SURPLUS);
                uint32_t i = r.u(4); if (!r.ok) return err(0xE006, A_SHORT);
                if (i >= n_tok) return err(0xE006, A_INDEX);
                uint64_t v = r.u(8); if (!r.ok) return err(0xE002, A_SHORT);
                for (auto &t : o.tokens) if (t.first == i) { if (t.second) return err(0xE002, A_DUP); Exp e; e.what = Exp::UNSPEC; return e; }
                if (net_tokens[i] - (__int128) v < I64MIN) return err(0xE011, A_OVERFLOW);
                net_tokens[i] -= v; o.tokens.push_back({i, v}); o_toks_left--;
            }
            if (!o_toks_left) ost = o_regs_left ? B_REGS : B_DONE;
            return out_step();
        }
        case 0x1A: {
            if (!out_open || ost != B_REGS) return order();
            if (a.data.size() > o_regs_left) return err(0xE015, A_SURPLUS);
            tx.out.back().regs += a.data; o_regs_left -= a.data.size(); if (!o_regs_left) ost = B_DONE;
            return out_step();
        }
        default: {                                                 // 0x20 confirm
            if (phase != S_DONE) return err(0xB0FF, A_MISSING);
            if (r.left()) { Exp e; e.what = Exp::UNSPEC; return e; }
            phase = S_FINALIZED; final_review(); Exp e = ui(R_SIGN); return e;
        }
    }
}
void Model::finish_input() {
    ist = I_IDLE;
    if (tx.in.size() == n_in) phase = n_data ? S_DATA : S_OUTPUTS;
}
void Model::answered(bool approve) {
    busy = false;
    Review::Type t = review.type;
    if (!approve) { reset_op(); return; }
    switch (t) {
        case Review::EPK: case Review::DA: token = review.token; reset_op(); break;
        case Review::ATT: case Review::START: token = review.token; approved = true; break;
        case Review::OUT: if (tx.out.back().kind == Output::CHANGE) last_change = tx.out.back().path; break;
        case Review::FINAL: reset_op(); break;
        default: break;
    }
    review = Review();
}
