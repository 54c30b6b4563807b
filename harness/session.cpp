#include "session.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
void Session::deviates(Kind k, const char *fmt, ...) {
    if (!(mask >> k & 1)) { char l[80]; snprintf(l, sizeof l, "not judged here: %s", kind_name[k]); c.label(l); if (getenv("VP_DEV")) { char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); c.note("DEVIATION %s %s", kind_name[k], b); if (!strcmp(getenv("VP_DEV"), "2")) fail("DEV %s %s", kind_name[k], b); } return; }
    char b[2600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    fail("%s: %s", kind_name[k], b);
}
std::string show_screens(const std::vector<host::Screen> &v) { std::string s; for (auto &x : v) s += "{" + x.title + (x.text.empty() ? "" : "|" + x.text) + "}"; return s; }
static std::string show(const Reply &r) { char b[64]; snprintf(b, sizeof b, "%d response(s) sw=%04x data[%zu]=", r.n, r.sw, r.data.size()); return b + hx(r.data).substr(0, 160) + (r.ui ? " +review" : ""); }

void Session::boot(const Bytes &sd, uint64_t rng_seed, dev::RngFn rng) {
    Bytes seed = sd;                                    // may be m.seed
    dev::boot(seed, rng_seed ^ (0x9E3779B97F4A7C15ull * boots++), rng); last_session = 0;   // no two starts of a case share their random numbers
    bool n = m.nanos, d = m.debug; m = Model(); m.nanos = n; m.debug = d; m.seed = seed; ui_open = false;
}
// after its end an operation's steps keep its id: nothing may continue it
Apdu Session::fill(const Step &s) { Apdu a = s.a; if (m.session) last_session = m.session; if (s.ses) a.p2 = m.session ? m.session : last_session; return a; }

// the user is somewhere in the main menu or its About page when the next command comes
void Session::menu() {
    for (unsigned i = 0, n = 1 + c.t.below(7); i < n; i++) {
        unsigned b = c.t.weighted({3, 2, 2}); b = b == 0 ? 1 : b == 1 ? 2 : 0;   // right, both, left
        if (b == 2 && at("Quit")) b = 1;
        Reply r = press(b);
        if (r.n || host::exited) { deviates(W_NAV, "button %u in the menu, now {%s}, -> %s%s", b, host::screen.title.c_str(), ::show(r).c_str(), host::exited ? ", quit" : ""); throw Diverged(); }
    }
    c.label(host::screen == dev::menu ? "commands after browsing the menu" : "commands while the menu shows another page");
}
Exp::What Session::step(const Apdu &a) { if (!ui_open && p_menu && c.t.chance(p_menu, 100)) menu(); Exp::What w = step1(a); if (settled) settled(*this); return w; }
Exp::What Session::step1(const Apdu &a) {
    bool was_busy = ui_open; host::Screen before = host::screen;
    if (record) record->push_back({3, a});
    browsing = false; Reply r = last = dev::send(c, a);
    Exp e = m.expect(a);
    c.note("%s -> %04x%s%s", show(a).c_str(), r.sw, r.data.empty() ? "" : (" " + hx(r.data).substr(0, 24)).c_str(), r.ui ? " review" : "");
    bool review = r.n == 0 && r.ui;
    if (r.n > 1 || (r.n == 0 && !review) || (r.n == 1 && r.ui && !was_busy)) { deviates(W_RESP, "%s -> %s", show(a).c_str(), show(r).c_str()); throw Diverged(); }
    if (was_busy && host::screen != before) { deviates(W_OTHER, "%s changed the screen under review from {%s|%s} to {%s|%s}", show(a).c_str(), before.title.c_str(), before.text.c_str(), host::screen.title.c_str(), host::screen.text.c_str()); throw Diverged(); }
    if (r.n == 1 && r.sw != 0x9000 && !r.data.empty()) deviates(W_ERRDATA, "%s -> %s", show(a).c_str(), show(r).c_str());
    if (tracing) { char b[64]; snprintf(b, sizeof b, "%02x%02x:%d:%04x;", a.ins, a.p1, r.n, r.n ? r.sw : 0); trace += b; if (e.what == Exp::OK && e.data == Exp::EXACT) trace += hx(r.data); if (e.what == Exp::OK && e.data == Exp::ANYDATA && r.data.size() > 16) trace += hx(Bytes(r.data.begin(), r.data.end() - 16)); }
    switch (e.what) {
        case Exp::UNSPEC: c.label("unspecified step"); throw Diverged();
        case Exp::ERR:
            n_err++;
            if (review || r.sw == 0x9000) { deviates(e.reason, "%s expected %04x -> %s", show(a).c_str(), e.sw, show(r).c_str()); throw Diverged(); }
            if (e.sw_exact && r.sw != e.sw) deviates(W_SW, "%s expected %04x, got %04x (%s)", show(a).c_str(), e.sw, r.sw, kind_name[e.reason]);
            if (m.busy && !ui_open) throw Diverged();
            return e.what;
        case Exp::OK:
            n_ok++;
            if (review) { deviates(e.prompt, "%s -> review %s", show(a).c_str(), host::screen.title.c_str()); throw Diverged(); }
            if (r.sw != 0x9000) { deviates(e.refuse, "%s -> %s", show(a).c_str(), show(r).c_str()); throw Diverged(); }
            switch (e.data) {
                case Exp::EMPTY: if (!r.data.empty()) deviates(D_EXTRA, "%s -> %s", show(a).c_str(), show(r).c_str()); break;
                case Exp::EXACT: if (r.data != e.bytes) deviates(e.dkind, "%s -> %s, expected %s", show(a).c_str(), show(r).c_str(), hx(e.bytes).c_str()); break;
                case Exp::SESSION: if (r.data.size() != 1 || r.data[0] == 0) { deviates(D_SESSION, "%s -> %s", show(a).c_str(), show(r).c_str()); throw Diverged(); } m.learn_session(r.data[0]); break;
                case Exp::ANYDATA: {
                    const Bytes &f = e.bytes; bool good = r.data.size() == f.size() + 16 && std::equal(f.begin(), f.end(), r.data.begin());
                    if (good) {
                        Bytes mac(r.data.end() - 16, r.data.end()); bool found = false;
                        for (size_t i = 0; i + 16 <= dev::init_random.size() && !found; i++) found = ref::mac16(Bytes(dev::init_random.begin() + i, dev::init_random.begin() + i + 16), f) == mac;
                        good = found;
                    }
                    if (!good) deviates(D_FRAME, "%s -> %s, expected %s and its MAC", show(a).c_str(), show(r).c_str(), hx(f).c_str());
                    m.authentic[r.data] = true; last_frame = r.data; n_frames++;
                    break;
                }
            }
            return e.what;
        case Exp::UI:
            n_ui++;
            if (!review && r.sw == 0x9000) { deviates(e.noprompt, "%s -> %s", show(a).c_str(), show(r).c_str()); throw Diverged(); }
            if (!review) { deviates(e.refuse, "%s -> %s", show(a).c_str(), show(r).c_str()); throw Diverged(); }
            ui_open = true; walked.clear(); pos = 0;
            return e.what;
    }
    return e.what;
}
Reply Session::press(int b) { if (record) record->push_back({b, Apdu()}); Reply r = dev::press(c, b); if (settled && !r.n) settled(*this);
    if (b == 1 && !r.n && host::screen.at_end) deviates(W_NAV, "%s, reached by going on, starts with the end of its text: %s", host::screen.title.c_str(), host::screen.text.c_str());
    return r; }
void Session::walk() {
    walked.clear(); pos = 0; walked.push_back(host::screen);
    for (int i = 0; i < 70; i++) {
        Reply r = press(1);
        if (r.n || host::screen == dev::menu) { last = r; browsing = r.n; if (!host::fault_hook) deviates(m.review.skind, "after %s the review ends by itself: %s", show_screens(walked).c_str(), ::show(r).c_str()); deviates(W_NAV, "browsing answered the review: %s", ::show(r).c_str()); throw Diverged(); }
        if (host::screen == walked[0]) break;
        walked.push_back(host::screen);
    }
    if (host::screen != walked[0]) { deviates(m.review.skind, "the review has no end: %s", show_screens(walked).c_str()); deviates(W_NAV, "the review does not come around: %s", show_screens(walked).c_str()); throw Diverged(); }
    auto want = m.review.screens; want.push_back({"Approve", ""}); want.push_back({"Reject", ""});
    bool same = want.size() == walked.size();
    for (size_t i = 0; same && i < want.size(); i++) same = walked[i].title == want[i].first && walked[i].text == want[i].second;
    if (!same) { std::string w; for (auto &x : want) w += "{" + x.first + (x.second.empty() ? "" : "|" + x.second) + "}"; deviates(m.review.skind, "shown %s expected %s", show_screens(walked).c_str(), w.c_str()); }
    if (tracing) trace += show_screens(walked);
    if (m.review.type == Review::FINAL) last_final = show_screens(walked);
}
// a page that none of the review's own is like: what is under review is misstated, wherever the page belongs
void Session::foreign() {
    for (auto &x : walked) if (x.title == host::screen.title && x.text == host::screen.text) return;
    deviates(m.review.skind, "seen once more, {%s|%s} is {%s|%s}", walked[pos].title.c_str(), walked[pos].text.c_str(), host::screen.title.c_str(), host::screen.text.c_str());
}
void Session::wander() {
    // every position of the review, from either side, shows what the first pass showed
    size_t n = walked.size(); unsigned len = 1 + c.t.below(wander_len);
    unsigned style = c.t.below(3);
    for (unsigned i = 0; i < len; i++) {
        unsigned b = style == 1 ? 0 : style == 2 ? (c.t.below(6) == 0) : c.t.below(9) / 4;   // 0 left 1 right 2 both
        if (style == 1 && c.t.below(8) == 7) b = 1;
        if (b == 2) {
            const std::string &t = walked[pos].title;
            if (t == "Approve" || t == "Reject" || (m.review.type == Review::START && pos == 0)) continue;
        }
        Reply r = press(b);
        if (b == 1) pos = (pos + 1) % n; else if (b == 0) pos = (pos + n - 1) % n;
        if (r.n || host::screen == dev::menu) { deviates(W_NAV, "button %u on {%s} answered the review: %s", b, walked[pos].title.c_str(), ::show(r).c_str()); throw Diverged(); }
        if (b == 2) { if (host::screen != walked[pos] && host::screen != walked[(pos + 1) % n]) deviates(W_NAV, "both buttons on {%s} lead to {%s|%s}", walked[pos].title.c_str(), host::screen.title.c_str(), host::screen.text.c_str()); if (host::screen != walked[pos]) pos = (pos + 1) % n; }
        if (host::screen != walked[pos]) { foreign(); deviates(W_NAV, "screen %zu of %s: expected {%s|%s}, shown {%s|%s} after move %u", pos, show_screens(walked).c_str(), walked[pos].title.c_str(), walked[pos].text.c_str(), host::screen.title.c_str(), host::screen.text.c_str(), i); throw Diverged(); }
    }
    c.label("browsed reviews");
}
void Session::probes() {
    unsigned n = 1 + c.t.below(probe_len);
    for (unsigned i = 0; i < n; i++) {
        Review keep = m.review; Apdu a = probe(*this); step(a); m.review = keep;
        host::Screen s = host::screen; host::redraw();
        if (host::screen != s) { deviates(W_OTHER, "the data under review changed: {%s|%s} -> {%s|%s}", s.title.c_str(), s.text.c_str(), host::screen.title.c_str(), host::screen.text.c_str()); throw Diverged(); }
    }
    c.label("reviews with host commands");
}
bool Session::at(const char *t) { return host::screen.title == t; }
bool Session::answer(bool approve) {
    if (p_probe && probe && c.t.chance(p_probe, 100)) probes();
    if (m.review.unshowable) {
        c.label("review with a path too long for the screen");
        Reply r = last = press(1); ui_open = false;
        if (r.n == 0) { deviates(m.review.skind, "a path of %zu characters is shown as %s", m.review.screens[1].second.size(), host::screen.text.c_str()); throw Diverged(); }
        if (r.n != 1) { deviates(W_RESP, "unshowable review -> %s", ::show(r).c_str()); throw Diverged(); }
        if (r.sw == 0x9000) { deviates(A_FORMAT, "path of %zu characters approved", m.review.screens[1].second.size()); throw Diverged(); }
        if (r.sw != 0xE101) deviates(W_SW, "unshowable path answered %04x", r.sw);
        if (!r.data.empty()) deviates(W_ERRDATA, "unshowable path -> %s", ::show(r).c_str());
        if (host::screen != dev::menu) deviates(W_MENU, "after an unshowable path: {%s|%s}", host::screen.title.c_str(), host::screen.text.c_str());
        m.failed_review(); if (settled) settled(*this); return false;
    }
    walk();
    if (p_wander && c.t.chance(p_wander, 100)) wander();
    if (p_probe && probe && c.t.chance(p_probe, 100)) probes();
    const char *t = approve ? "Approve" : "Reject";
    bool quick = m.review.type == Review::START && approve && pos == 0 && p_wander && c.t.chance(1, 4);   // both buttons on the path approve as well
    int dir = c.t.chance(1, 3) ? 0 : 1;
    for (int i = 0; i < 80 && !at(t) && !quick; i++) {
        Reply r = press(dir); if (r.n) { deviates(W_NAV, "browsing answered the review"); throw Diverged(); }
        pos = (pos + (dir ? 1 : walked.size() - 1)) % walked.size();
        if (host::screen != walked[pos]) { foreign(); deviates(W_NAV, "screen %zu of %s: expected {%s|%s}, shown {%s|%s} on the way to the answer", pos, show_screens(walked).c_str(), walked[pos].title.c_str(), walked[pos].text.c_str(), host::screen.title.c_str(), host::screen.text.c_str()); }
    }
    if (!quick && !at(t)) { deviates(W_NAV, "no %s screen in %s", t, show_screens(walked).c_str()); throw Diverged(); }
    if (p_probe && probe && c.t.chance(p_probe, 200)) probes();
    Review rv = m.review; host::draws.clear();
    Reply r = last = press(2); ui_open = false;
    c.note("%s %s -> %04x%s", approve ? "approve" : "reject", rv.screens[0].first.c_str(), r.sw, r.data.empty() ? "" : (" " + hx(r.data).substr(0, 24)).c_str());
    if (r.n != 1) { deviates(W_RESP, "%s of %s -> %s", t, rv.screens[0].first.c_str(), ::show(r).c_str()); throw Diverged(); }
    if (host::screen != dev::menu) deviates(W_MENU, "after %s of %s: {%s|%s}", t, rv.screens[0].first.c_str(), host::screen.title.c_str(), host::screen.text.c_str());
    if (r.sw != 0x9000 && !r.data.empty()) deviates(W_ERRDATA, "%s -> %s", t, ::show(r).c_str());
    if (tracing) { char b[40]; snprintf(b, sizeof b, "%c:%04x;", approve ? 'A' : 'R', r.sw); trace += b; if (approve && rv.ans == Review::DATA) trace += hx(r.data); }
    Tx tx; Path path; if (rv.type == Review::FINAL) { tx = m.tx; path = m.path; }
    m.answered(approve); bool sig = approve && rv.ans == Review::SIG && r.sw == 0x9000; if (sig) { last_sig = r.data; last_tx = tx; last_path = path; n_sig++; }
    if (settled) settled(*this);
    if (!approve) {
        if (r.sw != 0x6985 || !r.data.empty()) { deviates(W_ANSWER, "rejected %s -> %s", rv.screens[0].first.c_str(), ::show(r).c_str()); throw Diverged(); }
        return false;
    }
    if (r.sw != 0x9000) {
        Kind k = rv.type == Review::EPK ? R_EPK : rv.type == Review::DA ? R_DA : rv.type == Review::ATT ? R_ATT : R_SIGN;
        deviates(k, "approved %s -> %s", rv.screens[0].first.c_str(), ::show(r).c_str()); throw Diverged();
    }
    switch (rv.ans) {
        case Review::EMPTY: if (!r.data.empty()) deviates(D_EXTRA, "approved %s -> %s", rv.screens[0].first.c_str(), ::show(r).c_str()); break;
        case Review::DATA: if (r.data != rv.data) deviates(rv.dkind, "approved %s -> %s, expected %s", rv.screens[0].first.c_str(), ::show(r).c_str(), hx(rv.data).c_str()); break;
        case Review::SESSION: if (r.data.size() != 1 || !r.data[0]) { deviates(D_SESSION, "approved %s -> %s", rv.screens[0].first.c_str(), ::show(r).c_str()); throw Diverged(); } m.learn_session(r.data[0]); break;
        case Review::SIG: {
            uint8_t pk[33]; ref::pub33(m.seed, path, pk);
            if (mask & M(D_SIG)) if (!ref::signature_ok(r.data, pk, ref::message(tx, m.seed))) deviates(D_SIG, "%s for path %s and message %s", hx(r.data).c_str(), ref::path_str(path).c_str(), hx(ref::message(tx, m.seed)).substr(0, 900).c_str());
            break;
        }
    }
    return true;
}
bool Session::decide() { return answer(!(p_reject && c.t.chance(p_reject, 100))); }
bool Session::exec(const Step &s) {
    Exp::What w = step(fill(s));
    if (w == Exp::ERR) return false;
    if (w == Exp::UI) return decide();
    return true;
}
bool Session::run(const Plan &p, size_t from, size_t to) {
    for (size_t i = from; i < p.size() && i < to; i++) if (!exec(p[i])) return false;
    return true;
}
