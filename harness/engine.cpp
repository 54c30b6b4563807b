#include "engine.hpp"
#include "../sdk/src/host.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <algorithm>
#include <map>
#include <unordered_set>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <fcntl.h>

// ---------------------------------------------------------------- tape
uint64_t Tape::below(uint64_t n) {
    uint64_t v;
    if (n == 1) return 0;
    if (pos < in.size()) v = in[pos]; else v = tail ? rng.next() : 0;
    if (n) v %= n;
    if (rec && *nrec < cap) { rec[*nrec] = v; *nrec = *nrec + 1; }
    pos++;
    return v;
}
size_t Tape::weighted(std::initializer_list<unsigned> w) {
    uint64_t s = 0; for (unsigned x : w) s += x;
    uint64_t v = below(s); size_t i = 0;
    for (unsigned x : w) { if (v < x) return i; v -= x; i++; }
    return 0;
}
uint64_t Tape::u64() {
    switch (weighted({6, 4, 3, 3, 3, 2})) {
        case 0: return below(1000);
        case 1: { unsigned b = below(64); return b ? below(1ull << b) : 0; }
        case 2: { static const uint64_t k[] = {0, 1, 127, 128, 255, 256, 16383, 16384, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 999999999, 1000000000, 1000000001, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 0xfffffffffffffffeull, 0x3fffffff, 0x40000000, 0x1ffffffffffffff, 0x200000000000000ull}; return k[below(sizeof k / sizeof *k)]; }
        case 3: { unsigned b = below(64); uint64_t v = 1ull << b; uint64_t d = below(3); return d == 0 ? v : d == 1 ? v - 1 : v + 1; }
        case 4: return below(0);
        default: return ~below(16);
    }
}
uint32_t Tape::u32() { return (uint32_t) u64(); }
uint16_t Tape::u16() { return (uint16_t) u64(); }
void Tape::fill(uint8_t *p, size_t n) { Rng r(below(0) + n * 0x1234567); for (size_t i = 0; i < n; i++) { if (i % 8 == 0) r.s ^= 0; p[i] = (uint8_t) (r.next() >> 24); } }

// ---------------------------------------------------------------- shared state
static const unsigned MAXW = 8, LABELS = 256, LABLEN = 56;
static const uint32_t TAPECAP = 1u << 16, FPCAP = 1u << 21, SAMPLES = 3, SAMPLELEN = 1600;
struct Shared {                                       // one per worker
    volatile uint32_t nrec; uint64_t tape[TAPECAP];
    volatile int failed; char msg[4096]; volatile uint32_t part; volatile uint64_t index; volatile uint64_t cases_at_fail;
    volatile uint64_t cases, nontriv, discards, extra, corpus, cov; volatile uint64_t part_cases[32];
    volatile uint32_t nfp; uint64_t fp[FPCAP];
    char lab[LABELS][LABLEN]; volatile uint64_t labn[LABELS];
    char sample[SAMPLES][SAMPLELEN]; volatile uint32_t nsamples;
};
static Shared *sh[MAXW + 1];                          // the last one serves isolated runs
static Shared *cur;
static const CheckDef *check;
static volatile int stop_all_dummy;
static volatile int *stop_flag;

void Case::label(const char *name) {
    for (unsigned i = 0; i < LABELS; i++) {
        if (!cur->lab[i][0]) { strncpy(cur->lab[i], name, LABLEN - 1); cur->labn[i] = 1; return; }
        if (!strncmp(cur->lab[i], name, LABLEN - 1)) { cur->labn[i] = cur->labn[i] + 1; return; }
    }
}
void Case::count(uint64_t n) { cur->extra = cur->extra + n; }
void Case::note(const char *fmt, ...) {
    if (!want_desc || desc.size() > SAMPLELEN) return;
    char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (!desc.empty()) desc += "; ";
    desc += b;
}
void fail(const char *fmt, ...) { char b[3500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); throw Failure{b}; }

// ---------------------------------------------------------------- coverage counters of the library under test
static uint8_t *cov_lo, *cov_hi;
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t *a, uint8_t *b) { cov_lo = a; cov_hi = b; }   // every object of a library passes the same section
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t *, const uintptr_t *) {}
uint8_t *engine_cov_lo() { return cov_lo; }
uint8_t *engine_cov_hi() { return cov_hi; }
void engine_cov_set(uint8_t *a, uint8_t *b) { cov_lo = a; cov_hi = b; }
static inline uint8_t bucket(uint8_t c) { return c == 0 ? 0 : c == 1 ? 1 : c == 2 ? 2 : c == 3 ? 4 : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128; }
__attribute__((no_sanitize("address"))) static bool new_cov(std::vector<uint8_t> &seen, uint64_t &n) {
    size_t len = cov_hi - cov_lo; if (seen.size() != len) seen.assign(len, 0);
    bool nw = false;
    for (size_t i = 0; i < len; i++) { if (!cov_lo[i]) continue; uint8_t b = bucket(cov_lo[i]); if (!seen[i]) n++; if (b & ~seen[i]) { seen[i] |= b; nw = true; } }
    return nw;
}
__attribute__((no_sanitize("address"))) static void clear_cov() { for (uint8_t *p = cov_lo; p < cov_hi; p++) *p = 0; }

// ---------------------------------------------------------------- running one case in this process
enum Outcome { PASS = 0, FAILED = 77, DISCARDED = 3 };
static Outcome run_case(const Part &p, Tape &t, bool want_desc, std::string *desc, bool *nontriv, uint64_t *fp, std::string *msg) {
    cur->nrec = 0; t.rec = cur->tape; t.nrec = &cur->nrec; t.cap = TAPECAP; t.pos = 0;
    Case c(t); c.want_desc = want_desc;
    struct itimerval it = {{0, 0}, {20, 0}}; setitimer(ITIMER_PROF, &it, nullptr);
    Outcome o = PASS;
    host::seed.clear();
    try { p.fn(c); } catch (const Failure &f) { o = FAILED; if (msg) *msg = f.msg; } catch (const Discard &) { o = DISCARDED; }
    struct itimerval z = {{0, 0}, {0, 0}}; setitimer(ITIMER_PROF, &z, nullptr);
    if (nontriv) *nontriv = c.nontrivial && o == PASS;
    if (fp) *fp = c.fp;
    if (desc) *desc = c.desc;
    return o;
}
static double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

static void quiet_stderr(const char *file) { int fd = open(file, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) { dup2(fd, 2); close(fd); } }

static void worker(unsigned w, unsigned nw, uint64_t seed, bool thorough, double deadline, const std::string &tmp) {
    cur = sh[w]; quiet_stderr((tmp + "/err." + std::to_string(w)).c_str());
    std::vector<uint8_t> seen; uint64_t ncov = 0;
    for (size_t pi = 0; pi < check->parts.size(); pi++) {
        const Part &p = check->parts[pi];
        cur->part = pi; engine_before_part(p);
        uint64_t total = thorough ? p.thorough : p.quick, mine = total / nw + (w < total % nw ? 1 : 0);
        double share_start = now();
        double left_quota = 0; for (size_t j = pi; j < check->parts.size(); j++) left_quota += 1;
        double part_deadline = share_start + (deadline - share_start) / left_quota * (pi + 1 == check->parts.size() ? 1.0 : 1.6);
        if (part_deadline > deadline) part_deadline = deadline;
        std::vector<std::vector<uint64_t>> corpus;
        seen.clear(); ncov = 0;
        for (uint64_t i = 0; i < mine; i++) {
            if (*stop_flag) _exit(0);
            if ((i & 15) == 0 && now() > part_deadline) break;
            Rng r(seed * 0x9E3779B97F4A7C15ull ^ ((uint64_t) w << 48) ^ ((uint64_t) pi << 40) ^ (i * 0xD1B54A32D192ED03ull)); r.next();
            Tape t; t.tail = true;
            if (!corpus.empty() && r.next() % 100 < 40) {
                t.in = corpus[r.next() % corpus.size()];
                unsigned ops = 1 + r.next() % 3;
                for (unsigned k = 0; k < ops && !t.in.empty(); k++) {
                    size_t at = r.next() % t.in.size();
                    switch (r.next() % 7) {
                        case 0: t.in[at] = r.next(); break;
                        case 1: t.in[at] = r.next() % 8; break;
                        case 2: t.in[at] += (r.next() & 1) ? 1 : -1; break;
                        case 3: { size_t n = 1 + r.next() % 4; if (at + n <= t.in.size()) t.in.erase(t.in.begin() + at, t.in.begin() + at + n); break; }
                        case 4: { size_t n = 1 + r.next() % 16; if (at + n <= t.in.size()) { std::vector<uint64_t> s(t.in.begin() + at, t.in.begin() + at + n); t.in.insert(t.in.begin() + at, s.begin(), s.end()); } break; }
                        case 5: t.in.resize(at); break;
                        default: { const auto &o = corpus[r.next() % corpus.size()]; if (at < o.size()) { t.in.resize(at); t.in.insert(t.in.end(), o.begin() + at, o.end()); } break; }
                    }
                }
            }
            t.rng = Rng(r.next());
            cur->index = i;
            bool nontriv; uint64_t fp; std::string desc, msg;
            bool want = cur->nsamples < SAMPLES && (i % 7) == 3;
            clear_cov();
            Outcome o = run_case(p, t, want, &desc, &nontriv, &fp, &msg);
            cur->cases = cur->cases + 1; cur->part_cases[pi] = cur->part_cases[pi] + 1;
            if (o == FAILED) { strncpy(cur->msg, msg.c_str(), sizeof cur->msg - 1); cur->cases_at_fail = cur->cases; __sync_synchronize(); cur->failed = 1; _exit(FAILED); }
            if (o == DISCARDED) { cur->discards = cur->discards + 1; continue; }
            if (nontriv) {
                cur->nontriv = cur->nontriv + 1;
                if (cur->nfp < FPCAP) { cur->fp[cur->nfp] = fp ^ (pi * 0x9E3779B97F4A7C15ull); cur->nfp = cur->nfp + 1; }
                if (want && !desc.empty()) { snprintf(cur->sample[cur->nsamples], SAMPLELEN, "[%s] %s", p.name, desc.c_str()); cur->nsamples = cur->nsamples + 1; }
            }
            if (new_cov(seen, ncov) && corpus.size() < 2000 && cur->nrec < 6000) { corpus.push_back(std::vector<uint64_t>(cur->tape, cur->tape + cur->nrec)); }
        }
        cur->corpus = cur->corpus + corpus.size(); cur->cov = cur->cov + ncov;
    }
    _exit(0);
}

// ---------------------------------------------------------------- isolated runs, shrinking, replay
static std::string tmpdir;
static std::string crash_summary(const std::string &errfile, int status) {
    std::string s; FILE *f = fopen(errfile.c_str(), "r"); char line[1024]; int n = 0;
    if (f) { while (fgets(line, sizeof line, f) && n < 12) { if (strstr(line, "ERROR:") || strstr(line, "runtime error") || strstr(line, "SUMMARY") || strstr(line, "LEDGER_ASSERT") || strstr(line, "    #0") || strstr(line, "    #1 ") || strstr(line, "    #2 ")) { s += line; n++; } } fclose(f); }
    for (auto &c : s) if (c == '\n') c = '|';
    char b[64];
    if (WIFSIGNALED(status)) { if (WTERMSIG(status) == SIGPROF) return "no termination within 20 s of CPU time " + s; snprintf(b, sizeof b, "killed by signal %d ", WTERMSIG(status)); }
    else snprintf(b, sizeof b, "abnormal exit %d ", WEXITSTATUS(status));
    return b + s;
}
// 0 pass, 1 fail
static int isolated(size_t pi, const std::vector<uint64_t> &in, std::string *msg, std::vector<uint64_t> *used, std::string *desc = nullptr) {
    Shared *s = sh[MAXW]; s->nrec = 0; s->failed = 0; s->msg[0] = 0; s->sample[0][0] = 0;
    std::string err = tmpdir + "/err.iso";
    pid_t pid = fork();
    if (pid == 0) {
        cur = s; quiet_stderr(err.c_str());
        const Part &p = check->parts[pi]; engine_before_part(p);
        Tape t; t.in = in; t.tail = false;
        std::string m, d; bool nt; uint64_t fp;
        clear_cov();
        Outcome o = run_case(p, t, true, &d, &nt, &fp, &m);
        strncpy(s->sample[0], d.c_str(), SAMPLELEN - 1);
        if (o == FAILED) { strncpy(s->msg, m.c_str(), sizeof s->msg - 1); _exit(FAILED); }
        _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    if (used) used->assign(s->tape, s->tape + s->nrec);
    if (desc) *desc = s->sample[0];
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == FAILED) { if (msg) *msg = s->msg; return 1; }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return 0;      // ended from outside: no verdict
    if (msg) *msg = "crash: " + crash_summary(err, st);
    return 1;
}
static std::vector<uint64_t> shrink(size_t pi, std::vector<uint64_t> best, std::string &msg) {
    double end = now() + 40; unsigned budget = 1200;
    auto attempt = [&](const std::vector<uint64_t> &c) {
        if (budget == 0 || now() > end) return false;
        budget--; std::string m; std::vector<uint64_t> used;
        if (!isolated(pi, c, &m, &used)) return false;
        if (used.size() > c.size()) used.resize(c.size());
        while (!used.empty() && used.back() == 0) used.pop_back();
        if (used.size() < best.size() || (used.size() == best.size() && used < best)) { best = used; msg = m; return true; }
        return false;
    };
    attempt(best);
    bool progress = true;
    while (progress && budget && now() < end) {
        progress = false;
        for (size_t n = best.size() / 2; n >= 1; n /= 2) {
            for (size_t at = 0; at < best.size();) {
                std::vector<uint64_t> c = best; size_t k = std::min(n, c.size() - at); c.erase(c.begin() + at, c.begin() + at + k);
                if (attempt(c)) progress = true; else at += n;
                if (!budget || now() > end) break;
            }
            if (!budget || now() > end) break;
        }
        for (size_t n = std::max<size_t>(best.size() / 4, 1); n >= 1; n /= 2) {
            for (size_t at = 0; at < best.size(); at += n) {
                std::vector<uint64_t> c = best; bool any = false; for (size_t i = at; i < std::min(at + n, c.size()); i++) if (c[i]) { c[i] = 0; any = true; }
                if (any && attempt(c)) progress = true;
                if (!budget || now() > end) break;
            }
            if (n == 1 || !budget || now() > end) break;
        }
        for (size_t at = 0; at < best.size(); at++) {
            if (!budget || now() > end) break;
            for (int k = 0; k < 6 && at < best.size() && best[at] > 1; k++) { std::vector<uint64_t> c = best; c[at] = k == 0 ? 1 : c[at] / 2; if (attempt(c)) progress = true; else if (k) break; }
            if (at < best.size() && best[at] > 1) { std::vector<uint64_t> c = best; c[at]--; if (attempt(c)) progress = true; }
        }
    }
    return best;
}
static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o; }

static int do_replay(const char *file) {
    FILE *f = fopen(file, "r"); if (!f) { fprintf(stderr, "cannot read %s\n", file); return 2; }
    char id[64], part[128]; std::vector<uint64_t> in; unsigned long long v; char line[8192];
    id[0] = part[0] = 0;
    while (fgets(line, sizeof line, f)) {
        if (!strncmp(line, "property ", 9)) sscanf(line + 9, "%63s", id);
        else if (!strncmp(line, "part ", 5)) sscanf(line + 5, "%127s", part);
        else if (!strncmp(line, "tape", 4)) { while (fscanf(f, "%llx", &v) == 1) in.push_back(v); break; }
    }
    fclose(f);
    for (auto &c : all_checks()) if (!strcmp(c.id, id)) { check = &c;
        for (size_t i = 0; i < c.parts.size(); i++) if (!strcmp(c.parts[i].name, part)) {
            std::string msg, d; int r = isolated(i, in, &msg, nullptr, &d);
            printf("%s part=%s: %s %s\ncase: %s\n", id, part, r ? "FAILS:" : "passes", msg.c_str(), d.c_str());
            if (r) printf("VIOLATION property=%s replay=%s\n", id, file);
            return r;
        } }
    fprintf(stderr, "unknown check or part in %s\n", file); return 2;
}

int engine_main(int argc, char **argv) {
    std::string id, evidence, replay_dir, replay_file, only_part; uint64_t seed = 1; bool thorough = false; double cap = 45; double scale = 1; tmpdir = "/tmp"; unsigned nw = MAXW;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--check") id = val(); else if (a == "--seed") seed = strtoull(val().c_str(), 0, 0); else if (a == "--tier") thorough = val() == "thorough";
        else if (a == "--evidence") evidence = val(); else if (a == "--replay-dir") replay_dir = val(); else if (a == "--replay") replay_file = val();
        else if (a == "--cap") cap = atof(val().c_str()); else if (a == "--tmp") tmpdir = val(); else if (a == "--scale") scale = atof(val().c_str());
        else if (a == "--part") only_part = val(); else if (a == "--workers") nw = atoi(val().c_str()); else if (a == "--app") { ++i; } else if (a == "--plain") { ++i; } else if (a == "--unit") { ++i; } else if (a == "--nanos") { ++i; } else if (a == "--debug") { ++i; }
    }
    if (nw < 1 || nw > MAXW) nw = MAXW;
    for (unsigned i = 0; i <= MAXW; i++) { sh[i] = (Shared *) mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (sh[i] == MAP_FAILED) { perror("mmap"); return 2; } }
    stop_flag = (volatile int *) mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    cur = sh[MAXW];
    if (!replay_file.empty()) return do_replay(replay_file.c_str());
    static CheckDef sel; bool found = false;
    for (auto &c : all_checks()) if (id == c.id) { sel = c; found = true; }
    if (!found) { fprintf(stderr, "unknown check %s\n", id.c_str()); return 2; }
    if (!only_part.empty()) { std::vector<Part> v; for (auto &p : sel.parts) if (only_part == p.name) v.push_back(p); sel.parts = v; }
    for (auto &p : sel.parts) { p.quick = p.quick * scale; p.thorough = p.thorough * scale; if (p.quick < 8) p.quick = 8; if (p.thorough < 8) p.thorough = 8; }
    check = &sel;
    double t0 = now(), deadline = t0 + cap, t_found = 0;
    bool violation = false; std::string vmsg, vpart, vdesc, replay; unsigned unreproduced = 0, lost = 0;
    for (unsigned round = 0; round < 6; round++) {      // a failure that does not reproduce is counted and the search goes on
        int bad = -1; int badst = 0; unsigned live = nw; *stop_flag = 0; std::vector<pid_t> pids(nw);
        for (unsigned w = 0; w < nw; w++) { sh[w]->failed = 0; pid_t p = fork(); if (p == 0) worker(w, nw, seed + round * 1000003ull, thorough, deadline, tmpdir); pids[w] = p; }
        while (live) {
            int st; pid_t p = wait(&st); if (p < 0) break;
            for (unsigned w = 0; w < nw; w++) if (pids[w] == p) {
                live--;
                bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
                if (!ok && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { lost++; continue; }   // ended from outside (memory)
                if (!ok && bad < 0) { bad = w; badst = st; *stop_flag = 1; }
            }
        }
        if (bad < 0) break;
        t_found = now() - t0; Shared *s = sh[bad]; size_t pi = s->part; std::vector<uint64_t> tape(s->tape, s->tape + s->nrec);
        std::string first = s->failed ? s->msg : "crash: " + crash_summary(tmpdir + "/err." + std::to_string(bad), badst);
        std::string msg = first; std::vector<uint64_t> used; int ok = 0;
        for (int k = 0; k < 3; k++) ok += isolated(pi, tape, &msg, &used);
        if (ok == 3) {
            std::vector<uint64_t> sm = shrink(pi, tape, msg);
            int again = 0; for (int k = 0; k < 3; k++) again += isolated(pi, sm, &msg, nullptr, &vdesc);
            if (again != 3) { sm = tape; isolated(pi, sm, &msg, nullptr, &vdesc); }
            violation = true; vmsg = msg; vpart = check->parts[pi].name;
            replay = replay_dir + "/" + id + "-" + vpart + ".replay";
            FILE *f = fopen(replay.c_str(), "w");
            if (f) { fprintf(f, "property %s\npart %s\nwhat %s\ncase %s\ntape\n", id.c_str(), vpart.c_str(), vmsg.c_str(), vdesc.c_str()); for (uint64_t v : sm) fprintf(f, "%llx\n", (unsigned long long) v); fclose(f); }
            break;
        }
        unreproduced++; fprintf(stderr, "note: a failure in worker %d did not reproduce in isolation (%d/3): %s\n", bad, ok, first.c_str());
        if (now() > deadline) break;
    }
    // evidence
    uint64_t cases = 0, nontriv = 0, disc = 0, extra = 0, corpus = 0, cov = 0; std::unordered_set<uint64_t> fps; std::map<std::string, uint64_t> labels; std::vector<std::string> samples; std::map<std::string, uint64_t> parts;
    for (unsigned w = 0; w < nw; w++) {
        Shared *s = sh[w]; cases += s->cases; nontriv += s->nontriv; disc += s->discards; extra += s->extra; corpus += s->corpus; cov = std::max<uint64_t>(cov, (uint64_t) s->cov);
        for (uint32_t i = 0; i < s->nfp; i++) fps.insert(s->fp[i]);
        for (unsigned i = 0; i < LABELS && s->lab[i][0]; i++) labels[s->lab[i]] += s->labn[i];
        for (unsigned i = 0; i < s->nsamples && samples.size() < 8; i++) samples.push_back(s->sample[i]);
        for (size_t i = 0; i < check->parts.size(); i++) parts[check->parts[i].name] += s->part_cases[i];
    }
    if (violation) samples.insert(samples.begin(), "FAILED [" + vpart + "] " + vmsg + " -- " + vdesc);
    if (samples.empty()) samples.push_back("(none recorded)");
    double wall = now() - t0;
    if (!evidence.empty()) {
        FILE *f = fopen(evidence.c_str(), "w"); if (!f) { perror("evidence"); return 2; }
        fprintf(f, "{\"property\": \"%s\", \"tier\": \"%s\", \"seed\": %llu, \"level\": \"exploration\", \"wall_s\": %.2f, \"violations\": %d,\n \"coverage\": {\"evaluations\": %llu, \"distinct_nontrivial\": %zu, \"nontrivial\": %llu, \"discarded\": %llu, \"inner_executions\": %llu, \"kept_tapes\": %llu, \"covered_edges_max_per_worker\": %llu, \"unreproduced\": %u, \"workers_lost\": %u,\n  \"rule\": \"%s\",\n  \"parts\": {", id.c_str(), thorough ? "thorough" : "quick", (unsigned long long) seed, wall, violation ? 1 : 0, (unsigned long long) cases, fps.size(), (unsigned long long) nontriv, (unsigned long long) disc, (unsigned long long) extra, (unsigned long long) corpus, (unsigned long long) cov, unreproduced, lost, jesc(check->rule).c_str());
        bool first = true; for (auto &p : parts) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", p.first.c_str(), (unsigned long long) p.second); first = false; }
        fprintf(f, "},\n  \"labels\": {"); first = true; for (auto &p : labels) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(p.first).c_str(), (unsigned long long) p.second); first = false; }
        fprintf(f, "},\n  \"samples\": ["); first = true; for (auto &p : samples) { fprintf(f, "%s\n   \"%s\"", first ? "" : ",", jesc(p).c_str()); first = false; }
        fprintf(f, "]},\n \"assumptions\": [\"platform primitives behave as the stub SDK in /verif/sdk, which follows the documented Ledger SDK behaviour\", \"cases are sampled, not enumerated, unless stated\"]}\n"); fclose(f);
    }
    printf("%s %s seed=%llu: %llu cases (%llu inner), %zu distinct non-trivial, %llu discarded, %.1f s\n", id.c_str(), thorough ? "thorough" : "quick", (unsigned long long) seed, (unsigned long long) cases, (unsigned long long) extra, fps.size(), (unsigned long long) disc, wall);
    if (violation) { printf("%s: (after %.1f s) %s\nVIOLATION property=%s replay=%s\n", vpart.c_str(), t_found, vmsg.c_str(), id.c_str(), replay.c_str()); return 1; }
    return 0;
}
