#include "device.hpp"
#include <dlfcn.h>
#include <map>
#include <link.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
extern "C" {
#include "../sdk/include/parser.h"
#include "../sdk/include/io.h"
}
extern "C" { extern uint8_t guard_app_stack[98304]; void guard_run(void (*)(void *), void *); }
extern uint8_t *engine_cov_lo(), *engine_cov_hi(); extern void engine_cov_set(uint8_t *, uint8_t *);
std::string show(const Apdu &a) {
    char b[64]; snprintf(b, sizeof b, "%02x%02x%02x%02x", a.cla, a.ins, a.p1, a.p2); std::string s = b;
    s += "[" + std::to_string(a.data.size()) + "]";
    Bytes d = a.data; if (d.size() > 48) d.resize(48);
    return s + prim::hex(d) + (a.data.size() > 48 ? ".." : "");
}
namespace lib {
std::string app_so, plain_so, unit_so, nanos_so, debug_so;
static void *handle; static std::string loaded; static std::vector<Region> regs; static std::vector<Bytes> saved;
#define NOSAN __attribute__((no_sanitize("address"), noinline))
NOSAN static void raw_copy(uint8_t *d, const uint8_t *s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
void load(const char *which) {
    std::string w = which; if (w == loaded) return;
    std::string path = w == "app" ? app_so : w == "plain" ? plain_so : w == "unit" ? unit_so : w == "nanos" ? nanos_so : debug_so;
    handle = dlopen(path.c_str(), RTLD_LAZY | RTLD_LOCAL);
    if (!handle) { fprintf(stderr, "dlopen %s: %s\n", path.c_str(), dlerror()); _Exit(2); }
    static std::map<std::string, std::pair<uint8_t *, uint8_t *>> covs;
    if (covs.count(w)) engine_cov_set(covs[w].first, covs[w].second); else covs[w] = {engine_cov_lo(), engine_cov_hi()};
    loaded = w; regs.clear(); saved.clear();
    struct link_map *lm = nullptr; dlinfo(handle, RTLD_DI_LINKMAP, &lm);
    struct Ctx { struct link_map *lm; uintptr_t rl = 0, rh = 0; std::vector<Region> v; } ctx; ctx.lm = lm;
    dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *p) {
        Ctx &c = *(Ctx *) p; if (i->dlpi_addr != c.lm->l_addr || strcmp(i->dlpi_name, c.lm->l_name)) return 0;
        for (int k = 0; k < i->dlpi_phnum; k++) {
            const ElfW(Phdr) &h = i->dlpi_phdr[k]; uintptr_t lo = i->dlpi_addr + h.p_vaddr, hi = lo + h.p_memsz;
            if (h.p_type == PT_GNU_RELRO) { c.rl = lo; c.rh = (hi + 4095) & ~4095ul; }
            if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) c.v.push_back({(uint8_t *) lo, (uint8_t *) hi});
        }
        return 1;
    }, &ctx);
    auto cut = [&](uint8_t *a, uint8_t *b) {           // remove [a,b) from the regions
        std::vector<Region> o;
        for (auto &r : ctx.v) { if (b <= r.lo || a >= r.hi) { o.push_back(r); continue; } if (r.lo < a) o.push_back({r.lo, a}); if (b < r.hi) o.push_back({b, r.hi}); }
        ctx.v = o;
    };
    if (ctx.rl) cut((uint8_t *) ctx.rl, (uint8_t *) ctx.rh);
    if (engine_cov_lo()) cut(engine_cov_lo(), engine_cov_hi());
    regs = ctx.v;
    for (auto &r : regs) { Bytes b(r.hi - r.lo); raw_copy(b.data(), r.lo, b.size()); saved.push_back(b); }
}
void *sym(const char *n) { return dlsym(handle, n); }
void restore() { for (size_t i = 0; i < regs.size(); i++) raw_copy(regs[i].lo, saved[i].data(), saved[i].size()); }
const std::vector<Region> &regions() { return regs; }
}  // namespace lib
void engine_before_part(const Part &p) { lib::load(p.so); }

namespace dev {
bool exact_buffer = false; uint8_t garbage = 0xA5; int stack_fill = 0xA5; Bytes init_random; host::Screen menu;
// what the handlers find in their uninitialised locals is the same in every run of a case
__attribute__((noinline, no_sanitize("address"))) static void fill_stack() { uint8_t a[49152]; memset(a, stack_fill, sizeof a); asm volatile("" : : "r"(a) : "memory"); }
typedef int (*disp_t)(const command_t *); typedef void (*void_t)(void);
static void *need(const char *n) { void *p = lib::sym(n); if (!p) { fprintf(stderr, "missing symbol %s\n", n); abort(); } return p; }
void boot(const Bytes &seed, uint64_t rng_seed, RngFn rng) {
    lib::restore(); host::reset(); host::seed = seed;
    static Rng r(0); r = Rng(rng_seed * 2 + 1);
    host::rng = rng ? rng : RngFn([](uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = (uint8_t) (r.next() >> 32); });
    fill_stack(); ((void_t) need("app_init"))();
    init_random.clear(); for (auto &d : host::draws) init_random += d.data;
    ((void_t) need("ui_menu_main"))();
    host::draws.clear(); host::responses.clear(); menu = host::screen;
}
bool guarded = false;
static void guard_fill() { memset(guard_app_stack, 0xA5, sizeof guard_app_stack); }
std::pair<const uint8_t *, const uint8_t *> used_stack() { const uint8_t *p = guard_app_stack, *e = p + sizeof guard_app_stack; while (p < e && *p == 0xA5) p++; return {p, e}; }
static Reply collect(uint64_t layouts) {
    Reply r; r.n = host::responses.size();
    if (r.n) { r.sw = host::responses.back().sw; r.data = host::responses.back().data; }
    r.ui = host::layouts != layouts && !(host::screen == menu);
    return r;
}
Reply send(Case &c, const Apdu &a) {
    static disp_t d; static std::string last; static void *h; (void) last;
    d = (disp_t) need("apdu_dispatcher"); (void) h;
    host::responses.clear(); uint64_t l = host::layouts;
    c.mix(&a.cla, 4); if (!a.data.empty()) c.mix(a.data.data(), a.data.size());
    command_t cmd; cmd.cla = a.cla; cmd.ins = a.ins; cmd.p1 = a.p1; cmd.p2 = a.p2; cmd.lc = a.data.size(); cmd.data = nullptr;
    uint8_t *heap = nullptr; size_t n = a.data.size();
    memset(G_io_apdu_buffer, garbage, IO_APDU_BUFFER_SIZE);
    G_io_apdu_buffer[0] = a.cla; G_io_apdu_buffer[1] = a.ins; G_io_apdu_buffer[2] = a.p1; G_io_apdu_buffer[3] = a.p2; G_io_apdu_buffer[4] = n;
    if (n) { memcpy(G_io_apdu_buffer + 5, a.data.data(), n); cmd.data = G_io_apdu_buffer + 5; }
    if (exact_buffer && n) { heap = (uint8_t *) malloc(n); memcpy(heap, a.data.data(), n); cmd.data = heap; }
    if (guarded) { struct A { disp_t d; command_t *c; } x{d, &cmd}; guard_fill(); guard_run([](void *p) { A *q = (A *) p; q->d(q->c); }, &x); }
    else { fill_stack(); d(&cmd); }
    if (heap) { memset(heap, 0xDD, n); free(heap); }
    return collect(l);
}
Reply press(Case &c, int b) {
    c.mix64(b + 0x100); host::responses.clear(); uint64_t l = host::layouts;
    memset(G_io_apdu_buffer, garbage, IO_APDU_BUFFER_SIZE);   // the transfer buffer does not survive until the user answers
    if (guarded) { guard_fill(); guard_run([](void *p) { int b = *(int *) p; if (b == 0) host::left(); else if (b == 1) host::right(); else host::both(); }, &b); return collect(l); }
    fill_stack();
    if (b == 0) host::left(); else if (b == 1) host::right(); else host::both();
    return collect(l);
}
bool is(const char *t) { return host::screen.title == t; }
}  // namespace dev
