// Native counterpart of the executor's built-ins: replays one assignment of the
// symbolic inputs against the real build.  usage: prog ENTRY INPUTS
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <sanitizer/allocator_interface.h>

static struct { char name[96]; unsigned long long v; } in[4096];
static int nin, pos;
static void out(const char *s) { (void)!write(1, s, strlen(s)); }
static void outf(const char *f, const char *a, unsigned long long v) { char b[512]; snprintf(b, sizeof b, f, a, v); out(b); }

// live allocations, in a table that is itself not on the heap
struct Blk { const void *p; unsigned long long seq; bool ok; };
static const unsigned NB = 1u << 20;
static Blk *tab;
static unsigned long long seq = 1;
static bool tracking;
static unsigned slot(const void *p) { return (unsigned)(((uintptr_t)p >> 4) * 2654435761u) & (NB - 1); }
static void onMalloc(const volatile void *vp, size_t) {
    const void *p = const_cast<const void *>(vp);
    if (!tracking || !p) return;
    unsigned i = slot(p);
    while (tab[i].p && tab[i].p != (void *)1) i = (i + 1) & (NB - 1);
    tab[i] = {p, seq++, false};
}
static Blk *find(const void *p) {
    if (!tab) return nullptr;
    for (unsigned i = slot(p), n = 0; tab[i].p && n < NB; i = (i + 1) & (NB - 1), n++) if (tab[i].p == p) return &tab[i];
    return nullptr;
}
static void onFree(const volatile void *vp) {
    if (!tracking || !vp) return;
    if (Blk *b = find(const_cast<const void *>(vp))) b->p = (void *)1;
}
static uint64_t next(const char *name) {
    if (pos >= nin || strcmp(in[pos].name, name) != 0) {
        outf("DIVERGED at input %s (position %llu)\n", name, pos);
        _exit(77);
    }
    return in[pos++].v;
}
extern "C" {
uint64_t vf_sym_(const char *name, unsigned bits) { uint64_t v = next(name); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
uint64_t vf_choice_(const char *name, unsigned n) { return n <= 1 ? 0 : next(name); }
void vf_assume_(bool c) { if (!c) { out("END assume\n"); _exit(0); } }
void vf_assert_(bool c, const char *msg) { if (!c) vf_fail_(msg); }
void vf_fail_(const char *msg) { outf("FAILED %s\n", msg, 0); fflush(nullptr); _exit(66); }
void vf_reach_(const char *) {}
void vf_log_(const char *tag, uint64_t v) { outf("LOG %s %llu\n", tag, v); }
void vf_end_() { out("END end\n"); _exit(0); }
void vf_bound_(const char *w) { outf("END bound %s\n", w, 0); _exit(0); }
void vf_unmodelled_(const char *w) { outf("END unmodelled %s\n", w, 0); _exit(0); }
uint64_t vf_heap_mark_() { return seq; }
void vf_heap_check_(uint64_t m, const char *msg) {
    for (unsigned i = 0; i < NB; i++)
        if (tab[i].p && tab[i].p != (void *)1 && tab[i].seq >= m && !tab[i].ok) vf_fail_(msg);
}
void vf_leak_ok_(const void *p) { if (Blk *b = find(p)) b->ok = true; }
bool vf_alive_(const void *p) { return find(p) != nullptr; }
void vf_print_(const char *tag, uint64_t v) { outf("PRINT %s %llu\n", tag, v); }
bool vf_feasible_(bool c) { return c; }
}
extern "C" void vf_native_init();
__attribute__((weak)) void vf_native_init() {}
int main(int argc, char **argv) {
    if (argc < 3) return 2;
    if (FILE *f = fopen(argv[2], "r")) {
        while (nin < 4096 && fscanf(f, "%95s %llu", in[nin].name, &in[nin].v) == 2) nin++;
        fclose(f);
    } else return 2;
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) { out("no such entry\n"); return 2; }
    tab = (Blk *)calloc(NB, sizeof(Blk));
    __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
    tracking = true;
    fn();
    tracking = false;
    out("END return\n");
    fflush(nullptr);
    _exit(0);
}

__attribute__((weak)) void qt_assert(const char *what, const char *, int) noexcept { vf_fail_(what); }
__attribute__((weak)) void qt_assert_x(const char *, const char *what, const char *, int) noexcept { vf_fail_(what); }
