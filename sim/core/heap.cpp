// malloc seam: live-object table, redzones, quarantine, poison, failing operator new.
#include "internal.hpp"

#include <cerrno>
#include <dlfcn.h>
#include <malloc.h>
#include <sys/mman.h>

namespace sim {

    bool g_heap = false;
    unsigned char *g_hsh = nullptr;

    struct Ent { u64 p; u64 n; };
    static Ent *g_tab = nullptr;
    static u64 g_cap = 0, g_used = 0;
    static u64 g_live = 0, g_live_bytes = 0;
    constexpr u64 TOMB = 1;

    // ---- arena: every allocation of a run comes from here, so addresses depend on nothing but the run itself ----
    struct Hdr { u64 size; u32 cls; u32 back; };
    static char *const AR = reinterpret_cast<char *>(0x300000000000ull);
    constexpr u64 AR_N = 1ull << 36;
    static char *g_top = nullptr;
    static void *g_free[128];

    static bool in_arena(const void *p) { return p >= AR and p < AR + AR_N; }

    static u32 size_class(u64 n, u64 &full) {  // n includes the header
        if (n <= 1024) { u32 c = static_cast<u32>((n + 15) / 16); full = c * 16ull; return c; }  // 1..64
        u32 c = 65;
        u64 f = 1280;
        while (f < n) { f += f / 4; f = (f + 15) & ~15ull; ++c; }
        full = f;
        return c;
    }

    static void *ar_alloc(u64 n, bool zero, u64 al = 16) {
        u64 full;
        u64 want = n + sizeof(Hdr) + (al > 16 ? al : 0);
        if (want > AR_N / 4) return nullptr;
        u32 c = size_class(want, full);
        char *b;
        bool fresh = false;
        if (g_free[c]) {
            b = static_cast<char *>(g_free[c]);
            g_free[c] = *reinterpret_cast<void **>(b);
        } else {
            if (g_top + full > AR + AR_N) return nullptr;
            b = g_top;
            g_top += full;
            fresh = true;
        }
        char *u = b + sizeof(Hdr);
        if (al > 16) u = reinterpret_cast<char *>((reinterpret_cast<u64>(u) + al - 1) & ~(al - 1));
        auto *h = reinterpret_cast<Hdr *>(u) - 1;
        h->size = n;
        h->cls = c;
        h->back = static_cast<u32>(u - b);
        if (zero and not fresh) std::memset(u, 0, n);
        if (g_sched and g_cfg.races) race_clear(reinterpret_cast<u64>(u), n);
        return u;
    }

    static void ar_free(void *p) {
        auto *h = reinterpret_cast<Hdr *>(p) - 1;
        u32 c = h->cls;
        char *b = static_cast<char *>(p) - h->back;
        *reinterpret_cast<void **>(b) = g_free[c];
        g_free[c] = b;
    }

    static u64 ar_size(void *p) { return (reinterpret_cast<Hdr *>(p) - 1)->size; }

    static void raw_free(void *p) { if (in_arena(p)) ar_free(p); else __libc_free(p); }

    void shadow_init() {
        if (g_hsh) return;
        g_hsh = static_cast<unsigned char *>(mmap(nullptr, SH_MASK + 1, PROT_READ | PROT_WRITE,
                MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (g_hsh == MAP_FAILED) { g_hsh = nullptr; std::abort(); }
        g_top = static_cast<char *>(mmap(AR, AR_N, PROT_READ | PROT_WRITE,
                MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0));
        if (g_top != AR) std::abort();
    }

    static u64 hslot(u64 p) { return (p >> 4) * 0x9E3779B97F4A7C15ull >> 20; }

    static void tab_put(u64 p, u64 n);

    static void tab_grow() {
        u64 oc = g_cap;
        Ent *o = g_tab;
        g_cap = oc ? oc * 2 : 1 << 16;
        if (oc and g_live * 4 < oc) g_cap = oc;
        g_tab = static_cast<Ent *>(__libc_calloc(g_cap, sizeof(Ent)));
        g_used = 0;
        for (u64 i = 0; i < oc; ++i) if (o[i].p > TOMB) tab_put(o[i].p, o[i].n);
        if (o) __libc_free(o);
    }

    static void tab_put(u64 p, u64 n) {
        if ((g_used + 1) * 2 > g_cap) tab_grow();
        u64 i = hslot(p) & (g_cap - 1);
        while (g_tab[i].p > TOMB) i = (i + 1) & (g_cap - 1);
        if (g_tab[i].p == 0) ++g_used;
        g_tab[i] = {p, n};
    }

    static Ent *tab_get(u64 p) {
        if (not g_cap) return nullptr;
        u64 i = hslot(p) & (g_cap - 1);
        while (g_tab[i].p) {
            if (g_tab[i].p == p) return &g_tab[i];
            i = (i + 1) & (g_cap - 1);
        }
        return nullptr;
    }

    static void mark_live(u64 p, u64 n) {
        u64 i = sh_idx(p);
        std::memset(g_hsh + i, 0, n / 8);
        if (n & 7) g_hsh[i + n / 8] = static_cast<unsigned char>(n & 7);
        u64 e = (n + 7) / 8;
        g_hsh[i + e] = 0xFA;
        g_hsh[i + e + 1] = 0xFA;
    }

    struct Q { u64 p, n; };
    static Q g_q[4096];
    static u64 g_qh = 0, g_qt = 0, g_qbytes = 0;

    static void q_pop() {
        Q &q = g_q[g_qh++ % 4096];
        g_qbytes -= q.n;
        std::memset(g_hsh + sh_idx(q.p), 0, (q.n + 7) / 8 + 2);
        raw_free(reinterpret_cast<void *>(q.p));
    }

    void heap_check(bool on) {
        shadow_init();
        g_heap = on;
    }

    void heap_bad(u64 a, u64 n, bool wr) {
        // locate: exact byte
        for (u64 i = a; i < a + n; ++i) {
            unsigned char s = g_hsh[sh_idx(i)];
            if (s == 0) continue;
            if (s < 0x80 and (i & 7) < s) continue;
            g_heap = false;
            violation(s == 0xFD ? "use-after-free" : "heap-overflow",
                    std::string{wr ? "write" : "read"} + " of " + std::to_string(n) + " bytes; stack: " + backtrace_text(3));
        }
    }

    void range_check(u64 a, u64 n, bool wr) {
        u64 b = sh_idx(a), e = sh_idx(a + n - 1);
        if (e < b) return;
        for (u64 i = b; i <= e; ++i) if (g_hsh[i]) { heap_bad(a, n, wr); return; }
    }

    static void *tracked(void *p, u64 n) {
        if (not p) return p;
        u64 a = reinterpret_cast<u64>(p);
        tab_put(a, n);
        ++g_live;
        g_live_bytes += n;
        mark_live(a, n);
        if (g_live_bytes > (3ull << 30)) {
            violation("memory-blowup", "more than 3 GiB live");
        }
        return p;
    }

    void alloc_fault_window(double p) { if (t_self) { t_self->alloc_p = p; if (p > 0) t_self->alloc_hits = 0; } }
    static double g_segment_p = 0;
    void segment_plan(double p) { g_segment_p = p; }
    u64 alloc_fault_hits() { return t_self ? t_self->alloc_hits : 0; }

}

using namespace sim;

extern "C" {

// asked by memory mapped segments before they allocate; fires at most once per segment_plan()
bool sim_segment_full() noexcept {
    if (g_segment_p <= 0 or not fault("segment-full", g_segment_p).on) return false;
    g_segment_p = 0;
    return true;
}

void *malloc(std::size_t n) {
    if (not g_run) return __libc_malloc(n);
    if (n > (1ull << 40)) { errno = ENOMEM; return nullptr; }
    if (not g_heap) return ar_alloc(n, false);
    void *p = ar_alloc(n + 24, false);
    if (p and n <= 4096) std::memset(p, 0xA5, n);
    return tracked(p, n);
}

void *calloc(std::size_t a, std::size_t b) {
    if (not g_run) return __libc_calloc(a, b);
    std::size_t n = a * b;
    if (b and n / b != a) { errno = ENOMEM; return nullptr; }
    if (not g_heap) return ar_alloc(n, true);
    return tracked(ar_alloc(n + 24, true), n);
}

void *memalign(std::size_t al, std::size_t n) {
    if (not g_run) return __libc_memalign(al, n);
    if (not g_heap) return ar_alloc(n, false, al);
    return tracked(ar_alloc(n + 24, false, al), n);
}

void *aligned_alloc(std::size_t al, std::size_t n) { return memalign(al, n); }

int posix_memalign(void **out, std::size_t al, std::size_t n) {
    void *p = memalign(al, n);
    if (not p) return ENOMEM;
    *out = p;
    return 0;
}

void free(void *p) {
    if (not p) return;
    u64 a = reinterpret_cast<u64>(p);
    Ent *e = g_live ? tab_get(a) : nullptr;
    if (not e) {
        if (g_heap and g_run and g_hsh[sh_idx(a)] == 0xFD) {
            g_heap = false;
            violation("double-free", "stack: " + backtrace_text(2));
        }
        raw_free(p);
        return;
    }
    u64 n = e->n;
    e->p = TOMB;
    --g_live;
    g_live_bytes -= n;
    if (not g_heap) { std::memset(g_hsh + sh_idx(a), 0, (n + 7) / 8 + 2); raw_free(p); return; }
    std::memset(g_hsh + sh_idx(a), 0xFD, (n + 7) / 8);
    if (g_qt - g_qh >= 4096) q_pop();
    g_q[g_qt++ % 4096] = {a, n};
    g_qbytes += n;
    while (g_qbytes > (64u << 20) and g_qt > g_qh) q_pop();
}

std::size_t malloc_usable_size(void *p) {
    if (not p) return 0;
    if (not in_arena(p)) { auto f = reinterpret_cast<std::size_t (*)(void *)>(dlsym(RTLD_NEXT, "malloc_usable_size")); return f(p); }
    Ent *e = g_live ? tab_get(reinterpret_cast<u64>(p)) : nullptr;
    return e ? e->n : ar_size(p);
}

void *realloc(void *p, std::size_t n) {
    if (not p) return malloc(n);
    if (not in_arena(p) and not g_run) return __libc_realloc(p, n);
    u64 on = malloc_usable_size(p);
    void *q = malloc(n);
    if (not q) return nullptr;
    std::memcpy(q, p, on < n ? on : n);
    free(p);
    return q;
}

}

static void *op_new(std::size_t n) {
    if (g_run and t_self and t_self->alloc_p > 0) {
        double keep = t_self->alloc_p;
        t_self->alloc_p = 0;
        Fire f = fault("bad-alloc", keep);
        if (f.on) { ++t_self->alloc_hits; throw std::bad_alloc{}; }
        t_self->alloc_p = keep;
    }
    for (;;) {
        if (void *p = malloc(n ? n : 1)) return p;
        throw std::bad_alloc{};
    }
}

void *operator new(std::size_t n) { return op_new(n); }
void *operator new[](std::size_t n) { return op_new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, std::size_t) noexcept { free(p); }
void operator delete[](void *p, std::size_t) noexcept { free(p); }
