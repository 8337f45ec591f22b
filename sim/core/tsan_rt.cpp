// Own runtime behind clang's -fsanitize=thread instrumentation: every load/store of the code under test is
// a numbered step (preemption point, step limit), is checked against the heap shadow, and, when enabled,
// takes part in a deterministic vector-clock race detector. No code of the real ThreadSanitizer runtime runs.
#include "internal.hpp"

#include <cstdio>
#include <sys/mman.h>

namespace sim {

    bool g_races = false;

    struct Cell { u32 clock; unsigned char tid, mask, wr, at; u32 pc; u32 pad; };
    static Cell *g_cells = nullptr;
    static u64 g_lo = 0, g_hi = 0;  // simulated thread stacks (not tracked)

    void race_reset() {
        if (not g_cells) {
            g_cells = static_cast<Cell *>(mmap(nullptr, (SH_MASK + 1) * sizeof(Cell) * 4, PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            if (g_cells == MAP_FAILED) { g_cells = nullptr; g_races = false; count("race-detector-unavailable"); }
        } else {
            madvise(g_cells, (SH_MASK + 1) * sizeof(Cell) * 4, MADV_DONTNEED);  // a new set of threads: old clocks mean nothing
        }
    }

    void race_clear(u64 a, u64 n) {
        if (not g_cells or n == 0) return;
        u64 b = sh_idx(a), e = b + (n + 7) / 8;
        if (n >= 65536) {
            u64 pb = (reinterpret_cast<u64>(g_cells + b * 4) + 4095) & ~4095ull;
            u64 pe = reinterpret_cast<u64>(g_cells + e * 4) & ~4095ull;
            std::memset(g_cells + b * 4, 0, pb - reinterpret_cast<u64>(g_cells + b * 4));
            if (pe > pb) madvise(reinterpret_cast<void *>(pb), pe - pb, MADV_DONTNEED);
            std::memset(reinterpret_cast<void *>(pe), 0, reinterpret_cast<u64>(g_cells + e * 4) - pe);
            return;
        }
        std::memset(g_cells + b * 4, 0, (e - b) * 4 * sizeof(Cell));
    }

    extern char g_exe_base[] __asm__("__executable_start");

    static u64 g_mlo = 0, g_mhi = 0;
    void set_stack_range(u64 lo, u64 hi) { g_lo = lo; g_hi = hi; }
    void set_main_stack(u64 lo, u64 hi) { g_mlo = lo; g_mhi = hi; }
    static inline bool stack_addr(u64 a) { return (a >= g_lo and a < g_hi) or (a >= g_mlo and a < g_mhi); }

    static std::string where(u32 pc) {
        return symbol(g_exe_base + pc);
    }

    static void report(u64 a, const Cell &o, bool wr, u32 pc) {
        char b[200];
        std::snprintf(b, sizeof b, "T%d %s and T%d %s the same memory without ordering", t_self->id,
                wr ? "writes" : "reads", o.tid - 1, o.wr ? "wrote" : "read");
        (void) a;
        g_races = false;
        violation("data-race", std::string{b} + "; now in " + where(pc) + "; before in " + where(o.pc) +
                "; stack: " + backtrace_text(3));
    }

    static inline void race_one(u64 a, u64 n, bool wr, bool at, u32 pc) {
        T *me = t_self;
        u64 off = a & 7;
        unsigned char mask = static_cast<unsigned char>((((1u << n) - 1) << off) & 0xff);
        Cell *c = g_cells + sh_idx(a) * 4;
        Cell *slot = nullptr;
        for (int i = 0; i < 4; ++i) {
            Cell &o = c[i];
            if (o.mask == 0) { if (not slot) slot = &o; continue; }
            if (o.tid == me->id + 1) {
                if (o.mask == mask and o.wr == wr and o.at == at) { o.clock = me->vc.c[me->id]; o.pc = pc; return; }
                continue;
            }
            if ((o.mask & mask) and (wr or o.wr) and not (at and o.at) and o.clock > me->vc.c[o.tid - 1]) {
                report(a, o, wr, pc);
            }
        }
        if (not slot) {
            // drop a cell that happened before us, else the oldest slot by address hash
            for (int i = 0; i < 4 and not slot; ++i)
                if (c[i].tid == me->id + 1 or c[i].clock <= me->vc.c[c[i].tid - 1]) slot = &c[i];
            if (not slot) slot = &c[(a >> 3) & 3];
        }
        slot->clock = me->vc.c[me->id];
        slot->tid = static_cast<unsigned char>(me->id + 1);
        slot->mask = mask;
        slot->wr = wr;
        slot->at = at;
        slot->pc = pc;
    }

    static void race_access(u64 a, u64 n, bool wr, bool at, u32 pc) {
        if (stack_addr(a)) return;
        while (n) {
            u64 k = 8 - (a & 7);
            if (k > n) k = n;
            race_one(a, k, wr, at, pc);
            a += k;
            n -= k;
        }
    }

}

using namespace sim;

static inline __attribute__((always_inline)) void acc(void *p, u64 n, bool wr, void *pc) {
    if (not g_run) return;
    if (++g_step >= g_next) mem_event();
    u64 a = reinterpret_cast<u64>(p);
    if (g_heap) {
        unsigned char s = g_hsh[sh_idx(a)];
        if (__builtin_expect(s != 0, 0)) { if (s >= 0x80 or (a & 7) + n > s) heap_bad(a, n, wr); }
    }
    if (g_races and t_self) race_access(a, n, wr, false, static_cast<u32>(static_cast<char *>(pc) - g_exe_base));
}

static void acc_range(void *p, u64 n, bool wr, void *pc) {
    if (not g_run or n == 0) return;
    g_step += 1 + n / 8;
    if (g_step >= g_next) mem_event();
    u64 a = reinterpret_cast<u64>(p);
    if (g_heap) range_check(a, n, wr);
    if (g_races and t_self) race_access(a, n, wr, false, static_cast<u32>(static_cast<char *>(pc) - g_exe_base));
}

#define PC __builtin_return_address(0)
#define RW(N) \
    void __tsan_read##N(void *p) { acc(p, N, false, PC); } \
    void __tsan_write##N(void *p) { acc(p, N, true, PC); } \
    void __tsan_unaligned_read##N(void *p) { acc_range(p, N, false, PC); } \
    void __tsan_unaligned_write##N(void *p) { acc_range(p, N, true, PC); } \
    void __tsan_read_write##N(void *p) { acc(p, N, true, PC); } \
    void __tsan_unaligned_read_write##N(void *p) { acc_range(p, N, true, PC); } \
    void __tsan_volatile_read##N(void *p) { acc(p, N, false, PC); } \
    void __tsan_volatile_write##N(void *p) { acc(p, N, true, PC); }

extern "C" {

void __tsan_init() {}
RW(1) RW(2) RW(4) RW(8)
void __tsan_read16(void *p) { acc_range(p, 16, false, PC); }
void __tsan_write16(void *p) { acc_range(p, 16, true, PC); }
void __tsan_unaligned_read16(void *p) { acc_range(p, 16, false, PC); }
void __tsan_unaligned_write16(void *p) { acc_range(p, 16, true, PC); }
void __tsan_read_range(void *p, unsigned long n) { acc_range(p, n, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { acc_range(p, n, true, PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) acc(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { acc(p, 8, false, PC); }
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void *__tsan_memcpy(void *d, const void *s, std::size_t n) {
    acc_range(const_cast<void *>(s), n, false, PC);
    acc_range(d, n, true, PC);
    return std::memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, std::size_t n) {
    acc_range(const_cast<void *>(s), n, false, PC);
    acc_range(d, n, true, PC);
    return std::memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, std::size_t n) {
    acc_range(d, n, true, PC);
    return std::memset(d, c, n);
}

}

// ---- atomics: one scheduling point each, vector clock transfer by memory order ----
static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE or mo == __ATOMIC_CONSUME or mo == __ATOMIC_ACQ_REL or mo == __ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE or mo == __ATOMIC_ACQ_REL or mo == __ATOMIC_SEQ_CST; }

static inline void at_pre(const volatile void *p, u64 n, bool wr, void *pc) {
    if (not g_run) return;
    if (g_sched and t_self) sync_point(); else if (++g_step >= g_next) mem_event();
    u64 a = reinterpret_cast<u64>(p);
    if (g_heap) range_check(a, n, wr);
    if (g_races and t_self) race_access(a, n, wr, true, static_cast<u32>(static_cast<char *>(pc) - g_exe_base));
}
static inline void at_load(const volatile void *p, int mo) {
    if (g_races and t_self and acq(mo)) acquire(atomic_vc(const_cast<const void *>(p)));
}
static inline void at_store(const volatile void *p, int mo) {
    if (g_races and t_self) {
        VC &v = atomic_vc(const_cast<const void *>(p));
        v.clear();
        if (rel(mo)) release(v);
    }
}
static inline void at_rmw(const volatile void *p, int mo) {
    if (g_races and t_self) {
        VC &v = atomic_vc(const_cast<const void *>(p));
        if (acq(mo)) acquire(v);
        if (rel(mo)) release(v);
    }
}

#define SC __ATOMIC_SEQ_CST
#define ATOMICS(BITS, TY) \
    TY __tsan_atomic##BITS##_load(const volatile TY *p, int mo) { \
        at_pre(p, sizeof(TY), false, PC); TY v = __atomic_load_n(p, SC); at_load(p, mo); return v; } \
    void __tsan_atomic##BITS##_store(volatile TY *p, TY v, int mo) { \
        at_pre(p, sizeof(TY), true, PC); at_store(p, mo); __atomic_store_n(p, v, SC); } \
    TY __tsan_atomic##BITS##_exchange(volatile TY *p, TY v, int mo) { \
        at_pre(p, sizeof(TY), true, PC); at_rmw(p, mo); return __atomic_exchange_n(p, v, SC); } \
    TY __tsan_atomic##BITS##_fetch_add(volatile TY *p, TY v, int mo) { \
        at_pre(p, sizeof(TY), true, PC); at_rmw(p, mo); return __atomic_fetch_add(p, v, SC); } \
    TY __tsan_atomic##BITS##_fetch_sub(volatile TY *p, TY v, int mo) { \
        at_pre(p, sizeof(TY), true, PC); at_rmw(p, mo); return __atomic_fetch_sub(p, v, SC); } \
    TY __tsan_atomic##BITS##_fetch_and(volatile TY *p, TY v, int mo) { \
        at_pre(p, sizeof(TY), true, PC); at_rmw(p, mo); return __atomic_fetch_and(p, v, SC); } \
    TY __tsan_atomic##BITS##_fetch_or(volatile TY *p, TY v, int mo) { \
        at_pre(p, sizeof(TY), true, PC); at_rmw(p, mo); return __atomic_fetch_or(p, v, SC); } \
    TY __tsan_atomic##BITS##_fetch_xor(volatile TY *p, TY v, int mo) { \
        at_pre(p, sizeof(TY), true, PC); at_rmw(p, mo); return __atomic_fetch_xor(p, v, SC); } \
    TY __tsan_atomic##BITS##_fetch_nand(volatile TY *p, TY v, int mo) { \
        at_pre(p, sizeof(TY), true, PC); at_rmw(p, mo); return __atomic_fetch_nand(p, v, SC); } \
    int __tsan_atomic##BITS##_compare_exchange_strong(volatile TY *p, TY *e, TY v, int mo, int fmo) { \
        at_pre(p, sizeof(TY), true, PC); \
        TY x = *e; bool ok = __atomic_compare_exchange_n(p, &x, v, false, SC, SC); \
        if (ok) at_rmw(p, mo); else { at_load(p, fmo); *e = x; } return ok; } \
    int __tsan_atomic##BITS##_compare_exchange_weak(volatile TY *p, TY *e, TY v, int mo, int fmo) { \
        at_pre(p, sizeof(TY), true, PC); \
        TY x = *e; bool ok = __atomic_compare_exchange_n(p, &x, v, false, SC, SC); \
        if (ok) at_rmw(p, mo); else { at_load(p, fmo); *e = x; } return ok; } \
    TY __tsan_atomic##BITS##_compare_exchange_val(volatile TY *p, TY e, TY v, int mo, int fmo) { \
        at_pre(p, sizeof(TY), true, PC); \
        bool ok = __atomic_compare_exchange_n(p, &e, v, false, SC, SC); \
        if (ok) at_rmw(p, mo); else at_load(p, fmo); return e; }

extern "C" {
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)
void __tsan_atomic_thread_fence(int) { if (g_run and g_sched and t_self) sync_point(); __atomic_thread_fence(SC); }
void __tsan_atomic_signal_fence(int) {}
}
