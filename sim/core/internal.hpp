#ifndef VERIF_SIM_INTERNAL_HPP
#define VERIF_SIM_INTERNAL_HPP

#include "sim.hpp"

#include <cstdlib>
#include <cstring>
#include <new>
#include <pthread.h>
#include <unordered_map>

extern "C" void *__libc_malloc(std::size_t);
extern "C" void __libc_free(void *);
extern "C" void *__libc_calloc(std::size_t, std::size_t);
extern "C" void *__libc_realloc(void *, std::size_t);
extern "C" void *__libc_memalign(std::size_t, std::size_t);

namespace sim {

    template<typename T>
    struct Raw {
        using value_type = T;
        Raw() = default;
        template<typename U>
        Raw(const Raw<U> &) {}
        T *allocate(std::size_t n) {
            void *p = __libc_malloc(n * sizeof(T));
            if (not p) std::abort();
            return static_cast<T *>(p);
        }
        void deallocate(T *p, std::size_t) { __libc_free(p); }
        template<typename U>
        bool operator==(const Raw<U> &) const { return true; }
        template<typename U>
        bool operator!=(const Raw<U> &) const { return false; }
    };
    template<typename T>
    using rvec = std::vector<T, Raw<T>>;
    template<typename K, typename V>
    using rmap = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, Raw<std::pair<const K, V>>>;
    using rstr = std::basic_string<char, std::char_traits<char>, Raw<char>>;

    constexpr int MAXT = 40;
    constexpr u64 NEVER = ~0ull;

    struct VC {
        u32 c[MAXT]{};
        void join(const VC &o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
        void clear() { std::memset(c, 0, sizeof c); }
    };

    enum class W { run, mutex, cond, futex, join, sleep, once, rw, done };

    struct T {
        int id{0};
        pthread_t real{};
        volatile int go{0};        // private futex: 1 = may run
        W w{W::run};
        const void *obj{nullptr};
        u64 deadline{NEVER};       // virtual time at which a timed wait ends / a stall ends
        u64 stall_until{0};
        bool timed_out{false};
        bool woken{false};
        bool detached{false}, joined{false}, reaped{false};
        void *(*fn)(void *){nullptr};
        void *arg{nullptr};
        void *ret{nullptr};
        int prio{0};
        VC vc;
        int alloc_off{0};
        double alloc_p{0};
        u64 alloc_hits{0};
        u64 clk_n{0}, clk_at{NEVER}, clk_ns{0};
    };

    struct DevRec { u64 step; int tid; };
    struct FaultRec { char kind[20]; u64 n; u64 arg; };
    struct CntRec { char name[44]; u32 used; u64 n; };
    struct ParRec { char name[24]; long v, lo; };

    struct Shm {
        int have_v;
        char vkind[64];
        char vdetail[12000];
        CntRec cnt[256];
        u64 hash, st, steps, simns, switches, maxrun;
        int nontriv, finished;
        u32 ndev, nfault, npar, nops, dev_overflow;
        struct { char kind[20]; u64 n; } occ[64];
        ParRec par[64];
        FaultRec faults[20000];
        DevRec devs[600000];
    };

    struct Plan {
        bool replay{false};
        std::map<std::string, long> par;
        std::vector<DevRec> devs;
        std::map<std::pair<std::string, u64>, u64> faults;
        std::vector<u64> drop;
    };

    extern Shm *g_shm;
    extern Plan g_plan;
    extern Ctx g_ctx;
    extern bool g_run;          // inside a run
    extern bool g_sched;        // scheduler active
    extern bool g_races;        // race detection active
    extern bool g_heap;         // heap checker active
    extern u64 g_step;          // instrumented accesses + synchronisation points so far
    extern u64 g_next;          // step at which the slow path must run
    extern thread_local T *t_self;
    extern Sched g_cfg;

    void mem_event();           // slow path of an instrumented access (preemption / step limit)
    void sync_point(bool yield = false);
    void acquire(VC &v);
    void release(VC &v);
    VC &atomic_vc(const void *p);
    bool is_own_stack(const void *p);

    // heap shadow
    extern unsigned char *g_hsh;
    constexpr u64 SH_MASK = (1ull << 31) - 1;
    inline u64 sh_idx(u64 a) { return (a >> 3) & SH_MASK; }
    void heap_bad(u64 a, u64 n, bool write);
    void range_check(u64 a, u64 n, bool write);
    void race_clear(u64 a, u64 n);
    void shadow_init();
    void race_reset();
    std::string symbol(const void *pc);
    std::string backtrace_text(int skip);

    void io_begin_run();
    void set_stack_range(u64 lo, u64 hi);
    void set_main_stack(u64 lo, u64 hi);

}

#endif
