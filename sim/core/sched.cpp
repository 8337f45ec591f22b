// Scheduler: real threads, exactly one of which holds the token. Every pthread / futex / clock call of the
// code under test is intercepted here; blocking is simulated, so a deadlock is "no runnable thread".
#include "internal.hpp"

#include <cerrno>
#include <chrono>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <dlfcn.h>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace sim {

    bool g_run = false, g_sched = false;
    u64 g_step = 0, g_next = NEVER;
    static u64 g_crash = NEVER;  // the process stops existing at this step
    thread_local T *t_self = nullptr;
    Sched g_cfg;

    static T *g_t[MAXT];
    static int g_nt = 0;
    static T *g_cur = nullptr;
    static T *g_reap = nullptr;
    static u64 g_now = 0;
    static u64 g_dev_i = 0;
    static Rng g_rng, g_mrng;
    static u64 g_pre = NEVER;
    static int g_pct_left = 0;
    static u64 g_pct_next = NEVER;
    static int g_low = 0;
    static u64 g_since = 0;
    static pthread_key_t g_exit_key;
    static bool g_key_made = false;

    struct Mx { T *owner{nullptr}; int depth{0}; VC vc; };
    struct Rw { T *writer{nullptr}; int readers{0}; VC vc; };
    struct Once { int st{0}; VC vc; };
    static rmap<const void *, Mx> *g_mx;
    static rmap<const void *, Rw> *g_rw;
    static rmap<const void *, Once> *g_once;
    static rmap<const void *, VC> *g_avc;

    // ---------- raw futex, never intercepted ----------
    static long raw_syscall6(long n, long a, long b, long c, long d, long e, long f) {
        register long r10 __asm__("r10") = d;
        register long r8 __asm__("r8") = e;
        register long r9 __asm__("r9") = f;
        long ret;
        __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                         : "rcx", "r11", "memory");
        return ret;
    }

    static void park(T *t) {
        while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0)
            raw_syscall6(SYS_futex, (long) &t->go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
        __atomic_store_n(&t->go, 0, __ATOMIC_RELEASE);
    }

    static void unpark(T *t) {
        __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
        raw_syscall6(SYS_futex, (long) &t->go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
    }

    template<typename F>
    static F real(const char *name) {
        return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
    }
#define REAL(ret, name, ...) static auto name##_real = real<ret (*)(__VA_ARGS__)>(#name)

    // ---------- bookkeeping ----------
    bool scheduling() { return g_sched; }
    u64 now_ns() { return g_now; }
    void advance_ns(u64 ns) { g_now += ns; }
    u64 steps() { return g_step; }
    int current_tid() { return t_self ? t_self->id : -1; }

    void acquire(VC &v) { t_self->vc.join(v); }
    void release(VC &v) { v.join(t_self->vc); t_self->vc.c[t_self->id]++; }
    VC &atomic_vc(const void *p) { return (*g_avc)[p]; }

    static void on_reaped() {
        if (g_reap) {
            T *r = g_reap;
            g_reap = nullptr;
            REAL(int, pthread_join, pthread_t, void **);
            pthread_join_real(r->real, nullptr);
            r->reaped = true;
        }
    }

    static const char *wname(W w) {
        switch (w) {
            case W::run: return "running";
            case W::mutex: return "mutex";
            case W::cond: return "condition";
            case W::futex: return "futex/semaphore";
            case W::join: return "join";
            case W::sleep: return "sleep";
            case W::once: return "once";
            case W::rw: return "rwlock";
            case W::done: return "finished";
        }
        return "?";
    }

    static std::string dump() {
        std::string s;
        for (int i = 0; i < g_nt; ++i) {
            if (g_t[i]->w == W::done) continue;
            s += " T" + std::to_string(i) + ":" + wname(g_t[i]->w);
        }
        return s;
    }

    static bool runnable(T *t) { return t->w == W::run and t->stall_until <= g_now; }

    // move virtual time to the next deadline; false when nothing is pending
    static bool idle_advance() {
        u64 best = NEVER;
        for (int i = 0; i < g_nt; ++i) {
            T *t = g_t[i];
            if (t->w == W::done) continue;
            if (t->w == W::run) { if (t->stall_until < best) best = t->stall_until; }
            else if (t->deadline < best) best = t->deadline;
        }
        if (best == NEVER) return false;
        if (best > g_now) g_now = best;
        for (int i = 0; i < g_nt; ++i) {
            T *t = g_t[i];
            if (t->w != W::run and t->w != W::done and t->deadline <= g_now) {
                t->timed_out = true;
                t->w = W::run;
                t->deadline = NEVER;
            }
        }
        return true;
    }

    static void fire_timers() {
        for (int i = 0; i < g_nt; ++i) {
            T *t = g_t[i];
            if (t->w != W::run and t->w != W::done and t->deadline <= g_now) {
                t->timed_out = true;
                t->w = W::run;
                t->deadline = NEVER;
            }
        }
    }

    static void set_next() {
        u64 n = g_cfg.max_steps;
        if (g_plan.replay) {
            if (g_dev_i < g_plan.devs.size() and g_plan.devs[g_dev_i].step < n) n = g_plan.devs[g_dev_i].step;
        } else {
            if (g_pre < n) n = g_pre;
            if (g_pct_next < n) n = g_pct_next;
        }
        if (g_crash < n) n = g_crash;
        if (g_sched and g_since + 400000 < n) n = g_since + 400000;  // fairness: nobody runs alone forever
        g_next = n;
    }

    static u64 geometric(double p) {
        if (p <= 0) return NEVER;
        double u = g_mrng.unit();
        if (u < 1e-12) u = 1e-12;
        double k = 1.0 + __builtin_log(u) / __builtin_log1p(-p);
        if (k > 1e15) return NEVER;
        return static_cast<u64>(k);
    }

    static int g_quiet = 0;
    // bookkeeping of a scenario is invisible to the race detector as well
    Quiet::Quiet() { ++g_quiet; g_races = false; }
    Quiet::~Quiet() { if (--g_quiet == 0) g_races = g_sched and g_cfg.races; }

    static void switch_to(T *n) {
        T *me = t_self;
        g_since = g_step;
        if (n == me) return;
        g_shm->switches++;
        g_shm->st = mix(g_shm->st, static_cast<u64>(n->id) * 131 + static_cast<u64>(me->w));
        g_shm->hash = mix(g_shm->hash, g_step * 64 + static_cast<u64>(n->id));
        g_cur = n;
        bool fin = me->w == W::done;
        unpark(n);
        if (fin) return;
        park(me);
        on_reaped();
    }

    static T *default_pick(bool prefer_other) {
        T *me = t_self;
        if (not prefer_other and runnable(me)) return me;
        for (int k = 1; k <= g_nt; ++k) {
            T *t = g_t[(me->id + k) % g_nt];
            if (runnable(t)) return t;
        }
        return nullptr;
    }

    static void choose_and_switch(bool mem, bool yield) {
        T *me = t_self;
        fire_timers();
        bool fair = g_step - g_since >= 400000;
        T *def = default_pick(yield or fair);
        while (not def) {
            if (not idle_advance()) {
                violation("deadlock", "no thread can run:" + dump());
            }
            def = default_pick(yield);
        }
        T *pick = def;
        if (g_plan.replay) {
            while (g_dev_i < g_plan.devs.size() and g_plan.devs[g_dev_i].step <= g_step) {
                const auto &d = g_plan.devs[g_dev_i++];
                if (d.tid >= 0 and d.tid < g_nt and runnable(g_t[d.tid])) pick = g_t[d.tid];
            }
        } else {
            bool must = not runnable(me);
            if (g_cfg.pct) {
                if (g_step >= g_pct_next) {
                    me->prio = --g_low;
                    g_pct_next = --g_pct_left > 0 ? g_step + 1 + g_mrng.below(60000) : NEVER;
                }
                if (yield or fair) me->prio = --g_low;
                T *b = nullptr;
                for (int i = 0; i < g_nt; ++i)
                    if (runnable(g_t[i]) and (not b or g_t[i]->prio > b->prio)) b = g_t[i];
                if (b) pick = b;
            } else if (must or mem or yield or g_rng.chance(g_cfg.p_switch)) {
                T *c[MAXT];
                int n = 0;
                for (int i = 0; i < g_nt; ++i) if (runnable(g_t[i]) and (must or g_t[i] != me)) c[n++] = g_t[i];
                if (n) pick = c[g_rng.below(n)];
            }
            if (pick != def) {
                if (g_shm->ndev < sizeof(g_shm->devs) / sizeof(DevRec)) g_shm->devs[g_shm->ndev++] = {g_step, pick->id};
                else g_shm->dev_overflow = 1;
            }
            if (g_step >= g_pre) { u64 k = geometric(g_cfg.p_mem); g_pre = k == NEVER ? NEVER : g_step + k; }
        }
        set_next();
        switch_to(pick);
    }

    void mem_event() {
        if (g_step >= g_crash) _exit(CRASH_EXIT);
        if (g_step >= g_cfg.max_steps) {
            violation("livelock", "no end after " + std::to_string(g_step) + " steps:" + dump());
        }
        if (not g_sched or not t_self) { g_next = std::min(g_cfg.max_steps, g_crash); return; }
        if (g_quiet) { g_next = g_step + 1; return; }
        choose_and_switch(true, false);
    }

    void sync_point(bool yield) {
        if (not g_sched or not t_self or g_quiet) return;
        ++g_step;
        if (g_step >= g_crash) _exit(CRASH_EXIT);
        if (g_step >= g_cfg.max_steps) {
            violation("livelock", "no end after " + std::to_string(g_step) + " steps:" + dump());
        }
        if (g_cfg.p_stall > 0 or g_plan.replay) {
            Fire f = fault("stall", g_cfg.p_stall, g_cfg.stall_ns ? g_cfg.stall_ns : 1);
            if (f.on) t_self->stall_until = g_now + f.arg + 1;
        }
        choose_and_switch(false, yield);
    }

    void yield_point(const char *) { if (g_sched and t_self) sync_point(false); }

    // block the current thread until someone sets it runnable again (or its deadline passes)
    static void block(W w, const void *obj, u64 deadline = NEVER) {
        T *me = t_self;
        me->w = w;
        me->obj = obj;
        me->deadline = deadline;
        me->timed_out = false;
        me->woken = false;
        ++g_step;
        choose_and_switch(false, false);
        me->obj = nullptr;
        me->deadline = NEVER;
    }

    static void wake_all(W w, const void *obj) {
        for (int i = 0; i < g_nt; ++i) {
            T *t = g_t[i];
            if (t->w == w and t->obj == obj) { t->w = W::run; t->woken = true; }
        }
    }

    static int wake_some(W w, const void *obj, int n) {
        int done = 0;
        while (done < n) {
            T *c[MAXT];
            int k = 0;
            for (int i = 0; i < g_nt; ++i) if (g_t[i]->w == w and g_t[i]->obj == obj) c[k++] = g_t[i];
            if (not k) break;
            u64 pick = 0;
            if (k > 1) { Fire f = fault("wake-order", 0.3, static_cast<u64>(k)); if (f.on) pick = f.arg % static_cast<u64>(k); }
            c[pick]->w = W::run;
            c[pick]->woken = true;
            ++done;
        }
        return done;
    }

    static void mx_lock(const void *m, bool recursive) {
        Mx &x = (*g_mx)[m];
        while (x.owner and not (recursive and x.owner == t_self)) block(W::mutex, m);
        x.owner = t_self;
        x.depth++;
        acquire(x.vc);
    }

    static void mx_unlock(const void *m) {
        Mx &x = (*g_mx)[m];
        if (x.owner != t_self) return;
        if (--x.depth == 0) {
            release(x.vc);
            x.owner = nullptr;
            wake_all(W::mutex, m);
        }
    }

    static void thread_exit_hook(void *v) {
        // runs last: re-arm until the final destructor round, so that thread_local destructors of the code ran before
        long round = reinterpret_cast<long>(v);
        if (round < PTHREAD_DESTRUCTOR_ITERATIONS - 1) {
            pthread_setspecific(g_exit_key, reinterpret_cast<void *>(round + 1));
            return;
        }
        T *me = t_self;
        if (not me or not g_sched) return;
        me->vc.c[me->id]++;
        me->w = W::done;
        ++g_step;
        wake_all(W::join, me);
        g_reap = me;
        choose_and_switch(false, false);
    }

    static void *trampoline(void *p) {
        T *me = static_cast<T *>(p);
        t_self = me;
        park(me);
        on_reaped();
        pthread_setspecific(g_exit_key, reinterpret_cast<void *>(1L));
        me->ret = me->fn(me->arg);
        return me->ret;
    }

    void start_sched(const Sched &s) {
        g_cfg = s;
        g_rng = Rng{mix(g_ctx.seed, 0x5c4ed)};
        g_mrng = Rng{mix(g_ctx.seed, 0x3e3)};
        if (not g_key_made) { pthread_key_create(&g_exit_key, thread_exit_hook); g_key_made = true; }
        if (not g_mx) {
            g_mx = new(__libc_malloc(sizeof *g_mx)) rmap<const void *, Mx>;
            g_rw = new(__libc_malloc(sizeof *g_rw)) rmap<const void *, Rw>;
            g_once = new(__libc_malloc(sizeof *g_once)) rmap<const void *, Once>;
            g_avc = new(__libc_malloc(sizeof *g_avc)) rmap<const void *, VC>;
        }
        g_mx->clear(); g_rw->clear(); g_avc->clear();
        g_nt = 0;
        T *t = new(__libc_calloc(1, sizeof(T))) T;
        t->id = g_nt;
        t->real = pthread_self();
        t->vc.c[0] = 1;
        g_t[g_nt++] = t;
        t_self = t;
        g_quiet = 0;
        g_cur = t;
        g_since = g_step;
        g_low = 0;
        g_pct_left = s.pct_changes;
        g_pct_next = s.pct ? g_step + 1 + g_mrng.below(60000) : NEVER;
        t->prio = 1 + static_cast<int>(g_rng.below(1000000));
        g_pre = NEVER;
        u64 k = geometric(s.p_mem);
        if (k != NEVER) g_pre = g_step + k;
        g_races = s.races;
        if (g_races) race_reset();
        g_sched = true;
        set_next();
    }

    void stop_sched() {
        for (int i = 1; i < g_nt; ++i) {
            if (g_t[i]->w != W::done) {
                // give unfinished (detached) threads the chance to finish
                u64 limit = g_step + 5'000'000;
                while (g_t[i]->w != W::done and g_step < limit) sync_point(true);
                if (g_t[i]->w != W::done) violation("thread-leak", "a thread never finished:" + dump());
            }
        }
        on_reaped();
        g_sched = false;
        g_races = false;
        g_next = g_cfg.max_steps;
        t_self = nullptr;
    }

    void crash_after(u64 n) {
        g_crash = g_step + n;
        if (g_crash < g_next) g_next = g_crash;
    }

    void step_limit(u64 n) {
        g_cfg.max_steps = n;
        if (not g_sched) g_next = n;
    }

    static u64 to_ns(const struct timespec *ts) {
        return static_cast<u64>(ts->tv_sec) * 1000000000ull + static_cast<u64>(ts->tv_nsec);
    }

    static u64 clock_read() {
        g_now += g_cfg.clock_step_ns;
        if (g_cfg.p_clock_jump > 0 or g_plan.replay) {
            Fire f = fault("clock-jump", g_cfg.p_clock_jump, g_cfg.clock_jump_ns ? g_cfg.clock_jump_ns : 1);
            if (f.on) g_now += f.arg + 1;
        }
        if (t_self) {
            if (t_self->clk_n == t_self->clk_at) {
                Fire f = fault("clock-jump", 1.0, 1);
                if (f.on) g_now += t_self->clk_ns;
            }
            ++t_self->clk_n;
        }
        g_shm->simns = g_now;
        return g_now;
    }

    void clock_plan(u64 at, u64 ns) {
        if (not t_self) return;
        t_self->clk_n = 0;
        t_self->clk_at = at;
        t_self->clk_ns = ns;
    }
    u64 clock_reads() { return t_self ? t_self->clk_n : 0; }

    // hooks for the rest of the runtime
    void mx_guard_lock(const void *m) { sync_point(); mx_lock(m, false); }
    void mx_guard_unlock(const void *m) { mx_unlock(m); sync_point(); }

}

using namespace sim;

static inline bool on() { return g_sched and t_self; }

static constexpr u64 EPOCH_NS = 1'700'000'000'000'000'000ull;

namespace std::chrono {
    inline namespace _V2 {
        steady_clock::time_point steady_clock::now() noexcept {
            if (g_run) return time_point{duration{static_cast<long>(EPOCH_NS + clock_read())}};
            struct timespec ts;
            REAL(int, clock_gettime, clockid_t, struct timespec *);
            clock_gettime_real(CLOCK_MONOTONIC, &ts);
            return time_point{duration{ts.tv_sec * 1000000000l + ts.tv_nsec}};
        }
        system_clock::time_point system_clock::now() noexcept {
            if (g_run) return time_point{duration{static_cast<long>(EPOCH_NS + clock_read())}};
            struct timespec ts;
            REAL(int, clock_gettime, clockid_t, struct timespec *);
            clock_gettime_real(CLOCK_REALTIME, &ts);
            return time_point{duration{ts.tv_sec * 1000000000l + ts.tv_nsec}};
        }
    }
}

extern "C" {

int clock_gettime(clockid_t c, struct timespec *ts) {
    REAL(int, clock_gettime, clockid_t, struct timespec *);
    if (not g_run) return clock_gettime_real(c, ts);
    u64 v = EPOCH_NS + clock_read();
    ts->tv_sec = static_cast<time_t>(v / 1000000000ull);
    ts->tv_nsec = static_cast<long>(v % 1000000000ull);
    return 0;
}

int gettimeofday(struct timeval *tv, void *) {
    if (not g_run) {
        struct timespec ts;
        REAL(int, clock_gettime, clockid_t, struct timespec *);
        clock_gettime_real(CLOCK_REALTIME, &ts);
        tv->tv_sec = ts.tv_sec;
        tv->tv_usec = ts.tv_nsec / 1000;
        return 0;
    }
    u64 v = EPOCH_NS + clock_read();
    tv->tv_sec = static_cast<time_t>(v / 1000000000ull);
    tv->tv_usec = static_cast<long>(v % 1000000000ull) / 1000;
    return 0;
}

time_t time(time_t *t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}

int nanosleep(const struct timespec *req, struct timespec *rem) {
    REAL(int, nanosleep, const struct timespec *, struct timespec *);
    if (not on()) { if (g_run) { advance_ns(to_ns(req)); return 0; } return nanosleep_real(req, rem); }
    block(W::sleep, nullptr, g_now + to_ns(req));
    return 0;
}

int clock_nanosleep(clockid_t c, int flags, const struct timespec *req, struct timespec *rem) {
    REAL(int, clock_nanosleep, clockid_t, int, const struct timespec *, struct timespec *);
    if (not on()) { if (g_run) return 0; return clock_nanosleep_real(c, flags, req, rem); }
    u64 d = (flags & TIMER_ABSTIME) ? to_ns(req) - EPOCH_NS : g_now + to_ns(req);
    block(W::sleep, nullptr, d);
    return 0;
}

int usleep(useconds_t us) {
    struct timespec ts{static_cast<time_t>(us / 1000000), static_cast<long>(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}

int sched_yield(void) {
    REAL(int, sched_yield, void);
    if (not on()) return sched_yield_real();
    sync_point(true);
    return 0;
}

int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    if (not on()) return pthread_create_real(out, attr, fn, arg);
    sync_point();
    if (g_nt >= MAXT) violation("harness-limit", "too many threads");
    T *t = new(__libc_calloc(1, sizeof(T))) T;
    t->id = g_nt;
    t->fn = fn;
    t->arg = arg;
    t->prio = 1 + static_cast<int>(g_rng.below(1000000));
    if (attr) {
        int ds = 0;
        pthread_attr_getdetachstate(attr, &ds);
        t->detached = ds == PTHREAD_CREATE_DETACHED;
    }
    t->vc.join(t_self->vc);
    t->vc.c[t->id] = 1;
    t_self->vc.c[t_self->id]++;
    static char *arena = nullptr;
    constexpr std::size_t STK = 1 << 20;
    if (not arena) {
        arena = static_cast<char *>(mmap(nullptr, STK * MAXT, PROT_READ | PROT_WRITE,
                MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        set_stack_range(reinterpret_cast<u64>(arena), reinterpret_cast<u64>(arena) + STK * MAXT);
    }
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, arena + STK * static_cast<std::size_t>(t->id), STK);
    g_t[g_nt++] = t;
    int r = pthread_create_real(&t->real, &a, trampoline, t);
    pthread_attr_destroy(&a);
    if (r) { --g_nt; return r; }
    *out = t->real;
    sync_point();
    return 0;
}

static T *find_thread(pthread_t p) {
    for (int i = g_nt; i-- > 0;) if (not g_t[i]->joined and pthread_equal(g_t[i]->real, p)) return g_t[i];
    return nullptr;
}

int pthread_join(pthread_t p, void **ret) {
    REAL(int, pthread_join, pthread_t, void **);
    if (not on()) return pthread_join_real(p, ret);
    sync_point();
    T *t = find_thread(p);
    if (not t) return ESRCH;
    if (t == t_self) return EDEADLK;
    while (t->w != W::done) block(W::join, t);
    on_reaped();
    t->joined = true;
    t_self->vc.join(t->vc);
    if (ret) *ret = t->ret;
    return 0;
}

int pthread_detach(pthread_t p) {
    REAL(int, pthread_detach, pthread_t);
    if (not on()) return pthread_detach_real(p);
    if (T *t = find_thread(p)) t->detached = true;
    return 0;
}

int pthread_mutex_lock(pthread_mutex_t *m) {
    REAL(int, pthread_mutex_lock, pthread_mutex_t *);
    if (not on()) return pthread_mutex_lock_real(m);
    sync_point();
    mx_lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP);
    return 0;
}

int pthread_mutex_trylock(pthread_mutex_t *m) {
    REAL(int, pthread_mutex_trylock, pthread_mutex_t *);
    if (not on()) return pthread_mutex_trylock_real(m);
    sync_point();
    Mx &x = (*g_mx)[m];
    bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    if (x.owner and not (rec and x.owner == t_self)) return EBUSY;
    mx_lock(m, rec);
    return 0;
}

static int mx_timed(pthread_mutex_t *m, u64 d) {
    sync_point();
    Mx &x = (*g_mx)[m];
    while (x.owner) {
        block(W::mutex, m, d);
        if (x.owner and t_self->timed_out) return ETIMEDOUT;
    }
    mx_lock(m, false);
    return 0;
}

int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) {
    REAL(int, pthread_mutex_timedlock, pthread_mutex_t *, const struct timespec *);
    if (not on()) return pthread_mutex_timedlock_real(m, ts);
    return mx_timed(m, to_ns(ts) - EPOCH_NS);
}

int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts) {
    REAL(int, pthread_mutex_clocklock, pthread_mutex_t *, clockid_t, const struct timespec *);
    if (not on()) return pthread_mutex_clocklock_real(m, c, ts);
    return mx_timed(m, to_ns(ts) - EPOCH_NS);
}

int pthread_mutex_unlock(pthread_mutex_t *m) {
    REAL(int, pthread_mutex_unlock, pthread_mutex_t *);
    if (not on()) return pthread_mutex_unlock_real(m);
    mx_unlock(m);
    sync_point();
    return 0;
}

int pthread_mutex_destroy(pthread_mutex_t *m) {
    REAL(int, pthread_mutex_destroy, pthread_mutex_t *);
    if (on()) {
        auto it = g_mx->find(m);
        if (it != g_mx->end()) {
            if (it->second.owner) violation("mutex-destroyed-locked", "a mutex was destroyed while held");
            g_mx->erase(it);
        }
    }
    return pthread_mutex_destroy_real(m);
}

static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, u64 deadline) {
    sync_point();
    Mx &x = (*g_mx)[m];
    int depth = x.depth;
    x.depth = 1;
    mx_unlock(m);
    Fire sp = fault("spurious-wakeup", g_cfg.p_spurious);
    if (sp.on) {
        sync_point(true);
    } else {
        block(W::cond, c, deadline);
    }
    bool to = t_self->timed_out and not t_self->woken and not sp.on;
    mx_lock(m, false);
    (*g_mx)[m].depth = depth;
    return to ? ETIMEDOUT : 0;
}

int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    REAL(int, pthread_cond_wait, pthread_cond_t *, pthread_mutex_t *);
    if (not on()) return pthread_cond_wait_real(c, m);
    return cond_wait(c, m, NEVER);
}

int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    REAL(int, pthread_cond_timedwait, pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
    if (not on()) return pthread_cond_timedwait_real(c, m, ts);
    u64 v = to_ns(ts);
    return cond_wait(c, m, v > EPOCH_NS ? v - EPOCH_NS : 0);
}

int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
    REAL(int, pthread_cond_clockwait, pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *);
    if (not on()) return pthread_cond_clockwait_real(c, m, k, ts);
    u64 v = to_ns(ts);
    return cond_wait(c, m, v > EPOCH_NS ? v - EPOCH_NS : 0);
}

int pthread_cond_signal(pthread_cond_t *c) {
    REAL(int, pthread_cond_signal, pthread_cond_t *);
    if (not on()) return pthread_cond_signal_real(c);
    sync_point();
    wake_some(W::cond, c, 1);
    sync_point();
    return 0;
}

int pthread_cond_broadcast(pthread_cond_t *c) {
    REAL(int, pthread_cond_broadcast, pthread_cond_t *);
    if (not on()) return pthread_cond_broadcast_real(c);
    sync_point();
    wake_all(W::cond, c);
    sync_point();
    return 0;
}

int pthread_cond_destroy(pthread_cond_t *c) {
    REAL(int, pthread_cond_destroy, pthread_cond_t *);
    if (on()) {
        for (int i = 0; i < g_nt; ++i)
            if (g_t[i]->w == W::cond and g_t[i]->obj == c)
                violation("condition-destroyed-in-use", "a condition variable was destroyed while a thread waits on it");
        return 0;
    }
    return pthread_cond_destroy_real(c);
}

int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
    REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t *);
    if (not on()) return pthread_rwlock_rdlock_real(l);
    sync_point();
    Rw &x = (*g_rw)[l];
    while (x.writer) block(W::rw, l);
    x.readers++;
    acquire(x.vc);
    return 0;
}

int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
    REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t *);
    if (not on()) return pthread_rwlock_wrlock_real(l);
    sync_point();
    Rw &x = (*g_rw)[l];
    while (x.writer or x.readers) block(W::rw, l);
    x.writer = t_self;
    acquire(x.vc);
    return 0;
}

int pthread_rwlock_unlock(pthread_rwlock_t *l) {
    REAL(int, pthread_rwlock_unlock, pthread_rwlock_t *);
    if (not on()) return pthread_rwlock_unlock_real(l);
    Rw &x = (*g_rw)[l];
    release(x.vc);
    if (x.writer == t_self) x.writer = nullptr;
    else if (x.readers) x.readers--;
    wake_all(W::rw, l);
    sync_point();
    return 0;
}

int pthread_once(pthread_once_t *o, void (*fn)(void)) {
    REAL(int, pthread_once, pthread_once_t *, void (*)(void));
    if (not on()) return pthread_once_real(o, fn);
    sync_point();
    if (*o != 0 and g_once->find(o) == g_once->end()) return pthread_once_real(o, fn);  // done before the run
    Once &x = (*g_once)[o];
    if (*o == 0 and x.st == 2) x = Once{};             // another object at the same address
    while (x.st == 1) block(W::once, o);
    if (x.st == 0) {
        x.st = 1;
        try {
            fn();
        } catch (...) {
            x.st = 0;
            wake_all(W::once, o);
            throw;
        }
        x.st = 2;
        static auto nop = [] {};
        pthread_once_real(o, +nop);
        release(x.vc);
        wake_all(W::once, o);
    }
    acquire(x.vc);
    return 0;
}

// function-local statics
static rmap<const void *, Once> &guards() {
    static rmap<const void *, Once> *g = new(__libc_malloc(sizeof *g)) rmap<const void *, Once>;
    return *g;
}

int __cxa_guard_acquire(unsigned long long *g) {
    auto *done = reinterpret_cast<unsigned char *>(g);
    if (on()) sync_point();
    if (*done) {
        if (on()) { auto it = guards().find(g); if (it != guards().end()) acquire(it->second.vc); }
        return 0;
    }
    if (on()) {
        Once &x = guards()[g];
        while (done[1]) block(W::once, g);
        if (*done) { acquire(x.vc); return 0; }
    }
    done[1] = 1;
    return 1;
}

void __cxa_guard_release(unsigned long long *g) {
    auto *done = reinterpret_cast<unsigned char *>(g);
    done[1] = 0;
    *done = 1;
    if (on()) { release(guards()[g].vc); release(atomic_vc(g)); wake_all(W::once, g); sync_point(); }
}

void __cxa_guard_abort(unsigned long long *g) {
    auto *done = reinterpret_cast<unsigned char *>(g);
    done[1] = 0;
    if (on()) wake_all(W::once, g);
}

long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
            f = va_arg(ap, long);
    va_end(ap);
    if (on() and n == SYS_futex) {
        int op = static_cast<int>(b) & FUTEX_CMD_MASK;
        auto *addr = reinterpret_cast<int *>(a);
        const auto *ts = reinterpret_cast<const struct timespec *>(d);
        if (op == FUTEX_WAIT or op == FUTEX_WAIT_BITSET) {
            sync_point();
            if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != static_cast<int>(c)) { errno = EAGAIN; return -1; }
            if (fault("spurious-wakeup", g_cfg.p_spurious).on) { sync_point(true); errno = EINTR; return -1; }
            u64 dl = NEVER;
            if (ts) dl = op == FUTEX_WAIT ? g_now + to_ns(ts) : (to_ns(ts) > EPOCH_NS ? to_ns(ts) - EPOCH_NS : 0);
            block(W::futex, addr, dl);
            if (t_self->timed_out and not t_self->woken) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE or op == FUTEX_WAKE_BITSET) {
            sync_point();
            int r = wake_some(W::futex, addr, static_cast<int>(c) < 0 ? INT_MAX : static_cast<int>(c));
            sync_point();
            return r;
        }
    }
    long r = raw_syscall6(n, a, b, c, d, e, f);
    if (r < 0 and r > -4096) { errno = static_cast<int>(-r); return -1; }
    return r;
}

}
