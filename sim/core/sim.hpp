// Deterministic simulator: one seed = one execution. See /verif/DESIGN.md.
#ifndef VERIF_SIM_HPP
#define VERIF_SIM_HPP

#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <utility>
#include <vector>

namespace sim {

    using u64 = std::uint64_t;
    using u32 = std::uint32_t;

    struct Rng {
        u64 s{0};
        explicit Rng(u64 seed = 0) : s{seed} {}
        u64 next() {  // splitmix64
            u64 z = (s += 0x9E3779B97F4A7C15ull);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
        u64 below(u64 n) { return n ? next() % n : 0; }
        long range(long a, long b) { return a + static_cast<long>(below(static_cast<u64>(b - a + 1))); }
        double unit() { return static_cast<double>(next() >> 11) * 0x1.0p-53; }
        bool chance(double p) { return unit() < p; }
        template<typename C>
        auto &pick(C &c) { return c[below(c.size())]; }
    };

    inline u64 mix(u64 h, u64 v) {
        h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull;
        return h ^ (h >> 32);
    }

    inline u64 hash_str(const std::string &s) {
        u64 h = 1469598103934665603ull;
        for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
        return h;
    }

    // ---- scheduling policy of one run ----
    struct Sched {
        double p_switch{0.0};     // probability of leaving the current thread at a synchronisation point
        double p_mem{0.0};        // probability of a preemption per instrumented memory access
        double p_spurious{0.0};   // spurious wakeups of condition variables and futexes
        double p_stall{0.0};      // probability that a thread is stalled (virtual time) at a synchronisation point
        u64 stall_ns{0};
        u64 clock_step_ns{200};   // virtual time consumed by each clock read
        double p_clock_jump{0.0}; // clock read jumps forward
        u64 clock_jump_ns{0};
        bool pct{false};          // priority based (PCT) instead of uniform switching
        int pct_changes{3};
        u64 max_steps{40'000'000};
        bool races{false};        // happens-before race detection
    };

    // ---- one simulated run ----
    class Ctx {
    public:
        u64 seed{0};
        std::string dir;                      // scratch directory of this run
        std::string prop;
        std::string tier;
        Rng rng(const char *label) const { return Rng{mix(seed, hash_str(label))}; }
        // named workload parameter: drawn once per run, can be overridden by a replay file while shrinking
        long param(const std::string &name, long lo, long hi);
        // is element i of the generated workload kept (shrinking drops elements)
        bool keep(u64 i) const;
    };

    void start_sched(const Sched &s);   // calling thread becomes simulated thread 0
    void stop_sched();                  // requires every other simulated thread to be finished
    bool scheduling();
    void yield_point(const char *what = "user");
    u64 now_ns();                       // virtual clock, does not advance it
    void advance_ns(u64 ns);
    u64 steps();
    void step_limit(u64 n);             // outside of start_sched()/stop_sched(): the run is a livelock after n steps
    // clock reads of the calling thread since the last clock_plan(); the at-th read (0 based) finds the clock ns ahead
    void clock_plan(u64 at, u64 ns);
    u64 clock_reads();
    int current_tid();
    // bookkeeping of a scenario: no preemption while one of these is alive (do not block inside)
    struct Quiet { Quiet(); ~Quiet(); Quiet(const Quiet &) = delete; };

    [[noreturn]] void violation(const std::string &kind, const std::string &detail);
    void check(bool ok, const std::string &kind, const std::string &detail);
    void count(const char *name, u64 n = 1);     // coverage counters (faults fired, probes reached)
    void note(u64 v);                            // fold a value into the run's trace hash
    void note(const std::string &s);
    void state(u64 v);                           // fold a value into the run's "distinct behaviour" hash
    void nontrivial();                           // mark the run as having exercised the property

    // ---- faults ----
    // A fault site asks whether it fires; decisions are seeded, recorded and replayable.
    // kind: fault class (counted in evidence); p: probability in random mode; arg_n: argument range
    struct Fire { bool on{false}; u64 arg{0}; };
    Fire fault(const char *kind, double p, u64 arg_n = 1);

    // ---- allocation failures (operator new), per thread window ----
    void alloc_fault_window(double p);  // p = 0 disables
    // the next allocation from a memory mapped segment that draws the fault fails, as in a full file; once per call
    void segment_plan(double p);
    u64 alloc_fault_hits();             // failures injected into this thread since its last window was opened

    // ---- file system seam: paths below Ctx::dir ----
    struct IoPlan {
        double p_short_write{0}, p_eintr{0}, p_enospc{0}, p_eio_write{0}, p_short_read{0}, p_eio_read{0},
                p_open_fail{0}, p_truncate_fail{0}, p_mmap_fail{0};
        bool persistent_enospc{false};  // once full, stays full
        long crash_at{-1};              // _exit at this mutating file operation (0 based)
        bool isolate_maps{true};        // unmapped file ranges become inaccessible for good
        std::string only;               // restrict injected faults to paths that contain this text
    };
    void io_plan(const IoPlan &p);
    void io_reset();
    u64 io_ops();                        // mutating file operations seen so far
    bool io_failed();                    // a hard error was injected since io_reset()
    u64 io_remaps();
    constexpr int CRASH_EXIT = 77;
    void crash_after(u64 n);             // _exit after n more steps of this process (instrumented memory accesses); call it while scheduling
    // run fn in a forked child (no simulated threads may be alive); returns wait status; output of violations is shared
    int in_child(const std::function<void()> &fn);

    // heap checker: use after free / overflow seen by instrumented code
    void heap_check(bool on);

    using Scenario = void (*)(Ctx &);
    struct Register {
        Register(const char *prop, Scenario s, const char *real, const char *stub);
    };

}

#endif
