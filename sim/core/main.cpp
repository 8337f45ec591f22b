// Zygote: forks one child per seed, collects the shared record, prints one line per event for the driver.
#include "internal.hpp"

#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <execinfo.h>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <malloc.h>
#include <poll.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

namespace sim {

    Shm *g_shm = nullptr;
    Plan g_plan;
    Ctx g_ctx;
    static Rng g_frng;
    // occurrence number of a fault site kind; shared with children of the run
    static u64 occurrence(const char *kind) {
        for (auto &o : g_shm->occ) {
            if (not o.kind[0]) std::strncpy(o.kind, kind, sizeof o.kind - 1);
            if (std::strncmp(o.kind, kind, sizeof o.kind - 1) == 0) return o.n++;
        }
        return 0;
    }

    struct Entry { const char *prop; Scenario fn; const char *real, *stub; };
    static std::vector<Entry> &registry() { static std::vector<Entry> r; return r; }
    Register::Register(const char *p, Scenario s, const char *real, const char *stub) { registry().push_back({p, s, real, stub}); }

    std::string symbol(const void *pc) {
        Dl_info i{};
        char b[64];
        if (not dladdr(pc, &i) or not i.dli_sname) { std::snprintf(b, sizeof b, "?%p", pc); return b; }
        int st = 0;
        char *d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
        std::string s = d ? d : i.dli_sname;
        std::free(d);
        // drop template arguments and parameter lists: readable and stable
        std::string o;
        int depth = 0;
        for (char c : s) {
            if (c == '<') { ++depth; continue; }
            if (c == '>') { if (depth) --depth; continue; }
            if (not depth) o.push_back(c);
        }
        return o.substr(0, 160);
    }

    std::string backtrace_text(int skip) {
        void *f[40];
        int n = backtrace(f, 40);
        std::string s;
        for (int i = skip; i < n and i < skip + 24; ++i) {
            std::string x = symbol(f[i]);
            if (x.rfind("sim::", 0) == 0 or x.rfind("?", 0) == 0) continue;
            s += (s.empty() ? "" : " <- ") + x;
            if (s.size() > 2500) break;
        }
        return s;
    }

    static void put(char *dst, std::size_t cap, const std::string &s) {
        std::size_t n = s.size() < cap - 1 ? s.size() : cap - 1;
        std::memcpy(dst, s.data(), n);
        dst[n] = 0;
    }

    void violation(const std::string &kind, const std::string &detail) {
        bool first = not g_shm->have_v;
        g_run = false;
        if (first) {
            g_shm->have_v = 1;
            put(g_shm->vkind, sizeof g_shm->vkind, kind);
            put(g_shm->vdetail, sizeof g_shm->vdetail, detail);
            g_shm->hash = mix(g_shm->hash, hash_str(kind));
            g_shm->steps = g_step;
        }
        _exit(3);
    }

    void check(bool ok, const std::string &kind, const std::string &detail) { if (not ok) violation(kind, detail); }

    void count(const char *name, u64 n) {
        for (auto &c : g_shm->cnt) {
            if (not c.used) { std::strncpy(c.name, name, sizeof c.name - 1); c.used = 1; }
            if (std::strncmp(c.name, name, sizeof c.name - 1) == 0) { c.n += n; return; }
        }
    }

    void note(u64 v) { g_shm->hash = mix(g_shm->hash, v); }
    void note(const std::string &s) { note(hash_str(s)); }
    void state(u64 v) { g_shm->st = mix(g_shm->st, v); }
    void nontrivial() { g_shm->nontriv = 1; }

    long Ctx::param(const std::string &name, long lo, long hi) {
        Rng r{mix(mix(seed, 0x9a7a), hash_str(name))};
        long v = r.range(lo, hi);
        auto it = g_plan.par.find(name);
        if (it != g_plan.par.end()) v = it->second;
        if (v < lo) v = lo;
        if (v > hi) v = hi;
        if (g_shm->npar < 64) {
            auto &p = g_shm->par[g_shm->npar++];
            put(p.name, sizeof p.name, name);
            p.v = v;
            p.lo = lo;
        }
        return v;
    }

    bool Ctx::keep(u64 i) const {
        if (i + 1 > g_shm->nops) g_shm->nops = static_cast<u32>(i + 1);
        for (auto d : g_plan.drop) if (d == i) return false;
        return true;
    }

    Fire fault(const char *kind, double p, u64 arg_n) {
        if (not g_run) return {};
        u64 n = occurrence(kind);
        Fire f;
        if (g_plan.replay) {
            if (g_plan.faults.empty()) return f;
            bool h = g_heap;
            g_heap = false;
            auto it = g_plan.faults.find({kind, n});
            if (it != g_plan.faults.end()) { f.on = true; f.arg = it->second; }
            g_heap = h;
        } else if (p > 0 and g_frng.chance(p)) {
            f.on = true;
            f.arg = g_frng.below(arg_n);
        }
        if (f.on) {
            if (g_shm->nfault < sizeof(g_shm->faults) / sizeof(FaultRec)) {
                auto &r = g_shm->faults[g_shm->nfault++];
                std::strncpy(r.kind, kind, sizeof r.kind - 1);
                r.n = n;
                r.arg = f.arg;
            } else g_shm->dev_overflow = 1;
            char b[44];
            std::snprintf(b, sizeof b, "fault:%s", kind);
            count(b);
            note(mix(hash_str(kind), n));
        }
        return f;
    }

    static void on_signal(int sig, siginfo_t *si, void *uc) {
        static int depth = 0;
        if (depth++) _exit(4);
        g_run = false;
        g_heap = false;
        if (not g_shm->have_v) {
            g_shm->have_v = 1;
            const char *n = sig == SIGSEGV ? "crash-SIGSEGV" : sig == SIGBUS ? "crash-SIGBUS" : sig == SIGFPE ? "crash-SIGFPE" :
                    sig == SIGABRT ? "crash-abort" : "crash-SIGILL";
            put(g_shm->vkind, sizeof g_shm->vkind, n);
            g_shm->hash = mix(g_shm->hash, hash_str(n));
            g_shm->steps = g_step;
            (void) si;
            auto *u = static_cast<ucontext_t *>(uc);
            std::string d = "in " + symbol(reinterpret_cast<void *>(u->uc_mcontext.gregs[REG_RIP])) + "; stack: " + backtrace_text(2);
            put(g_shm->vdetail, sizeof g_shm->vdetail, d);
        }
        _exit(3);
    }

    static void on_terminate() {
        std::string d = "std::terminate";
        if (auto e = std::current_exception()) {
            try { std::rethrow_exception(e); } catch (const std::exception &x) { d = std::string{"uncaught exception: "} + x.what(); }
            catch (...) { d = "uncaught exception"; }
        }
        violation("terminate", d + "; stack: " + backtrace_text(1));
    }

    static double wall() {
        struct timespec ts;
        auto f = reinterpret_cast<int (*)(clockid_t, struct timespec *)>(dlsym(RTLD_NEXT, "clock_gettime"));
        f(CLOCK_MONOTONIC, &ts);
        return static_cast<double>(ts.tv_sec) + static_cast<double>(ts.tv_nsec) * 1e-9;
    }

    static void child(const Entry &e, u64 seed) {
        struct rlimit rl{0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        g_ctx.seed = seed;
        g_frng = Rng{mix(seed, 0xfa017)};
        g_step = 0;
        g_cfg = Sched{};
        g_next = g_cfg.max_steps;
        static char alt[1 << 16];
        stack_t ss{};
        ss.ss_sp = alt;
        ss.ss_size = sizeof alt;
        sigaltstack(&ss, nullptr);
        for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL}) {
            struct sigaction sa{};
            sa.sa_sigaction = on_signal;
            sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
            sigaction(s, &sa, nullptr);
        }
        std::set_terminate(on_terminate);
        io_begin_run();
        g_run = true;
        try {
            e.fn(g_ctx);
        } catch (const std::exception &x) {
            violation("exception", std::string{"uncaught: "} + x.what());
        }
        if (g_sched) stop_sched();
        g_run = false;
        g_shm->steps = g_step;
        g_shm->simns = now_ns();
        g_shm->hash = mix(g_shm->hash, g_step);
        g_shm->finished = 1;
        _exit(0);
    }

    // the run uses a stack of its own: its addresses do not depend on the environment or the command line
    static const Entry *g_ent = nullptr;
    static u64 g_ent_seed = 0;
    static void on_stack() { child(*g_ent, g_ent_seed); }
    static void child_on_stack(const Entry &e, u64 seed) {
        g_ent = &e;
        g_ent_seed = seed;
        constexpr std::size_t N = 64u << 20;
        void *lo = mmap(nullptr, N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        set_main_stack(reinterpret_cast<u64>(lo), reinterpret_cast<u64>(lo) + N);
        static ucontext_t uc, back;
        getcontext(&uc);
        uc.uc_stack.ss_sp = lo;
        uc.uc_stack.ss_size = N;
        uc.uc_link = &back;
        makecontext(&uc, on_stack, 0);
        swapcontext(&back, &uc);
        _exit(5);
    }

    static std::string esc(const char *s) {
        std::string o;
        for (; *s; ++s) {
            if (*s == '\n') o += "\\n";
            else if (*s == '\t') o += "\\t";
            else if (*s == '\\') o += "\\\\";
            else o.push_back(*s);
        }
        return o;
    }

    static bool load_plan(const char *file, std::string &prop, u64 &seed) {
        std::ifstream in{file};
        if (not in) return false;
        std::string line;
        while (std::getline(in, line)) {
            std::istringstream s{line};
            std::string k;
            s >> k;
            if (k == "prop") s >> prop;
            else if (k == "seed") s >> seed;
            else if (k == "mode") { std::string m; s >> m; g_plan.replay = m == "plan"; }
            else if (k == "param") { std::string n; long v; s >> n >> v; g_plan.par[n] = v; }
            else if (k == "dev") { DevRec d{}; s >> d.step >> d.tid; g_plan.devs.push_back(d); }
            else if (k == "fault") { std::string n; u64 i, a; s >> n >> i >> a; g_plan.faults[{n, i}] = a; }
            else if (k == "drop") { u64 i; s >> i; g_plan.drop.push_back(i); }
        }
        return true;
    }

}

using namespace sim;

int main(int argc, char **argv) {
    if (not (personality(0xffffffff) & ADDR_NO_RANDOMIZE) and not getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
    }
    std::string prop, replay, tier = "quick", slot = "00";
    u64 seed = 1, n = 1, stride = 1;
    double budget = 1e9, limit = 60;
    u64 maxv = 1;
    bool full = false, list = false, hashes = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto v = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") prop = v();
        else if (a == "--seed") seed = std::stoull(v());
        else if (a == "--n") n = std::stoull(v());
        else if (a == "--stride") stride = std::stoull(v());
        else if (a == "--budget") budget = std::stod(v());
        else if (a == "--maxv") maxv = std::stoull(v());
        else if (a == "--limit") limit = std::stod(v());
        else if (a == "--slot") slot = v();
        else if (a == "--tier") tier = v();
        else if (a == "--replay") replay = v();
        else if (a == "--full") full = true;
        else if (a == "--hashes") hashes = true;
        else if (a == "--list") list = true;
    }
    if (list) {
        for (auto &e : registry()) std::printf("%s\t%s\t%s\n", e.prop, e.real, e.stub);
        return 0;
    }
    if (not replay.empty() and not load_plan(replay.c_str(), prop, seed)) { std::printf("E\tcannot read %s\n", replay.c_str()); return 2; }
    const Entry *ent = nullptr;
    for (auto &e : registry()) if (prop == e.prop) ent = &e;
    if (not ent) { std::printf("E\tunknown property %s\n", prop.c_str()); return 2; }
    mallopt(M_ARENA_MAX, 1);
    mallopt(M_MMAP_THRESHOLD, 1 << 30);
    mallopt(M_TRIM_THRESHOLD, 1 << 30);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    { void *f[4]; backtrace(f, 4); }  // loads the unwinder before any fork
    shadow_init();
    g_shm = static_cast<Shm *>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::string base = access("/dev/shm", W_OK) == 0 ? "/dev/shm/mm2sim." : "/tmp/mm2sim.";
    slot.resize(20, '_');  // fixed length: allocation sizes must not depend on it
    g_ctx.dir = base + slot;
    g_ctx.prop = prop;
    g_ctx.tier = tier;
    std::error_code ec;
    double t0 = wall();
    std::map<std::string, u64> tot;
    std::set<u64> states, nts;
    u64 runs = 0, nontriv = 0, stepsum = 0, simns = 0, switches = 0;
    int rc = 0;
    for (u64 i = 0; i < n and wall() - t0 < budget; ++i) {
        u64 s = seed + i * stride;
        std::filesystem::remove_all(g_ctx.dir, ec);
        std::filesystem::create_directories(g_ctx.dir, ec);
        madvise(g_shm, sizeof(Shm), MADV_REMOVE);
        std::memset(g_shm, 0, offsetof(Shm, faults));
        std::fflush(nullptr);
        pid_t p = fork();
        if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); setpgid(0, 0); child_on_stack(*ent, s); }
        double c0 = wall();
        int st = 0;
        bool hang = false;
        long us = 20;
        for (;;) {
            pid_t r = waitpid(p, &st, WNOHANG);
            if (r == p) break;
            if (wall() - c0 > limit) { hang = true; kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); break; }
            struct timespec ts{0, us * 1000};
            nanosleep(&ts, nullptr);
            if (us < 500) us += us / 4;
        }
        kill(-p, SIGKILL);
        while (waitpid(-1, nullptr, WNOHANG) > 0) {}
        if (hang) {
            g_shm->have_v = 1;
            put(g_shm->vkind, sizeof g_shm->vkind, "hang");
            put(g_shm->vdetail, sizeof g_shm->vdetail, "the run did not end within the wall clock limit");
            g_shm->hash = 1;
        } else if (not g_shm->have_v and not g_shm->finished) {
            g_shm->have_v = 1;
            put(g_shm->vkind, sizeof g_shm->vkind, "process-died");
            put(g_shm->vdetail, sizeof g_shm->vdetail, "status " + std::to_string(st));
        }
        ++runs;
        stepsum += g_shm->steps;
        simns += g_shm->simns;
        switches += g_shm->switches;
        states.insert(g_shm->st);
        if (g_shm->nontriv) { ++nontriv; nts.insert(g_shm->st); }
        for (auto &c : g_shm->cnt) if (c.used) tot[c.name] += c.n;
        if (hashes) std::printf("H\t%llu\t%016llx\t%d\n", (unsigned long long) s, (unsigned long long) g_shm->hash, g_shm->have_v);
        if (g_shm->have_v) {
            std::printf("V\t%llu\t%016llx\t%s\t%s\n", (unsigned long long) s, (unsigned long long) g_shm->hash, g_shm->vkind, esc(g_shm->vdetail).c_str());
            rc = 1;
            if (full) {
                for (u32 k = 0; k < g_shm->npar; ++k) std::printf("P\t%s\t%ld\t%ld\n", g_shm->par[k].name, g_shm->par[k].v, g_shm->par[k].lo);
                std::printf("O\t%u\t%u\n", g_shm->nops, g_shm->dev_overflow);
                for (u32 k = 0; k < g_shm->ndev; ++k) std::printf("D\t%llu\t%d\n", (unsigned long long) g_shm->devs[k].step, g_shm->devs[k].tid);
                for (u32 k = 0; k < g_shm->nfault; ++k) std::printf("F\t%s\t%llu\t%llu\n", g_shm->faults[k].kind, (unsigned long long) g_shm->faults[k].n, (unsigned long long) g_shm->faults[k].arg);
            }
            if (--maxv == 0) { std::fflush(stdout); break; }
        } else if (full) {
            std::printf("OK\t%llu\t%016llx\n", (unsigned long long) s, (unsigned long long) g_shm->hash);
        }
        if (runs <= 2) {
            std::printf("X\tseed %llu:", (unsigned long long) s);
            for (u32 k = 0; k < g_shm->npar; ++k) std::printf(" %s=%ld", g_shm->par[k].name, g_shm->par[k].v);
            std::printf("; ops %u, schedule deviations %u, faults %u:", g_shm->nops, g_shm->ndev, g_shm->nfault);
            for (u32 k = 0; k < g_shm->nfault and k < 8; ++k) std::printf(" %s@%llu", g_shm->faults[k].kind, (unsigned long long) g_shm->faults[k].n);
            std::printf("; steps %llu, hash %016llx\n", (unsigned long long) g_shm->steps, (unsigned long long) g_shm->hash);
        }
        std::fflush(stdout);
    }
    std::filesystem::remove_all(g_ctx.dir, ec);
    std::printf("R\t%llu\t%llu\t%llu\t%llu\t%llu\t%.3f\n", (unsigned long long) runs, (unsigned long long) nontriv,
            (unsigned long long) stepsum, (unsigned long long) simns, (unsigned long long) switches, wall() - t0);
    for (auto &[k, v] : tot) std::printf("C\t%s\t%llu\n", k.c_str(), (unsigned long long) v);
    std::printf("S");
    u64 k = 0;
    for (auto s : nts) { if (++k > 200000) break; std::printf(" %llx", (unsigned long long) s); }
    std::printf("\n");
    return rc;
}
