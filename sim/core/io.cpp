// File system seam. Only paths below the run's scratch directory are touched; everything else passes through.
#include "internal.hpp"

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {

    static IoPlan g_io;
    static u64 g_ops = 0, g_remaps = 0;
    static bool g_hard = false, g_full = false;
    static bool g_fd[4096];     // descriptor refers to a scratch file
    static bool g_fd_f[4096];   // ... and faults apply to it
    struct Map { u64 a, n; };
    static rvec<Map> *g_maps;
    static bool g_iso = true;

    void io_begin_run() {
        g_io = IoPlan{};
        g_ops = g_remaps = 0;
        g_hard = g_full = false;
        g_iso = true;
        if (not g_maps) g_maps = new(__libc_malloc(sizeof *g_maps)) rvec<Map>;
        g_maps->clear();
    }

    void io_plan(const IoPlan &p) { g_io = p; g_iso = p.isolate_maps; g_full = false; }
    void io_reset() { bool iso = g_iso; g_io = IoPlan{}; g_io.isolate_maps = g_iso = iso; g_hard = g_full = false; }
    u64 io_ops() { return g_ops; }
    bool io_failed() { return g_hard; }
    u64 io_remaps() { return g_remaps; }

    static bool ours(const char *path) {
        return g_run and path and not g_ctx.dir.empty() and std::strncmp(path, g_ctx.dir.c_str(), g_ctx.dir.size()) == 0;
    }
    static bool faulty(const char *path) {
        return ours(path) and (g_io.only.empty() or std::strstr(path, g_io.only.c_str()));
    }

    // one mutating file operation: the process may stop existing right before it
    static void op() {
        if (g_io.crash_at >= 0 and static_cast<long>(g_ops) == g_io.crash_at) _exit(CRASH_EXIT);
        ++g_ops;
    }

    static bool hard(const char *kind, double p, int err) {
        if (not fault(kind, p).on) return false;
        g_hard = true;
        errno = err;
        return true;
    }

    template<typename F>
    static F real(const char *name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }

    static void set_fd(int fd, const char *path) {
        if (fd >= 0 and fd < 4096) { g_fd[fd] = ours(path); g_fd_f[fd] = faulty(path); }
    }
    static bool fd_f(int fd) { return g_run and fd >= 0 and fd < 4096 and g_fd_f[fd]; }
    static bool fd_o(int fd) { return g_run and fd >= 0 and fd < 4096 and g_fd[fd]; }

    int in_child(const std::function<void()> &fn) {
        std::fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
            fn();
            _exit(0);
        }
        int st = 0;
        while (waitpid(p, &st, 0) < 0 and errno == EINTR) {}
        return st;
    }

}

using namespace sim;
#define REAL(ret, name, ...) static auto name##_real = real<ret (*)(__VA_ARGS__)>(#name)

extern "C" {

static int do_open(const char *name, const char *path, int flags, mode_t mode) {
    auto r = real<int (*)(const char *, int, mode_t)>(name);
    if (not ours(path)) { int fd = r(path, flags, mode); if (fd >= 0 and fd < 4096) g_fd[fd] = g_fd_f[fd] = false; return fd; }
    if (flags & (O_CREAT | O_TRUNC)) op();
    if (faulty(path) and hard("open-fail", g_io.p_open_fail, EMFILE)) return -1;
    int fd = r(path, flags, mode);
    set_fd(fd, path);
    return fd;
}

int open(const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
    return do_open("open", path, flags, m);
}
int open64(const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
    return do_open("open64", path, flags, m);
}
int creat(const char *path, mode_t m) { return do_open("open", path, O_CREAT | O_WRONLY | O_TRUNC, m); }

static FILE *do_fopen(const char *name, const char *path, const char *mode) {
    auto r = real<FILE *(*)(const char *, const char *)>(name);
    if (not ours(path)) { FILE *f = r(path, mode); if (f and fileno(f) < 4096) g_fd[fileno(f)] = g_fd_f[fileno(f)] = false; return f; }
    if (mode[0] != 'r') op();
    if (faulty(path) and hard("open-fail", g_io.p_open_fail, EMFILE)) return nullptr;
    FILE *f = r(path, mode);
    if (f) set_fd(fileno(f), path);
    return f;
}
FILE *fopen(const char *path, const char *mode) { return do_fopen("fopen", path, mode); }
FILE *fopen64(const char *path, const char *mode) { return do_fopen("fopen64", path, mode); }

int close(int fd) {
    REAL(int, close, int);
    if (fd >= 0 and fd < 4096) g_fd[fd] = g_fd_f[fd] = false;
    return close_real(fd);
}

// returns bytes to really write, or -1 with errno
static ssize_t write_fault(size_t n) {
    if (g_full) { errno = ENOSPC; g_hard = true; return -1; }
    if (fault("write-eintr", g_io.p_eintr).on) { errno = EINTR; return -1; }
    if (fault("write-enospc", g_io.p_enospc).on) {
        g_hard = true;
        if (g_io.persistent_enospc) g_full = true;
        errno = ENOSPC;
        return -1;
    }
    if (hard("write-eio", g_io.p_eio_write, EIO)) return -1;
    if (n > 1) {
        Fire f = fault("short-write", g_io.p_short_write, n - 1);
        if (f.on) return static_cast<ssize_t>(1 + f.arg % (n - 1));
    }
    return static_cast<ssize_t>(n);
}

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t);
    if (not fd_o(fd)) return write_real(fd, b, n);
    op();
    yield_point();
    if (fd_f(fd)) {
        ssize_t k = write_fault(n);
        if (k < 0) return -1;
        n = static_cast<size_t>(k);
    }
    return write_real(fd, b, n);
}

ssize_t writev(int fd, const struct iovec *v, int cnt) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (not fd_o(fd)) return writev_real(fd, v, cnt);
    op();
    yield_point();
    if (fd_f(fd)) {
        size_t n = 0;
        for (int i = 0; i < cnt; ++i) n += v[i].iov_len;
        ssize_t k = write_fault(n);
        if (k < 0) return -1;
        if (static_cast<size_t>(k) < n) {
            REAL(ssize_t, write, int, const void *, size_t);
            ssize_t done = 0;
            for (int i = 0; i < cnt and done < k; ++i) {
                size_t m = v[i].iov_len;
                if (static_cast<ssize_t>(m) > k - done) m = static_cast<size_t>(k - done);
                if (m == 0) continue;
                ssize_t w = write_real(fd, v[i].iov_base, m);
                if (w < 0) return done ? done : -1;
                done += w;
            }
            return done;
        }
    }
    return writev_real(fd, v, cnt);
}

ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, read, int, void *, size_t);
    if (fd_f(fd)) {
        yield_point();
        if (fault("read-eintr", g_io.p_eintr).on) { errno = EINTR; return -1; }
        if (hard("read-eio", g_io.p_eio_read, EIO)) return -1;
        if (n > 1) { Fire f = fault("short-read", g_io.p_short_read, n - 1); if (f.on) n = 1 + f.arg % (n - 1); }
    }
    return read_real(fd, b, n);
}

static int trunc_fault() {
    op();
    if (hard("truncate-enospc", g_io.p_truncate_fail, ENOSPC)) return -1;
    return 0;
}
int ftruncate(int fd, off_t n) {
    REAL(int, ftruncate, int, off_t);
    if (fd_o(fd)) { op(); if (fd_f(fd) and hard("truncate-enospc", g_io.p_truncate_fail, ENOSPC)) return -1; }
    return ftruncate_real(fd, n);
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int truncate(const char *p, off_t n) {
    REAL(int, truncate, const char *, off_t);
    if (ours(p)) { if (faulty(p)) { if (trunc_fault()) return -1; } else op(); }
    return truncate_real(p, n);
}
int truncate64(const char *p, off64_t n) { return truncate(p, n); }
int posix_fallocate(int fd, off_t o, off_t n) {
    REAL(int, posix_fallocate, int, off_t, off_t);
    if (fd_o(fd)) {
        op();
        if (fd_f(fd) and hard("fallocate-enospc", g_io.p_truncate_fail, ENOSPC)) return ENOSPC;
    }
    return posix_fallocate_real(fd, o, n);
}
int posix_fallocate64(int fd, off64_t o, off64_t n) { return posix_fallocate(fd, o, n); }

int unlink(const char *p) {
    REAL(int, unlink, const char *);
    if (ours(p)) op();
    return unlink_real(p);
}
int remove(const char *p) {
    REAL(int, remove, const char *);
    if (ours(p)) op();
    return remove_real(p);
}
int rename(const char *a, const char *b) {
    REAL(int, rename, const char *, const char *);
    if (ours(a)) op();
    return rename_real(a, b);
}
int mkdir(const char *p, mode_t m) {
    REAL(int, mkdir, const char *, mode_t);
    if (ours(p)) op();
    return mkdir_real(p, m);
}

static void *do_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) {
    REAL(void *, mmap, void *, size_t, int, int, int, off_t);
    if (fd < 0 or not fd_o(fd)) return mmap_real(a, n, pr, fl, fd, o);
    if (pr & PROT_WRITE) op();
    if (fd_f(fd) and hard("mmap-fail", g_io.p_mmap_fail, ENOMEM)) return MAP_FAILED;
    void *r = mmap_real(a, n, pr, fl, fd, o);
    if (r != MAP_FAILED) { g_maps->push_back({reinterpret_cast<u64>(r), (n + 4095) & ~4095ull}); ++g_remaps; }
    return r;
}
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { return do_mmap(a, n, pr, fl, fd, o); }
void *mmap64(void *a, size_t n, int pr, int fl, int fd, off64_t o) { return do_mmap(a, n, pr, fl, fd, o); }

int munmap(void *a, size_t n) {
    REAL(int, munmap, void *, size_t);
    REAL(void *, mmap, void *, size_t, int, int, int, off_t);
    u64 p = reinterpret_cast<u64>(a);
    if (g_run and g_maps) {
        for (auto &m : *g_maps) {
            if (p >= m.a and p < m.a + m.n) {
                int r = munmap_real(a, n);
                // the old range stays reserved and inaccessible: a stale pointer can only fault
                if (r == 0 and g_iso) mmap_real(a, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
                m = g_maps->back();
                g_maps->pop_back();
                return r;
            }
        }
    }
    return munmap_real(a, n);
}

int msync(void *a, size_t n, int f) {
    REAL(int, msync, void *, size_t, int);
    return msync_real(a, n, f);
}

// free disk space is part of the environment: constant, so that runs repeat
int statvfs(const char *p, struct statvfs *b) {
    REAL(int, statvfs, const char *, struct statvfs *);
    int r = statvfs_real(p, b);
    if (r == 0 and ours(p)) { b->f_frsize = b->f_bsize = 4096; b->f_blocks = 1ull << 28; b->f_bfree = b->f_bavail = 1ull << 26; }
    return r;
}
int statvfs64(const char *p, struct statvfs64 *b) {
    REAL(int, statvfs64, const char *, struct statvfs64 *);
    int r = statvfs64_real(p, b);
    if (r == 0 and ours(p)) { b->f_frsize = b->f_bsize = 4096; b->f_blocks = 1ull << 28; b->f_bfree = b->f_bavail = 1ull << 26; }
    return r;
}

}
