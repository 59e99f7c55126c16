#include "shim.hh"

#include <atomic>
#include <new>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <mutex>
#include <sched.h>
#include <linux/futex.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#ifdef __SANITIZE_THREAD__
#define NOSAN __attribute__((no_sanitize("thread")))
#else
#define NOSAN
#endif

namespace {
std::atomic<bool> g_on{ false };
char g_prefix[512];
size_t g_prefix_len = 0;
std::vector<shim::Rule>* g_rules = nullptr;
std::mutex* g_mutex = nullptr;
std::atomic<int64_t> g_counts[8];
std::atomic<int64_t> g_hits{ 0 };
std::atomic<uint8_t> g_tracked[65536];
std::atomic<uint64_t> g_jseed{ 0 };
std::atomic<unsigned> g_jpermille{ 0 }, g_jmax{ 0 };
std::atomic<int> g_nprocs{ 0 };
std::atomic<uint64_t> g_thread_counter{ 0 };
std::atomic<int64_t> g_thread_fail_nth{ 0 }, g_thread_fail_count{ 0 }, g_thread_seen{ 0 };
std::atomic<bool> g_log{ false };
std::vector<std::string>* g_oplog = nullptr;
thread_local uint64_t t_rng = 0;
thread_local int t_inside = 0;

struct Inside
{
    Inside() { ++t_inside; }
    ~Inside() { --t_inside; }
};

template<typename F>
F
real(const char* name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define REAL(fn) static auto real_##fn = real<decltype(&::fn)>(#fn)

bool
path_tracked(const char* path)
{
    if (!g_on.load(std::memory_order_acquire) || !path || !g_prefix_len)
        return false;
    if (path[0] != '/') {
        char buf[1024];
        if (!getcwd(buf, sizeof buf))
            return false;
        return strncmp(buf, g_prefix, g_prefix_len) == 0;
    }
    return strncmp(path, g_prefix, g_prefix_len) == 0;
}

int
bit_index(uint32_t op)
{
    return __builtin_ctz(op);
}

// What to do with this call. Returns the mode of the rule that fires, or -1.
int
decide(uint32_t op, const char* path, int& err)
{
    shim::jitter();
    if (!g_on.load(std::memory_order_acquire) || !g_mutex)
        return -1;
    Inside in;
    std::lock_guard lock(*g_mutex);
    g_counts[bit_index(op)].fetch_add(1);
    if (g_log && g_oplog)
        g_oplog->push_back(std::to_string(op) + " " + (path ? path : ""));
    int mode = -1;
    for (auto& r : *g_rules) {
        if (!(r.ops & op))
            continue;
        if (!r.path.empty() && (!path || !strstr(path, r.path.c_str())))
            continue;
        const int64_t i = r.seen++;
        if (i >= r.nth && (r.count < 0 || i < r.nth + r.count)) {
            ++r.hits;
            if (mode < 0) {
                mode = r.mode;
                err = r.err;
                g_hits.fetch_add(1);
            }
        }
    }
    if (mode == shim::KILL_BEFORE) {
        kill(getpid(), SIGKILL);
        for (;;)
            pause();
    }
    return mode;
}

void
die()
{
    kill(getpid(), SIGKILL);
    for (;;)
        pause();
}

void
fd_path(int fd, char* out, size_t n)
{
    char link[64];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    const ssize_t k = readlink(link, out, n - 1);
    out[k > 0 ? k : 0] = 0;
}

bool
fd_tracked(int fd)
{
    return fd >= 0 && fd < 65536 && g_tracked[fd].load(std::memory_order_acquire) && g_on.load(std::memory_order_acquire);
}
void
track(int fd)
{
    if (fd >= 0 && fd < 65536)
        g_tracked[fd].store(1, std::memory_order_release);
}
void
untrack(int fd)
{
    if (fd >= 0 && fd < 65536)
        g_tracked[fd].store(0, std::memory_order_release);
}
} // namespace

namespace shim {
void
configure(const std::string& prefix, std::vector<Rule> rules)
{
    g_on = false;
    if (!g_mutex)
        g_mutex = new std::mutex;
    if (!g_rules)
        g_rules = new std::vector<Rule>;
    if (!g_oplog)
        g_oplog = new std::vector<std::string>;
    g_oplog->clear();
    *g_rules = std::move(rules);
    snprintf(g_prefix, sizeof g_prefix, "%s", prefix.c_str());
    g_prefix_len = strlen(g_prefix);
    for (auto& c : g_counts)
        c = 0;
    g_hits = 0;
    for (auto& t : g_tracked)
        t.store(0, std::memory_order_relaxed);
    g_on = true;
}
void
set_rules(std::vector<Rule> rules)
{
    std::lock_guard lock(*g_mutex);
    *g_rules = std::move(rules);
}
void
disable()
{
    g_on = false;
}
void
set_jitter(uint64_t seed, unsigned permille, unsigned max_us)
{
    g_jseed = seed;
    g_jpermille = permille;
    g_jmax = max_us;
    t_rng = 0;
    g_thread_counter = 0;
}
void
set_thread_faults(int64_t nth, int64_t count)
{
    g_thread_seen = 0;
    g_thread_fail_nth = nth;
    g_thread_fail_count = count;
}
void
set_nprocs(int n)
{
    g_nprocs = n;
}
int64_t
count(uint32_t op)
{
    return g_counts[bit_index(op)].load();
}
int64_t
total()
{
    return count(OPEN) + count(MKDIR) + count(WRITE);
}
int64_t
hits()
{
    return g_hits.load();
}
void
log_ops(bool on)
{
    g_log = on;
}
std::vector<std::string>
take_op_log()
{
    if (!g_mutex)
        return {};
    std::lock_guard lock(*g_mutex);
    std::vector<std::string> r;
    r.swap(*g_oplog);
    return r;
}

void
jitter()
{
    const unsigned p = g_jpermille.load(std::memory_order_relaxed);
    if (!p || t_inside)
        return;
    if (!t_rng)
        t_rng = (g_jseed.load() * 0x9E3779B97F4A7C15ull) ^ ((g_thread_counter.fetch_add(1) + 1) * 0xD1B54A32D192ED03ull) | 1;
    t_rng ^= t_rng << 13;
    t_rng ^= t_rng >> 7;
    t_rng ^= t_rng << 17;
    if (t_rng % 1000 < p) {
        const unsigned m = g_jmax.load(std::memory_order_relaxed);
        const unsigned us = (t_rng >> 20) % (m + 1);
        if (us < 5)
            sched_yield();
        else
            usleep(us);
    }
}
} // namespace shim

extern "C" {

int
get_nprocs(void)
{
    const int n = g_nprocs.load();
    if (n > 0)
        return n;
    REAL(sysconf);
    return (int)sysconf(_SC_NPROCESSORS_ONLN);
}

#define OPEN_BODY(fn, ...)                                                     \
    const bool tr = path_tracked(path);                                        \
    if (tr && !t_inside) {                                                     \
        int err = 0;                                                           \
        const bool creating = (flags & (O_WRONLY | O_RDWR | O_CREAT)) != 0;    \
        const int mode_ = creating ? decide(shim::OPEN, path, err) : -1;       \
        if (mode_ == shim::FAIL) {                                             \
            errno = err;                                                       \
            return -1;                                                         \
        }                                                                      \
        const int fd = real_##fn(__VA_ARGS__);                                 \
        const int saved = errno;                                               \
        if (fd >= 0 && creating)                                               \
            track(fd);                                                         \
        else                                                                   \
            untrack(fd);                                                       \
        if (mode_ == shim::KILL_AFTER)                                         \
            die();                                                             \
        errno = saved;                                                         \
        return fd;                                                             \
    }                                                                          \
    const int fd = real_##fn(__VA_ARGS__);                                     \
    untrack(fd);                                                               \
    return fd;

#define GET_MODE                                                               \
    mode_t m = 0;                                                              \
    if (flags & (O_CREAT | O_TMPFILE)) {                                       \
        va_list ap;                                                            \
        va_start(ap, flags);                                                   \
        m = (mode_t)va_arg(ap, int);                                           \
        va_end(ap);                                                            \
    }

int
open(const char* path, int flags, ...)
{
    GET_MODE
    REAL(open);
    OPEN_BODY(open, path, flags, m)
}
int
open64(const char* path, int flags, ...)
{
    GET_MODE
    REAL(open64);
    OPEN_BODY(open64, path, flags, m)
}
int
openat(int dir, const char* path, int flags, ...)
{
    GET_MODE
    REAL(openat);
    OPEN_BODY(openat, dir, path, flags, m)
}
int
openat64(int dir, const char* path, int flags, ...)
{
    GET_MODE
    REAL(openat64);
    OPEN_BODY(openat64, dir, path, flags, m)
}
int
creat(const char* path, mode_t m)
{
    REAL(creat);
    const int flags = O_CREAT | O_WRONLY | O_TRUNC;
    OPEN_BODY(creat, path, m)
}

#define FOPEN_BODY(fn)                                                         \
    const bool tr = path_tracked(path);                                        \
    const bool creating = mode && (strpbrk(mode, "wa+") != nullptr);           \
    int mode_ = -1;                                                            \
    if (tr && creating && !t_inside) {                                         \
        int err = 0;                                                           \
        mode_ = decide(shim::OPEN, path, err);                                 \
        if (mode_ == shim::FAIL) {                                             \
            errno = err;                                                       \
            return nullptr;                                                    \
        }                                                                      \
    }                                                                          \
    FILE* f = real_##fn(path, mode);                                           \
    if (f) {                                                                   \
        if (tr && creating)                                                    \
            track(fileno(f));                                                  \
        else                                                                   \
            untrack(fileno(f));                                                \
    }                                                                          \
    if (mode_ == shim::KILL_AFTER)                                             \
        die();                                                                 \
    return f;

FILE*
fopen(const char* path, const char* mode)
{
    REAL(fopen);
    FOPEN_BODY(fopen)
}
FILE*
fopen64(const char* path, const char* mode)
{
    REAL(fopen64);
    FOPEN_BODY(fopen64)
}

// writes ------------------------------------------------------------------------------------------------------------
#define WRITE_BODY(call_full, call_half)                                       \
    if (fd_tracked(fd) && !t_inside) {                                         \
        char p[1024];                                                          \
        fd_path(fd, p, sizeof p);                                              \
        int err = 0;                                                           \
        const int mode_ = decide(shim::WRITE, p, err);                         \
        if (mode_ == shim::FAIL) {                                             \
            errno = err;                                                       \
            return -1;                                                         \
        }                                                                      \
        if (mode_ == shim::SHORT || mode_ == shim::KILL_MID) {                 \
            const ssize_t r = call_half;                                       \
            if (mode_ == shim::KILL_MID)                                       \
                die();                                                         \
            return r;                                                          \
        }                                                                      \
        const ssize_t r = call_full;                                           \
        if (mode_ == shim::KILL_AFTER)                                         \
            die();                                                             \
        return r;                                                              \
    }                                                                          \
    return call_full;

// the first half of an iovec, as a flat copy written with one call
static ssize_t
half_iov(int fd, const struct iovec* iov, int n, off64_t off, bool positioned)
{
    Inside in;
    size_t total = 0;
    for (int i = 0; i < n; ++i)
        total += iov[i].iov_len;
    size_t want = total / 2;
    std::string flat;
    for (int i = 0; i < n && flat.size() < want; ++i)
        flat.append((const char*)iov[i].iov_base, std::min(iov[i].iov_len, want - flat.size()));
    REAL(write);
    REAL(pwrite64);
    return positioned ? real_pwrite64(fd, flat.data(), flat.size(), off) : real_write(fd, flat.data(), flat.size());
}

ssize_t
write(int fd, const void* buf, size_t n)
{
    REAL(write);
    WRITE_BODY(real_write(fd, buf, n), real_write(fd, buf, n > 1 ? n / 2 : n))
}
ssize_t
writev(int fd, const struct iovec* iov, int n)
{
    REAL(writev);
    WRITE_BODY(real_writev(fd, iov, n), half_iov(fd, iov, n, 0, false))
}
ssize_t
pwrite(int fd, const void* buf, size_t n, off_t off)
{
    REAL(pwrite);
    WRITE_BODY(real_pwrite(fd, buf, n, off), real_pwrite(fd, buf, n > 1 ? n / 2 : n, off))
}
ssize_t
pwrite64(int fd, const void* buf, size_t n, off64_t off)
{
    REAL(pwrite64);
    WRITE_BODY(real_pwrite64(fd, buf, n, off), real_pwrite64(fd, buf, n > 1 ? n / 2 : n, off))
}
ssize_t
pwritev(int fd, const struct iovec* iov, int n, off_t off)
{
    REAL(pwritev);
    WRITE_BODY(real_pwritev(fd, iov, n, off), half_iov(fd, iov, n, off, true))
}
ssize_t
pwritev64(int fd, const struct iovec* iov, int n, off64_t off)
{
    REAL(pwritev64);
    WRITE_BODY(real_pwritev64(fd, iov, n, off), half_iov(fd, iov, n, off, true))
}

int
mkdir(const char* path, mode_t m)
{
    REAL(mkdir);
    if (path_tracked(path) && !t_inside) {
        int err = 0;
        const int mode_ = decide(shim::MKDIR, path, err);
        if (mode_ == shim::FAIL) {
            errno = err;
            return -1;
        }
        const int r = real_mkdir(path, m);
        const int saved = errno;
        if (mode_ == shim::KILL_AFTER)
            die();
        errno = saved;
        return r;
    }
    return real_mkdir(path, m);
}
#define UNLINK_BODY(path, call)                                                \
    if (path_tracked(path) && !t_inside) {                                     \
        int err = 0;                                                           \
        const int mode_ = decide(shim::UNLINK, path, err);                     \
        if (mode_ == shim::FAIL) {                                             \
            errno = err;                                                       \
            return -1;                                                         \
        }                                                                      \
        const int r = call;                                                    \
        const int saved = errno;                                               \
        if (mode_ == shim::KILL_AFTER)                                         \
            die();                                                             \
        errno = saved;                                                         \
        return r;                                                              \
    }                                                                          \
    return call;

// path below an open directory
static const char*
at_path(int dir, const char* path, char* buf, size_t n)
{
    if (!path || path[0] == '/' || dir == AT_FDCWD)
        return path;
    char d[800];
    fd_path(dir, d, sizeof d);
    snprintf(buf, n, "%s/%s", d, path);
    return buf;
}

int
unlink(const char* path)
{
    REAL(unlink);
    UNLINK_BODY(path, real_unlink(path))
}
int
rmdir(const char* path)
{
    REAL(rmdir);
    UNLINK_BODY(path, real_rmdir(path))
}
int
remove(const char* path)
{
    REAL(remove);
    UNLINK_BODY(path, real_remove(path))
}
int
unlinkat(int dir, const char* path, int flags)
{
    REAL(unlinkat);
    char buf[1024];
    const char* full = g_on.load(std::memory_order_acquire) ? at_path(dir, path, buf, sizeof buf) : path;
    UNLINK_BODY(full, real_unlinkat(dir, path, flags))
}
int
fsync(int fd)
{
    REAL(fsync);
    if (fd_tracked(fd) && !t_inside) {
        int err = 0;
        const int mode_ = decide(shim::FSYNC, nullptr, err);
        if (mode_ == shim::FAIL) {
            errno = err;
            return -1;
        }
    }
    return real_fsync(fd);
}

#ifndef __SANITIZE_THREAD__
#include <pthread.h>
// thread creation that fails with EAGAIN
int
pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
    static auto f = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    const int64_t n = g_thread_fail_count.load();
    if (n) {
        const int64_t i = g_thread_seen.fetch_add(1), nth = g_thread_fail_nth.load();
        if (i >= nth && (n < 0 || i < nth + n)) {
            g_hits.fetch_add(1);
            return EAGAIN;
        }
    }
    return f(t, a, fn, arg);
}
#endif

// std::latch and std::atomic::wait: a delay in the thread that has just woken another one, which goes on meanwhile
long
__attribute__((no_sanitize("address"))) syscall(long n, ...) noexcept
{
    static std::atomic<long (*)(long, ...)> found{ nullptr }; // a guarded initialisation would come back here
    auto* f = found.load(std::memory_order_relaxed);
    if (!f)
        found = f = real<long (*)(long, ...)>("syscall");
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (auto& x : a)
        x = va_arg(ap, long);
    va_end(ap);
    const long r = f(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (n == SYS_futex && (a[1] & 127) == FUTEX_WAKE) {
        const int e = errno;
        shim::jitter();
        errno = e;
    }
    return r;
}

#ifdef SHIM_PTHREAD_JITTER
#include <pthread.h>
// a delay between the check of the predicate and the wait, with the mutex held: exposes notifications that are lost
int
pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    static auto f = reinterpret_cast<int (*)(pthread_cond_t*, pthread_mutex_t*)>(dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2"));
    shim::jitter();
    return f(c, m);
}
int
pthread_mutex_lock(pthread_mutex_t* m)
{
    static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    shim::jitter();
    return f(m);
}
int
pthread_mutex_unlock(pthread_mutex_t* m)
{
    static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    const int r = f(m);
    shim::jitter();
    return r;
}
#endif
} // extern "C"

// ---- allocation failures

namespace {
std::atomic<size_t> a_min{ 0 };
std::atomic<int64_t> a_nth{ 0 }, a_count{ 0 }, a_seen{ 0 }, a_hits{ 0 };
std::atomic<bool> a_active{ false };
} // namespace

namespace shim {
void
set_alloc_faults(size_t min_size, int64_t nth, int64_t count)
{
    a_min = min_size;
    a_nth = nth;
    a_count = count;
    a_seen = 0;
}
void
alloc_active(bool on)
{
    a_active = on;
}
int64_t
alloc_seen()
{
    return a_seen;
}
int64_t
alloc_hits()
{
    return a_hits;
}
} // namespace shim

#if !defined(__SANITIZE_ADDRESS__)
void*
operator new(size_t n)
{
    if (a_active && a_min && n >= a_min) {
        const int64_t k = a_seen++;
        if (k >= a_nth && (a_count < 0 || k < a_nth + a_count)) {
            ++a_hits;
            throw std::bad_alloc();
        }
    }
    if (void* p = malloc(n ? n : 1))
        return p;
    throw std::bad_alloc();
}
void
operator delete(void* p) noexcept
{
    free(p);
}
void
operator delete(void* p, size_t) noexcept
{
    free(p);
}
#endif
