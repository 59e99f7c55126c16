#include "worker.hh"
#include "shim.hh"

#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <iostream>
#include <map>
#include <poll.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace worker {
static std::map<std::string, Handler>&
handlers()
{
    static std::map<std::string, Handler> h;
    return h;
}
void
register_handler(const std::string& name, Handler h)
{
    handlers()[name] = std::move(h);
}

static int g_emit_fd = -1;

static void
write_all(int fd, const char* p, size_t n)
{
    while (n) {
        const ssize_t k = ::write(fd, p, n);
        if (k < 0) {
            if (errno == EINTR)
                continue;
            _exit(97);
        }
        p += k;
        n -= (size_t)k;
    }
}

void
emit(const json& j)
{
    std::string s = j.dump(-1, ' ', false, json::error_handler_t::replace);
    s += '\n';
    write_all(g_emit_fd, s.data(), s.size());
}

std::string
unhex(const std::string& s)
{
    std::string r;
    r.reserve(s.size() / 2);
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        r.push_back((char)(v(s[i]) * 16 + v(s[i + 1])));
    return r;
}
std::string
hex(const void* p, size_t n)
{
    static const char* d = "0123456789abcdef";
    std::string r;
    r.reserve(2 * n);
    for (size_t i = 0; i < n; ++i) {
        const unsigned char c = ((const unsigned char*)p)[i];
        r.push_back(d[c >> 4]);
        r.push_back(d[c & 15]);
    }
    return r;
}

void
setup_shim(const json& c)
{
    std::vector<shim::Rule> rules;
    if (c.contains("faults"))
        for (const auto& f : c["faults"]) {
            shim::Rule r;
            r.ops = f.value("ops", 7u);
            r.nth = f.value("nth", (int64_t)0);
            r.count = f.value("count", (int64_t)1);
            r.err = f.value("err", EIO);
            r.mode = f.value("mode", 0);
            r.path = f.value("path", std::string());
            rules.push_back(r);
        }
    if (c.contains("jitter")) {
        const auto& j = c["jitter"];
        shim::set_jitter(j.value("seed", (uint64_t)1), j.value("permille", 0u), j.value("max_us", 50u));
    }
    if (c.contains("nprocs"))
        shim::set_nprocs(c["nprocs"].get<int>());
    if (c.contains("thread_faults"))
        shim::set_thread_faults(c["thread_faults"][0].get<int64_t>(), c["thread_faults"][1].get<int64_t>());
    shim::log_ops(c.value("log_ops", false));
    if (c.contains("prefix"))
        shim::configure(c["prefix"].get<std::string>(), std::move(rules));
}

static std::string
slurp(int fd, size_t limit)
{
    std::string r;
    const off_t n = lseek(fd, 0, SEEK_END);
    if (n <= 0)
        return r;
    size_t want = (size_t)n, start = 0;
    if (want > limit) { // keep head and tail
        r.resize(limit);
        const size_t h = limit / 2;
        if (pread(fd, r.data(), h, 0) < 0 || pread(fd, r.data() + h, limit - h, (off_t)(want - (limit - h))) < 0)
            return {};
        return r;
    }
    r.resize(want);
    if (pread(fd, r.data(), want, (off_t)start) < 0)
        return {};
    return r;
}
} // namespace worker

using namespace worker;

static json
run_case(const json& c)
{
    int p[2];
    if (pipe2(p, O_CLOEXEC) != 0)
        return { { "harness_error", "pipe" } };
    const int out = memfd_create("out", MFD_CLOEXEC), err = memfd_create("err", MFD_CLOEXEC);
    const pid_t pid = fork();
    if (pid < 0)
        return { { "harness_error", "fork" } };
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        close(p[0]);
        close(3);
        close(4);
        dup2(out, 1);
        dup2(err, 2);
        close(out);
        close(err);
        // keep the result pipe out of the low descriptor range
        g_emit_fd = fcntl(p[1], F_DUPFD_CLOEXEC, 200);
        close(p[1]);
        const auto it = handlers().find(c.value("cmd", std::string()));
        if (it == handlers().end())
            _exit(98);
        try {
            it->second(c);
        } catch (const std::exception& e) {
            shim::disable();
            emit({ { "handler_exception", e.what() } });
            _exit(96);
        }
        shim::disable();
        std::cout.flush();
        std::cerr.flush();
        emit({ { "done", true } });
        _exit(0);
    }
    close(p[1]);
    json results = json::array();
    std::string buf;
    bool hang = false, eof = false;
    const double limit = c.value("timeout", 60.0);
    const auto t0 = std::chrono::steady_clock::now();
    auto cpu_ticks = [&]() -> long {
        char path[64];
        snprintf(path, sizeof path, "/proc/%d/stat", pid);
        FILE* f = fopen(path, "r");
        if (!f)
            return -1;
        char line[1024];
        size_t n = fread(line, 1, sizeof line - 1, f);
        fclose(f);
        line[n] = 0;
        char* q = strrchr(line, ')');
        unsigned long ut = 0, st = 0;
        if (!q || sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &st) != 2)
            return -1;
        return (long)(ut + st);
    };
    long last_ticks = -1;
    double idle_since = 0;
    const double idle_limit = c.value("idle_limit", 8.0);
    std::string why;
    while (!eof) {
        struct pollfd pf = { p[0], POLLIN, 0 };
        const int k = poll(&pf, 1, 250);
        const double now = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (k > 0) {
            char tmp[65536];
            const ssize_t n = read(p[0], tmp, sizeof tmp);
            if (n <= 0)
                eof = true;
            else
                buf.append(tmp, (size_t)n);
            idle_since = now;
            continue;
        }
        // a process that burns no CPU time for idle_limit seconds is deadlocked
        const long t = cpu_ticks();
        if (t != last_ticks) {
            last_ticks = t;
            idle_since = now;
        }
        if (now - idle_since > idle_limit) {
            hang = true;
            why = "no progress and no CPU use: deadlock";
            break;
        }
        if (now > limit) {
            hang = true;
            why = "time limit";
            break;
        }
    }
    if (hang)
        kill(pid, SIGKILL);
    int status = 0;
    struct rusage ru;
    memset(&ru, 0, sizeof ru);
    wait4(pid, &status, 0, &ru);
    close(p[0]);
    size_t start = 0;
    for (size_t nl; (nl = buf.find('\n', start)) != std::string::npos; start = nl + 1) {
        json j = json::parse(buf.substr(start, nl - start), nullptr, false);
        if (!j.is_discarded())
            results.push_back(std::move(j));
    }
    json r;
    r["results"] = std::move(results);
    r["hang"] = hang;
    if (hang)
        r["why"] = why;
    r["exit"] = WIFEXITED(status) ? WEXITSTATUS(status) : -1;
    r["signal"] = WIFSIGNALED(status) ? WTERMSIG(status) : 0;
    r["out"] = slurp(out, c.value("log_limit", (size_t)(1 << 20)));
    r["err"] = slurp(err, c.value("log_limit", (size_t)(1 << 20)));
    close(out);
    close(err);
    return r;
}

int
main(int argc, char** argv)
{
    signal(SIGPIPE, SIG_IGN);
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    prctl(PR_SET_DUMPABLE, 1);
    FILE* in = fdopen(3, "r");
    if (!in)
        return 2;
    char* line = nullptr;
    size_t cap = 0;
    while (true) {
        const ssize_t n = getline(&line, &cap, in);
        if (n <= 0)
            break;
        json c = json::parse(std::string(line, (size_t)n), nullptr, false);
        json r;
        if (c.is_discarded())
            r = { { "harness_error", "bad command" } };
        else
            r = run_case(c);
        std::string s = r.dump(-1, ' ', false, json::error_handler_t::replace);
        s += '\n';
        worker::write_all(4, s.data(), s.size());
    }
    return 0;
}
