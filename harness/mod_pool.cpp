// Thread pool histories: producers, gated and failing jobs, jobs that push jobs, stop and destruction.
#include "shim.hh"
#include "worker.hh"

#include "thread.pool.hh"

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <dirent.h>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sys/syscall.h>
#include <thread>
#include <unistd.h>

namespace {
using worker::json;

struct Record
{
    int id = 0, pusher = 0;
    bool tried = false, accepted = false;
    int64_t push_begin = 0, push_end = 0;
    int runs = 0;
    int64_t start = 0, finish = 0;
    long tid = 0;
};

struct World
{
    std::mutex m;
    std::condition_variable gate_cv;
    bool gate_open = false;
    std::atomic<int64_t> clock{ 1 };
    std::map<int, Record> rec;
    std::vector<std::string> errors;
    int64_t last_error = 0;
    int running = 0, max_running = 0;
    zarr::ThreadPool* pool = nullptr;
    std::shared_ptr<int> token = std::make_shared<int>(0);
};

void
burn(int us)
{
    const auto end = std::chrono::steady_clock::now() + std::chrono::microseconds(us);
    while (std::chrono::steady_clock::now() < end)
        ;
}

void push(World& w, const json& j, int pusher);

bool
body(World& w, const json& j, std::string& err)
{
    const int id = j["id"].get<int>();
    {
        std::unique_lock lock(w.m);
        auto& r = w.rec[id];
        ++r.runs;
        r.start = w.clock++;
        r.tid = syscall(SYS_gettid);
        w.max_running = std::max(w.max_running, ++w.running);
        if (j.value("gate", false))
            w.gate_cv.wait(lock, [&] { return w.gate_open; });
    }
    if (const int us = j.value("us", 0); us < 0)
        usleep(-us);
    else
        burn(us);
    if (j.contains("kids"))
        for (const auto& k : j["kids"])
            push(w, k, 1000 + id);
    const bool ok = !j.value("fail", false);
    if (!ok || j.value("chatty", false)) // a message set by a job that succeeds is not an error
        err = "job " + std::to_string(id);
    if (j.value("mute", false))
        err.clear();
    std::lock_guard lock(w.m);
    --w.running;
    w.rec[id].finish = w.clock++;
    return ok;
}

void
push(World& w, const json& j, int pusher)
{
    const int id = j["id"].get<int>();
    int64_t begin;
    {
        std::lock_guard lock(w.m);
        auto& r = w.rec[id];
        r.id = id;
        r.pusher = pusher;
        r.tried = true;
        begin = w.clock++;
        r.push_begin = begin;
    }
    const bool ok = w.pool->push_job([&w, j, token = w.token](std::string& err) { return body(w, j, err); });
    std::lock_guard lock(w.m);
    auto& r = w.rec[id];
    r.accepted = ok;
    r.push_end = w.clock++;
}

int
n_threads()
{
    int n = 0;
    if (DIR* d = opendir("/proc/self/task")) {
        while (auto* e = readdir(d))
            n += e->d_name[0] != '.';
        closedir(d);
    }
    return n;
}

// threads more than `before`; one that was joined may still be listed for a moment
int
left_over(int before)
{
    for (int i = 0; i < 1000 && n_threads() > before; ++i)
        usleep(1000);
    return n_threads() - before;
}

void
pool(const json& c)
{
    World w;
    std::thread([] {}).join(); // a sanitizer may start a thread of its own together with the first one
    for (int i = 0; i < 5 && n_threads() > 1; ++i)
        usleep(1000);
    worker::setup_shim(c);
    const int before = n_threads();
    std::unique_ptr<zarr::ThreadPool> p;
    try {
        p = std::make_unique<zarr::ThreadPool>((unsigned)c["threads"].get<int64_t>(), [&w](const std::string& m) {
            std::lock_guard lock(w.m);
            w.errors.push_back(m);
            w.last_error = w.clock++;
        });
    } catch (const std::exception& e) {
        worker::emit({ { "threw", e.what() }, { "hits", shim::hits() }, { "left", left_over(before) } });
        return;
    }
    const auto injected = shim::hits();
    shim::set_thread_faults(0, 0);
    w.pool = p.get();
    const int pool_threads = n_threads() - before;

    auto open_gate = [&] {
        std::lock_guard lock(w.m);
        w.gate_open = true;
        w.gate_cv.notify_all();
    };

    std::vector<std::thread> producers;
    const auto& ps = c["producers"];
    std::atomic<int> pushed{ 0 };
    auto run_producer = [&](int i) {
        for (const auto& j : ps[i]) {
            if (j.contains("pause"))
                usleep(j["pause"].get<int>());
            push(w, j, i);
            ++pushed;
        }
    };
    const bool inline_producer = c.value("inline", false);
    if (inline_producer)
        for (size_t i = 0; i < ps.size(); ++i)
            run_producer((int)i);
    else
        for (size_t i = 0; i < ps.size(); ++i)
            producers.emplace_back(run_producer, (int)i);

    const std::string end = c.value("end", std::string("stop"));
    const int trigger = c.value("stop_after", 0); // producers go on while the stop is requested
    if (end == "destroy" || end == "wait") { // pushing to a pool being destroyed is not allowed
        for (auto& t : producers)
            t.join();
        producers.clear();
    } else
        while (pushed < trigger)
            sched_yield();

    std::thread opener;
    if (c.value("gate_late", false))
        opener = std::thread([&] {
            usleep(c.value("gate_us", 2000));
            open_gate();
        });
    else
        open_gate();

    int64_t stop_begin = 0, stop_end = 0;
    if (end == "wait") { // let all jobs finish by themselves before the stop
        for (;;) {
            std::unique_lock lock(w.m);
            bool done = true;
            for (auto& [id, r] : w.rec)
                done &= !r.tried || !r.push_end || !r.accepted || r.finish;
            lock.unlock();
            if (done)
                break;
            usleep(100);
        }
    }
    if (end == "destroy") {
        stop_begin = w.clock++;
        p.reset();
        stop_end = w.clock++;
    } else {
        stop_begin = w.clock++;
        p->await_stop();
        stop_end = w.clock++;
        if (c.contains("post"))
            for (const auto& j : c["post"])
                push(w, j, 5000);
        for (auto& t : producers)
            t.join();
        for (int i = 0; i < c.value("stops", 0); ++i)
            p->await_stop();
        p.reset();
    }
    if (opener.joinable())
        opener.join();
    json recs = json::array();
    {
        std::lock_guard lock(w.m);
        for (auto& [id, r] : w.rec)
            recs.push_back({ id, r.pusher, r.tried, r.accepted, r.push_begin, r.push_end, r.runs, r.start, r.finish, r.tid });
    }
    worker::emit({ { "recs", recs }, { "errors", w.errors }, { "last_error", w.last_error }, { "max_running", w.max_running },
                   { "stop", { stop_begin, stop_end } }, { "pool_threads", pool_threads }, { "left", left_over(before) },
                   { "tokens", w.token.use_count() - 1 }, { "hits", injected } });
}
worker::Register r_pool("pool", pool);
} // namespace
