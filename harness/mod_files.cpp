// Scripts of writes through VectorizedFileWriter and FileSink, compared with a sparse byte model of the file.
#include "shim.hh"
#include "worker.hh"

#include "file.sink.hh"
#include "logger.hh"
#include "vectorized.file.writer.hh"

#include <atomic>
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>

namespace {
using worker::json;
constexpr uint64_t PAGE = 4096;

struct Model
{
    std::map<uint64_t, std::vector<uint8_t>> pages;
    uint64_t size = 0;
    uint8_t get(uint64_t i) const
    {
        auto it = pages.find(i / PAGE);
        return it == pages.end() ? 0 : it->second[i % PAGE];
    }
    void put(uint64_t off, const uint8_t* p, uint64_t n)
    {
        for (uint64_t i = 0; i < n;) {
            auto& pg = pages[(off + i) / PAGE];
            if (pg.empty())
                pg.resize(PAGE);
            const uint64_t a = (off + i) % PAGE, k = std::min(PAGE - a, n - i);
            memcpy(pg.data() + a, p + i, k);
            i += k;
        }
        if (n)
            size = std::max(size, off + n);
    }
};

struct Op
{
    uint64_t off = 0;
    std::vector<uint8_t> bytes;
    std::vector<size_t> lens;
};

std::vector<uint8_t>
random_bytes(uint64_t n, uint64_t seed)
{
    std::vector<uint8_t> v(n);
    uint64_t x = seed * 0x9e3779b97f4a7c15ull + 1;
    constexpr size_t period = 1000003; // of large buffers
    if (n > 16 * period) {
        const auto head = random_bytes(period, seed);
        for (size_t at = 0; at < n; at += period)
            memcpy(v.data() + at, head.data(), std::min(period, n - at));
        return v;
    }
    for (size_t i = 0; i < n; ++i) {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        v[i] = (uint8_t)(x >> 32) | 1; // never zero
    }
    return v;
}

Op
parse(const json& j)
{
    Op o;
    o.off = j["off"].get<uint64_t>();
    uint64_t n = 0;
    for (const auto& l : j["lens"]) // [length, repetitions]
        for (int i = 0; i < l[1].get<int>(); ++i) {
            o.lens.push_back(l[0].get<size_t>());
            n += o.lens.back();
        }
    o.bytes = random_bytes(n, j["seed"].get<uint64_t>());
    return o;
}

// every buffer is an allocation of its own
struct Buffers
{
    std::vector<std::unique_ptr<std::byte[]>> own;
    std::vector<std::span<std::byte>> spans;
    explicit Buffers(const Op& o)
    {
        size_t at = 0;
        for (const auto n : o.lens) {
            if (n == 0 && own.size() % 2) {
                spans.emplace_back(); // no data at all
                continue;
            }
            own.emplace_back(new std::byte[n]);
            memcpy(own.back().get(), o.bytes.data() + at, n);
            spans.emplace_back(own.back().get(), n);
            at += n;
        }
    }
    bool unchanged(const Op& o) const
    {
        size_t at = 0;
        for (const auto& s : spans) {
            if (s.size() && memcmp(s.data(), o.bytes.data() + at, s.size()))
                return false;
            at += s.size();
        }
        return true;
    }
};

// difference between the file and the model, or ""
std::string
compare(const std::string& path, const Model& m)
{
    const int fd = ::open(path.c_str(), O_RDONLY);
    if (fd < 0)
        return "the file does not exist";
    struct stat sb;
    fstat(fd, &sb);
    std::string r;
    if ((uint64_t)sb.st_size != m.size)
        r = "the file has " + std::to_string(sb.st_size) + " bytes instead of " + std::to_string(m.size);
    std::vector<uint8_t> buf(PAGE);
    auto page = [&](uint64_t pg) {
        std::fill(buf.begin(), buf.end(), 0);
        const uint64_t size = (uint64_t)sb.st_size, room = size > pg * PAGE ? std::min(PAGE, size - pg * PAGE) : 0;
        for (uint64_t at = 0; at < room;) {
            const ssize_t k = pread64(fd, buf.data() + at, room - at, pg * PAGE + at);
            if (k <= 0)
                break;
            at += k;
        }
        auto it = m.pages.find(pg);
        if (it != m.pages.end() && !memcmp(buf.data(), it->second.data(), PAGE))
            return true;
        for (uint64_t i = 0; i < PAGE; ++i)
            if (buf[i] != (it == m.pages.end() ? 0 : it->second[i])) {
                r = "byte " + std::to_string(pg * PAGE + i) + " is " + std::to_string(buf[i]) + " instead of " + std::to_string(m.get(pg * PAGE + i));
                return false;
            }
        return true;
    };
    for (auto& [pg, v] : m.pages)
        if (r.empty() && !page(pg))
            break;
    // data where the model has none
    for (off64_t at = 0; r.empty();) {
        const off64_t a = lseek64(fd, at, SEEK_DATA);
        if (a < 0)
            break;
        const off64_t b = lseek64(fd, a, SEEK_HOLE);
        for (uint64_t pg = (uint64_t)a / PAGE; pg * PAGE < (uint64_t)b; ++pg)
            if (!m.pages.count(pg) && !page(pg))
                break;
        at = b;
    }
    ::close(fd);
    return r;
}

// after a failed write: bytes of its range may be old or new, everything else is as before; adopts what is there
std::string
resync(const std::string& path, Model& m, const Op& o)
{
    const int fd = ::open(path.c_str(), O_RDONLY);
    if (fd < 0)
        return "the file is gone";
    struct stat sb;
    fstat(fd, &sb);
    const uint64_t limit = 1ull << 63;
    const uint64_t n = o.off >= limit ? 0 : std::min<uint64_t>(o.bytes.size(), limit - 1 - o.off), size = (uint64_t)sb.st_size;
    std::string r;
    if (size < m.size || size > std::max(m.size, o.off + n))
        r = "after a failed write the file has " + std::to_string(size) + " bytes";
    std::vector<uint8_t> got(n);
    const uint64_t room = size > o.off ? std::min(n, size - o.off) : 0;
    for (uint64_t at = 0; at < room;) {
        const ssize_t k = pread64(fd, got.data() + at, room - at, o.off + at);
        if (k <= 0)
            break;
        at += k;
    }
    for (uint64_t i = 0; i < n && r.empty(); ++i)
        if (got[i] != o.bytes[i] && got[i] != m.get(o.off + i))
            r = "after a failed write byte " + std::to_string(o.off + i) + " is neither old nor new";
    ::close(fd);
    if (r.empty() && n && size > o.off) {
        m.put(o.off, got.data(), std::min(n, size - o.off));
    }
    m.size = std::max(m.size, size);
    if (r.empty())
        r = compare(path, m);
    return r;
}

void
files(const json& c)
{
    const std::string path = worker::unhex(c["path"].get<std::string>()), kind = c["kind"].get<std::string>();
    const bool vec = kind == "vec";
    Logger::set_log_level((LogLevel)c.value("log_level", 3));
    Model m;
    if (c.contains("initial")) {
        const auto init = random_bytes(c["initial"][0].get<uint64_t>(), c["initial"][1].get<uint64_t>());
        const int fd = ::open(path.c_str(), O_RDONLY);
        m.put(0, init.data(), init.size());
        if (fd < 0) {
            const int w = ::open(path.c_str(), O_WRONLY | O_CREAT, 0644);
            if (w < 0 || ::write(w, init.data(), init.size()) != (ssize_t)init.size())
                _exit(97);
            ::close(w);
        } else
            ::close(fd);
    }
    worker::setup_shim(c);

    std::vector<std::unique_ptr<zarr::VectorizedFileWriter>> writers;
    std::unique_ptr<zarr::Sink> sink;
    std::string threw;
    const auto count0 = shim::hits();
    try {
        if (vec)
            for (int i = 0; i < c.value("writers", 1); ++i)
                writers.push_back(std::make_unique<zarr::VectorizedFileWriter>(path));
        else
            sink = std::make_unique<zarr::FileSink>(path);
    } catch (const std::exception& e) {
        threw = e.what();
        if (threw.empty())
            threw = "?";
    }
    worker::emit({ { "open", threw.empty() }, { "what", threw }, { "hits", shim::hits() - count0 } });
    if (!threw.empty())
        return;
    if (!vec)
        m = Model{}; // a file that existed is replaced

    auto perform = [&](const json& j, const Op& o, json& res) -> bool {
        const Buffers b(o);
        bool ok = false;
        try {
            if (vec && j.value("fresh", false)) {
                zarr::VectorizedFileWriter w(path);
                ok = w.write_vectors(b.spans, o.off);
            } else if (vec)
                ok = writers[j.value("w", 0) % writers.size()]->write_vectors(b.spans, o.off);
            else
                ok = sink->write(o.off, o.lens.empty() ? std::span<const std::byte>() : std::span<const std::byte>(b.spans[0]));
        } catch (const std::exception& e) {
            res["threw"] = e.what();
        }
        res["ok"] = ok;
        res["unchanged"] = b.unchanged(o);
        return ok;
    };

    std::string bad;
    int index = 0;
    for (const auto& step : c["ops"]) {
        if (step.is_array()) { // several threads, disjoint ranges
            std::vector<std::thread> ts;
            std::vector<std::vector<Op>> parsed(step.size());
            std::vector<json> res(step.size(), json::array());
            for (size_t t = 0; t < step.size(); ++t)
                for (const auto& j : step[t])
                    parsed[t].push_back(parse(j));
            std::atomic<int> ready{ 0 };
            const auto h0 = shim::hits();
            for (size_t t = 0; t < step.size(); ++t)
                ts.emplace_back([&, t] {
                    ++ready;
                    while (ready < (int)step.size())
                        ;
                    for (size_t k = 0; k < step[t].size(); ++k) {
                        json r;
                        perform(step[t][k], parsed[t][k], r);
                        res[t].push_back(r);
                    }
                });
            for (auto& t : ts)
                t.join();
            bool all = true;
            for (size_t t = 0; t < step.size(); ++t)
                for (size_t k = 0; k < step[t].size(); ++k)
                    if (res[t][k]["ok"].get<bool>())
                        m.put(parsed[t][k].off, parsed[t][k].bytes.data(), parsed[t][k].bytes.size());
            for (size_t t = 0; t < step.size(); ++t)
                for (size_t k = 0; k < step[t].size(); ++k)
                    if (!res[t][k]["ok"].get<bool>()) {
                        all = false;
                        // sizes of other failed writes are unknown: only the ranges are checked
                        m.size = std::max<uint64_t>(m.size, 0);
                    }
            json flat = json::array();
            for (auto& r : res)
                for (auto& x : r)
                    flat.push_back(x);
            worker::emit({ { "op", index++ }, { "par", flat }, { "hits", shim::hits() - h0 } });
            if (!all) {
                worker::emit({ { "abandoned", true } });
                return;
            }
            continue;
        }
        const Op o = parse(step);
        json r;
        const auto h0 = shim::hits();
        const bool ok = perform(step, o, r);
        r["op"] = index++;
        r["hits"] = shim::hits() - h0;
        if (ok) {
            m.put(o.off, o.bytes.data(), o.bytes.size());
            if (vec)
                bad = compare(path, m);
        } else if (vec)
            bad = resync(path, m, o);
        r["bad"] = bad;
        worker::emit(r);
        if (!bad.empty())
            return;
    }
    json fin = { { "end", true } };
    if (!vec) {
        const auto h0 = shim::hits();
        bool ok = false;
        try {
            ok = c.value("drop", false) ? (sink.reset(), true) : zarr::finalize_sink(std::move(sink));
        } catch (const std::exception& e) {
            fin["threw"] = e.what();
        }
        fin["final"] = ok;
        fin["final_hits"] = shim::hits() - h0;
    }
    writers.clear();
    fin["bad"] = compare(path, m);
    fin["size"] = m.size;
    fin["total_hits"] = shim::hits();
    worker::emit(fin);
}
worker::Register r_files("files", files);
} // namespace
