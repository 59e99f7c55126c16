// Commands that drive the public C API with a script of calls.
#include "shim.hh"
#include "worker.hh"

#include "acquire.zarr.h"
#include "miniocpp/fake_s3.h"

#include <atomic>
#include <csignal>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <sys/mman.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t
allocated_bytes()
{
    return __sanitizer_get_current_allocated_bytes();
}
#else
static size_t
allocated_bytes()
{
    return 0;
}
#endif

namespace {
using worker::json;

struct Data
{
    const char* p = nullptr;
    size_t n = 0;
};
Data g_data;
std::mutex g_emit_mutex;
std::mutex g_streams_mutex;
std::map<int, ZarrStream*> g_streams;
// resource counts; a plain array so that taking one allocates nothing
struct Probe
{
    int threads, fds, clients;
    size_t alloc;
};
std::atomic<bool> g_failed_append{ false };
bool g_starve_some = false; // allocations fail only in steps that ask for it
Probe g_probes[512];
size_t g_n_probes = 0;

void
out(const json& j)
{
    std::lock_guard lock(g_emit_mutex);
    worker::emit(j);
}

Data
map_file(const std::string& path)
{
    Data d;
    const int fd = ::open(path.c_str(), O_RDONLY);
    if (fd < 0)
        return d;
    struct stat st;
    fstat(fd, &st);
    d.n = (size_t)st.st_size;
    if (d.n)
        d.p = (const char*)mmap(nullptr, d.n, PROT_READ, MAP_PRIVATE, fd, 0);
    close(fd);
    return d;
}

int
count_dir(const char* path)
{
    int n = 0;
    DIR* d = opendir(path);
    if (!d)
        return -1;
    while (readdir(d))
        ++n;
    closedir(d);
    return n - 2;
}

// settings whose every pointer is an exact-size heap block
struct Settings
{
    ZarrStreamSettings s{};
    ZarrStreamSettings copy{};
    ZarrS3Settings* s3 = nullptr;
    ZarrCompressionSettings* comp = nullptr;
    std::vector<std::pair<char*, std::string>> strings;
    std::vector<std::pair<void*, std::string>> blocks;
    bool dim_api = false;
    bool is_null = false;

    const char* str(const json& j)
    {
        if (j.is_null())
            return nullptr;
        const std::string v = worker::unhex(j.get<std::string>());
        char* p = (char*)malloc(v.size() + 1);
        memcpy(p, v.data(), v.size());
        p[v.size()] = 0;
        strings.emplace_back(p, std::string(p, v.size() + 1));
        return p;
    }
    explicit Settings(const json& j)
    {
        memset((void*)&s, 0, sizeof s);
        if (j.is_null()) {
            is_null = true;
            return;
        }
        s.store_path = str(j["store_path"]);
        s.custom_metadata = str(j["custom_metadata"]);
        if (!j["s3"].is_null()) {
            s3 = (ZarrS3Settings*)malloc(sizeof *s3);
            memset((void*)s3, 0, sizeof *s3);
            s3->endpoint = str(j["s3"]["endpoint"]);
            s3->bucket_name = str(j["s3"]["bucket"]);
            s3->access_key_id = str(j["s3"]["key"]);
            s3->secret_access_key = str(j["s3"]["secret"]);
            s.s3_settings = s3;
        }
        if (!j["compression"].is_null()) {
            comp = (ZarrCompressionSettings*)malloc(sizeof *comp);
            memset((void*)comp, 0, sizeof *comp);
            const auto& c = j["compression"];
            comp->compressor = (ZarrCompressor)c["compressor"].get<int>();
            comp->codec = (ZarrCompressionCodec)c["codec"].get<int>();
            comp->level = (uint8_t)c["level"].get<int>();
            comp->shuffle = (uint8_t)c["shuffle"].get<int>();
            s.compression_settings = comp;
        }
        dim_api = j.value("dim_api", false);
        if (!j["dims"].is_null()) {
            const auto& dims = j["dims"];
            const size_t n = dims.size();
            if (dim_api && n >= 3) {
                if (ZarrStreamSettings_create_dimension_array(&s, n) != ZarrStatusCode_Success)
                    throw std::runtime_error("create_dimension_array failed");
            } else {
                dim_api = false;
                s.dimensions = (ZarrDimensionProperties*)malloc(n * sizeof *s.dimensions + (n == 0));
                s.dimension_count = n;
            }
            for (size_t i = 0; i < n; ++i) {
                ZarrDimensionProperties p;
                memset((void*)&p, 0, sizeof p);
                p.name = str(dims[i]["name"]);
                p.type = (ZarrDimensionType)dims[i]["type"].get<int>();
                p.array_size_px = dims[i]["array"].get<uint32_t>();
                p.chunk_size_px = dims[i]["chunk"].get<uint32_t>();
                p.shard_size_chunks = dims[i]["shard"].get<uint32_t>();
                memcpy((void*)(s.dimensions + i), &p, sizeof p);
            }
        }
        if (j.contains("dim_count") && !j["dim_count"].is_null())
            s.dimension_count = j["dim_count"].get<size_t>();
        s.multiscale = j.value("multiscale", false);
        s.data_type = (ZarrDataType)j["dtype"].get<int>();
        s.version = (ZarrVersion)j["version"].get<int>();
        memcpy((void*)&copy, &s, sizeof s);
        auto block = [&](void* p, size_t n) {
            if (p)
                blocks.emplace_back(p, std::string((const char*)p, n));
        };
        block(s3, sizeof *s3);
        block(comp, sizeof *comp);
        if (s.dimensions && !j["dims"].is_null())
            block(s.dimensions, j["dims"].size() * sizeof *s.dimensions);
    }
    bool modified() const
    {
        if (is_null)
            return false;
        if (memcmp(&copy, &s, sizeof s) != 0)
            return true;
        for (auto& [p, v] : strings)
            if (memcmp(p, v.data(), v.size()) != 0)
                return true;
        for (auto& [p, v] : blocks)
            if (memcmp(p, v.data(), v.size()) != 0)
                return true;
        return false;
    }
    // overwrite everything with rubbish, then free it
    void scramble()
    {
        if (is_null)
            return;
        for (auto& [p, v] : strings) {
            memset(p, 'Q', v.size() - 1);
            free(p);
        }
        strings.clear();
        auto wipe = [](void* p, size_t n) {
            if (p) {
                memset(p, 0x5a, n);
                free(p);
            }
        };
        wipe(s3, sizeof *s3);
        wipe(comp, sizeof *comp);
        if (dim_api)
            ZarrStreamSettings_destroy_dimension_array(&s);
        else
            free(s.dimensions);
        blocks.clear();
        memset((void*)&s, 0x5a, sizeof s);
    }
};

std::map<int, std::unique_ptr<std::optional<Settings>>> g_settings;

// histories of the dimension-array helpers; -1 stands for NULL settings
void
dim_ops(const json& st)
{
    const size_t k = st["objects"].get<size_t>();
    std::vector<ZarrStreamSettings> objs(k);
    std::vector<std::string> content(k);
    for (auto& o : objs) {
        memset((void*)&o, 0x5a, sizeof o);
        o.dimensions = nullptr;
        o.dimension_count = 0;
    }
    std::vector<std::string> others(k);
    // everything but the array fields
    const auto rest = [&](const ZarrStreamSettings& o) {
        ZarrStreamSettings c;
        memcpy((void*)&c, &o, sizeof c);
        c.dimensions = nullptr;
        c.dimension_count = 0;
        return std::string((const char*)&c, sizeof c);
    };
    for (size_t i = 0; i < k; ++i)
        others[i] = rest(objs[i]);
    json res = json::array();
    const auto& ops = st["ops"];
    for (const auto& q : ops)
        res.push_back({ 0, false, false, false, 0 });
    for (size_t n = 0; n < ops.size(); ++n) {
        const auto& q = ops[n];
        const int i = q[1].get<int>();
        ZarrStreamSettings* o = i < 0 ? nullptr : &objs[i];
        const auto* old = o ? o->dimensions : nullptr;
        const size_t old_count = o ? o->dimension_count : 0;
        int rc = 0;
        if (q[0] == "create")
            rc = (int)ZarrStreamSettings_create_dimension_array(o, q[2].get<size_t>());
        else
            ZarrStreamSettings_destroy_dimension_array(o);
        bool same = true, intact = true, null = true;
        size_t count = 0;
        if (o) {
            same = o->dimensions == old && o->dimension_count == old_count;
            null = o->dimensions == nullptr;
            count = o->dimension_count;
            intact = rest(*o) == others[i];
            if (q[0] == "create" && rc == 0) {
                // every entry is writable
                content[i].assign(count * sizeof *o->dimensions, (char)(n * 37 + 1));
                memcpy((void*)o->dimensions, content[i].data(), content[i].size());
            } else if (q[0] == "destroy")
                content[i].clear();
        }
        // arrays of the others, and this one if nothing should have happened
        for (size_t a = 0; a < k; ++a)
            if (objs[a].dimensions && memcmp(objs[a].dimensions, content[a].data(), content[a].size()) != 0)
                intact = false;
        res[n] = { rc, same, null, intact, count };
    }
    for (auto& o : objs)
        ZarrStreamSettings_destroy_dimension_array(&o);
    content.clear();
    content.shrink_to_fit();
    json x = { { "s", "dimops" }, { "res", res } };
    out(x);
}

// what stays allocated after many rounds of creating and destroying
void
dim_leak(const json& st)
{
    ZarrStreamSettings o;
    memset((void*)&o, 0, sizeof o);
    const auto round = [&] {
        for (const auto& q : st["ops"]) {
            if (q[0] == "create")
                (void)ZarrStreamSettings_create_dimension_array(&o, q[2].get<size_t>());
            else
                ZarrStreamSettings_destroy_dimension_array(&o);
        }
        ZarrStreamSettings_destroy_dimension_array(&o);
    };
    size_t a[6];
    for (auto& v : a) {
        round();
        v = allocated_bytes();
    }
    out({ { "s", "dimleak" }, { "growth", { (int64_t)(a[3] - a[2]), (int64_t)(a[4] - a[3]), (int64_t)(a[5] - a[4]) } } });
}

void run_steps(const json& steps);

void
s3_dump(const std::string& dir)
{
    auto& sv = fakes3::Server::get();
    std::lock_guard lock(sv.mutex);
    json objs = json::array();
    int n = 0;
    mkdir(dir.c_str(), 0755);
    for (auto& [b, os] : sv.buckets)
        for (auto& [k, v] : os) {
            const std::string f = dir + "/o" + std::to_string(n++);
            std::ofstream o(f, std::ios::binary);
            o.write(v.data(), (std::streamsize)v.size());
            objs.push_back({ { "bucket", b }, { "key", worker::hex(k.data(), k.size()) }, { "file", f }, { "size", v.size() } });
        }
    json ups = json::array();
    for (auto& [id, u] : sv.uploads)
        ups.push_back({ { "key", u.key }, { "parts", u.parts.size() } });
    json ops = json::array();
    for (auto& o : sv.ops)
        ops.push_back({ o.kind, o.key, o.size, o.part, o.ok, o.injected });
    out({ { "s", "s3dump" },
          { "objects", objs },
          { "uploads", ups },
          { "ops", ops },
          { "protocol_errors", sv.protocol_errors },
          { "denied", sv.denied },
          { "clients_alive", sv.clients_alive },
          { "clients_made", sv.clients_made } });
}

void
set_s3_faults(const json& rules)
{
    auto& sv = fakes3::Server::get();
    std::lock_guard lock(sv.mutex);
    sv.faults.clear();
    for (const auto& f : rules) {
        fakes3::Fault r;
        r.kind = f.value("kind", std::string("*"));
        r.nth = f.value("nth", (int64_t)0);
        r.count = f.value("count", (int64_t)1);
        r.after = f.value("after", false);
        r.status = f.value("status", 503);
        r.key = f.value("key", std::string());
        sv.faults.push_back(r);
    }
}

void
run_step(const json& st)
{
    const std::string op = st["s"];
    if (op == "settings") {
        // the same structure is used again with other contents
        auto& slot = g_settings[st["key"].get<int>()];
        if (!slot)
            slot = std::make_unique<std::optional<Settings>>();
        if (slot->has_value())
            (*slot)->scramble();
        slot->emplace(st["settings"]);
    } else if (op == "drop") {
        auto& slot = g_settings[st["key"].get<int>()];
        if (slot && slot->has_value()) {
            const bool mod = (*slot)->modified();
            (*slot)->scramble();
            slot->reset();
            out({ { "s", op }, { "modified", mod } });
        }
    } else if (op == "dimops") {
        dim_ops(st);
    } else if (op == "dimleak") {
        dim_leak(st);
    } else if (op == "create") {
        std::optional<Settings> own;
        Settings* set;
        if (st.contains("from"))
            set = &**g_settings[st["from"].get<int>()];
        else
            set = &own.emplace(st["settings"]);
        shim::alloc_active(!g_starve_some || st.value("starve", false));
        ZarrStream* stream = ZarrStream_create(set->is_null ? nullptr : &set->s);
        shim::alloc_active(false);
        const bool mod = set->modified();
        if (own)
            set->scramble();
        {
            std::lock_guard lock(g_streams_mutex);
            g_streams[st["id"].get<int>()] = stream;
        }
        out({ { "s", op }, { "id", st["id"] }, { "ok", stream != nullptr }, { "modified", mod } });
    } else if (op == "append") {
        ZarrStream* stream;
        {
            std::lock_guard lock(g_streams_mutex);
            stream = g_streams[st["id"].get<int>()];
        }
        if (st.value("stop", false) && g_failed_append) {
            out({ { "s", op }, { "id", st["id"] }, { "skipped", true } });
            return;
        }
        const size_t off = st.value("off", (size_t)0), len = st.value("len", (size_t)0), mis = st.value("mis", (size_t)0);
        const size_t tile = st.value("tile", (size_t)0); // so many bytes of the data file, again and again
        if (tile ? tile > g_data.n : off + len > g_data.n)
            throw std::runtime_error("append beyond the data file");
        auto pieces = [&](char* q, auto f) { // f(where in the buffer, where in the file, how many)
            for (size_t at = 0; at < len;) {
                const size_t src = tile ? (off + at) % tile : off, n = tile ? std::min(tile - src, len - at) : len;
                if (!f(q + at, g_data.p + src, n))
                    return false;
                at += n;
            }
            return true;
        };
        if (!stream && !st.value("null_ok", false)) {
            out({ { "s", op }, { "id", st["id"] }, { "skipped", true } });
            return;
        }
        char* block = (char*)malloc(len + mis + (len + mis == 0));
        char* p = block + mis;
        pieces(p, [](char* a, const char* b, size_t n) { return memcpy(a, b, n) != nullptr; });
        size_t written = 0xdeadbeef;
        shim::alloc_active(!g_starve_some || st.value("starve", false));
        const ZarrStatusCode rc =
          ZarrStream_append(stream, st.value("null_data", false) ? nullptr : p, len, st.value("null_out", false) ? nullptr : &written);
        shim::alloc_active(false);
        if (rc != ZarrStatusCode_Success)
            g_failed_append = true;
        const bool mod = !pieces(p, [](char* a, const char* b, size_t n) { return memcmp(a, b, n) == 0; });
        memset(block, 0xa5, len + mis);
        free(block);
        out({ { "s", op }, { "id", st["id"] }, { "rc", (int)rc }, { "bytes_out", written }, { "modified", mod } });
    } else if (op == "destroy") {
        ZarrStream* stream;
        {
            std::lock_guard lock(g_streams_mutex);
            stream = g_streams[st["id"].get<int>()];
            g_streams.erase(st["id"].get<int>());
        }
        shim::alloc_active(!g_starve_some || st.value("starve", false));
        ZarrStream_destroy(stream);
        shim::alloc_active(false);
        out({ { "s", op }, { "id", st["id"] } });
    } else if (op == "par") {
        std::vector<std::thread> ts;
        std::atomic<int> ready{ 0 };
        const int n = (int)st["threads"].size();
        std::atomic<bool> failed{ false };
        for (const auto& steps : st["threads"])
            ts.emplace_back([&, steps_ = &steps] {
                ++ready;
                while (ready < n)
                    std::this_thread::yield();
                try {
                    run_steps(*steps_);
                } catch (const std::exception& e) {
                    failed = true;
                    out({ { "handler_exception", e.what() } });
                }
            });
        for (auto& t : ts)
            t.join();
        if (failed)
            throw std::runtime_error("a parallel branch failed");
    } else if (op == "repeat") {
        for (int i = 0; i < st["n"].get<int>(); ++i)
            run_steps(st["steps"]);
    } else if (op == "log_level") {
        const auto rc = Zarr_set_log_level((ZarrLogLevel)st["level"].get<int>());
        out({ { "s", op }, { "rc", (int)rc }, { "level", (int)Zarr_get_log_level() } });
    } else if (op == "kill") {
        kill(getpid(), SIGKILL);
        for (;;)
            pause();
    } else if (op == "probe") {
        // give exiting threads a moment to disappear from /proc
        int threads = count_dir("/proc/self/task");
        for (int i = 0; i < 200 && threads > 1 && !st.value("now", false); ++i) {
            usleep(1000);
            threads = count_dir("/proc/self/task");
        }
        Probe p{};
        p.threads = threads;
        p.fds = count_dir("/proc/self/fd");
        {
            auto& sv = fakes3::Server::get();
            std::lock_guard lock(sv.mutex);
            p.clients = sv.clients_alive;
        }
        p.alloc = allocated_bytes();
        if (g_n_probes < 512)
            g_probes[g_n_probes++] = p;
    } else if (op == "s3reset") { // forget everything the server stores, keep the buckets
        auto& sv = fakes3::Server::get();
        std::lock_guard lock(sv.mutex);
        for (auto& [b, os] : sv.buckets)
            os.clear();
        sv.uploads.clear();
        sv.ops = {};
        sv.puts_per_key.clear();
        sv.protocol_errors = {};
        sv.faults = {};
    } else if (op == "s3faults") {
        set_s3_faults(st["rules"]);
    } else if (op == "s3dump") {
        s3_dump(st["dir"]);
    } else if (op == "allocfaults") {
        g_starve_some = st.value("selective", false);
        shim::set_alloc_faults(st["min"].get<size_t>(), st["nth"].get<int64_t>(), st["count"].get<int64_t>());
    } else if (op == "allochits") {
        out({ { "s", op }, { "hits", shim::alloc_hits() }, { "seen", shim::alloc_seen() } });
    } else if (op == "faults") { // install new fault rules now
        std::vector<shim::Rule> rules;
        for (const auto& f : st["rules"]) {
            shim::Rule r;
            r.ops = f.value("ops", 7u);
            r.nth = f.value("nth", (int64_t)0);
            r.count = f.value("count", (int64_t)1);
            r.err = f.value("err", EIO);
            r.mode = f.value("mode", 0);
            r.path = f.value("path", std::string());
            rules.push_back(r);
        }
        shim::set_rules(rules);
    } else if (op == "counts") {
        out({ { "s", op },
              { "open", shim::count(shim::OPEN) },
              { "mkdir", shim::count(shim::MKDIR) },
              { "write", shim::count(shim::WRITE) },
              { "hits", shim::hits() } });
    } else if (op == "mark") { // a line in both logs, to attribute messages to steps
        fflush(stdout);
        const std::string m = "@@MARK " + std::to_string(st["n"].get<int>()) + "\n";
        if (::write(1, m.data(), m.size()) < 0 || ::write(2, m.data(), m.size()) < 0)
            throw std::runtime_error("mark");
        out({ { "s", op }, { "n", st["n"] } });
    } else if (op == "snap") { // current content of a file
        std::ifstream f(st["file"].get<std::string>(), std::ios::binary);
        if (!f)
            out({ { "s", op }, { "n", st["n"] }, { "file", st["file"] }, { "data", nullptr } });
        else {
            const std::string c((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
            out({ { "s", op }, { "n", st["n"] }, { "file", st["file"] }, { "data", worker::hex(c.data(), c.size()) } });
        }
    } else if (op == "version") {
        out({ { "s", op }, { "version", Zarr_get_api_version() } });
    } else if (op == "message") {
        const char* m = Zarr_get_status_message((ZarrStatusCode)st["code"].get<int>());
        out({ { "s", op }, { "code", st["code"] }, { "msg", m ? json(m) : json(nullptr) } });
    } else
        throw std::runtime_error("unknown step " + op);
}

void
run_steps(const json& steps)
{
    for (const auto& st : steps)
        run_step(st);
}

void
script(const json& c)
{
    if (c.contains("data"))
        g_data = map_file(c["data"].get<std::string>());
    if (c.contains("chdir") && chdir(c["chdir"].get<std::string>().c_str()) != 0)
        throw std::runtime_error("chdir");
    if (c.contains("nofile")) {
        // set below through faults; kept for completeness
    }
    auto& sv = fakes3::Server::get();
    if (c.contains("s3")) {
        const auto& s = c["s3"];
        for (const auto& b : s["buckets"])
            sv.buckets[b.get<std::string>()];
        if (s.contains("faults"))
            set_s3_faults(s["faults"]);
        for (const auto& a : s.value("accounts", json::array())) {
            fakes3::Account acc{ worker::unhex(a["host"]), worker::unhex(a["key"]), worker::unhex(a["secret"]), a["https"].get<bool>(), {} };
            for (const auto& b : a["buckets"])
                acc.buckets.insert(b.get<std::string>());
            sv.accounts.push_back(acc);
        }
        for (const auto& o : s.value("objects", json::array()))
            sv.buckets[o["bucket"].get<std::string>()][worker::unhex(o["key"])] = o["text"].get<std::string>();
        sv.keep_log = s.value("log", true);
        sv.jitter = [] { shim::jitter(); };
    }
    Zarr_set_log_level((ZarrLogLevel)c.value("log_level", 1));
    worker::setup_shim(c);
    run_steps(c["steps"]);
    out({ { "s", "ops" },
          { "open", shim::count(shim::OPEN) },
          { "mkdir", shim::count(shim::MKDIR) },
          { "write", shim::count(shim::WRITE) },
          { "unlink", shim::count(shim::UNLINK) },
          { "hits", shim::hits() },
          { "s3ops", sv.ops.size() } });
    if (g_n_probes) {
        json l = json::array();
        for (size_t i = 0; i < g_n_probes; ++i)
            l.push_back({ { "threads", g_probes[i].threads }, { "fds", g_probes[i].fds }, { "clients", g_probes[i].clients }, { "alloc", g_probes[i].alloc } });
        out({ { "s", "probes" }, { "list", l } });
    }
    if (c.value("log_ops", false))
        out({ { "s", "oplog" }, { "list", shim::take_op_log() } });
}

worker::Register r1("script", script);
} // namespace
