// Commands for the internals that need the S3 client: sinks, connection pool, sink creator, pyramid planning.
#include "shim.hh"
#include "worker.hh"

#include "array.writer.hh"
#include "miniocpp/fake_s3.h"
#include "s3.connection.hh"
#include "s3.sink.hh"
#include "sink.creator.hh"
#include "thread.pool.hh"
#include "zarr.common.hh"
#include "zarr.dimension.hh"
#include "logger.hh"

#include <atomic>
#include <cstring>
#include <fstream>
#include <map>
#include <mutex>
#include <thread>
#include <unistd.h>

namespace {
using worker::json;

std::mutex g_emit_mutex;
void
out(const json& j)
{
    std::lock_guard lock(g_emit_mutex);
    worker::emit(j);
}

void
setup_s3(const json& c)
{
    auto& sv = fakes3::Server::get();
    for (const auto& b : c["s3"]["buckets"])
        sv.buckets[b.get<std::string>()];
    sv.keep_log = true;
    sv.jitter = [] { shim::jitter(); };
    if (c["s3"].contains("faults"))
        for (const auto& f : c["s3"]["faults"]) {
            fakes3::Fault r;
            r.kind = f.value("kind", std::string("*"));
            r.nth = f.value("nth", (int64_t)0);
            r.count = f.value("count", (int64_t)1);
            r.after = f.value("after", false);
            r.status = f.value("status", 503);
            r.key = f.value("key", std::string());
            sv.faults.push_back(r);
        }
    Logger::set_log_level((LogLevel)c.value("log_level", 3));
    worker::setup_shim(c);
}

void
fill(std::vector<uint8_t>& v, uint32_t seed)
{
    uint64_t x = seed * 0x9e3779b97f4a7c15ull + 1;
    size_t i = 0;
    while (i < v.size()) {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        uint64_t y = x * 2685821657736338717ull;
        for (int k = 0; k < 8 && i < v.size(); ++k, y >>= 8)
            v[i++] = (uint8_t)y;
    }
}

// ---- S3 sinks ------------------------------------------------------------------------------------------------
// One script per sink. Reports, for each operation, the result and what the server holds for the key.
void
drive_sink(const json& s, int index, std::shared_ptr<zarr::S3ConnectionPool> pool)
{
    auto& sv = fakes3::Server::get();
    const std::string bucket = "bucket", key = s["key"].get<std::string>();
    std::unique_ptr<zarr::Sink> sink = std::make_unique<zarr::S3Sink>(bucket, key, pool);
    std::vector<uint8_t> model;
    json ops = json::array();
    std::string before; // content of an object of an earlier sink with the same key
    bool existed = false;
    size_t first_op = 0;
    std::set<std::string> old_uploads;
    {
        std::lock_guard lock(sv.mutex);
        first_op = sv.ops.size();
        for (auto& [id, u] : sv.uploads)
            old_uploads.insert(id);
        auto it = sv.buckets[bucket].find(key);
        if (it != sv.buckets[bucket].end()) {
            existed = true;
            before = it->second;
        }
    }
    bool lost = false;
    auto uploaded = [&] {
        uint64_t n = 0;
        std::lock_guard lock(sv.mutex);
        for (size_t i = first_op; i < sv.ops.size(); ++i)
            if (const auto& o = sv.ops[i]; o.kind == "upload_part" && o.key == key && o.ok)
                n += o.size;
        return n;
    };
    auto object_changed = [&] {
        std::lock_guard lock(sv.mutex);
        auto it = sv.buckets[bucket].find(key);
        const bool now = it != sv.buckets[bucket].end();
        return now != existed || (now && it->second != before);
    };
    for (const auto& op : s["ops"]) {
        const size_t off = op[0].get<size_t>(), len = op[1].get<size_t>();
        std::vector<uint8_t> data(len);
        fill(data, op[2].get<uint32_t>());
        const uint64_t up = uploaded();
        const size_t end = model.size();
        bool ok = false, threw = false;
        try {
            ok = sink->write(off, std::span(reinterpret_cast<const std::byte*>(data.data()), len));
        } catch (const std::exception&) {
            threw = true;
        }
        if (len && (ok || (off >= up && off <= end))) {
            // accepted, or an in-order write that failed: its bytes belong to the object
            if (model.size() < off + len)
                model.resize(off + len);
            std::memcpy(model.data() + off, data.data(), len);
            lost |= !ok;
        }
        ops.push_back({ { "off", off }, { "len", len }, { "ok", ok }, { "threw", threw }, { "uploaded", up }, { "end", end }, { "visible", object_changed() } });
        if (!ok && s.value("stop", false))
            break;
    }
    json fin = nullptr;
    if (s.value("finalize", true)) {
        bool ok = false, threw = false;
        try {
            ok = zarr::finalize_sink(std::move(sink));
        } catch (const std::exception&) {
            threw = true;
        }
        fin = { { "ok", ok }, { "threw", threw } };
    }
    sink.reset();
    json r = { { "sink", index }, { "key", key }, { "ops", ops }, { "finalize", fin }, { "model", model.size() }, { "lost", lost }, { "existed", existed } };
    {
        std::lock_guard lock(sv.mutex);
        auto it = sv.buckets[bucket].find(key);
        const bool now = it != sv.buckets[bucket].end();
        r["exists"] = now;
        r["changed"] = now != existed || (now && it->second != before);
        if (now) {
            r["size"] = it->second.size();
            r["equal"] = it->second.size() == model.size() && std::memcmp(it->second.data(), model.data(), model.size()) == 0;
            size_t i = 0;
            while (i < model.size() && i < it->second.size() && model[i] == (uint8_t)it->second[i])
                ++i;
            r["first_diff"] = i;
        }
        json open = json::array();
        for (auto& [id, u] : sv.uploads)
            if (u.key == key && !old_uploads.count(id))
                open.push_back(u.parts.size());
        r["open_uploads"] = open;
        json reqs = json::array();
        for (size_t i = first_op; i < sv.ops.size(); ++i)
            if (const auto& o = sv.ops[i]; o.key == key)
                reqs.push_back({ o.kind, o.size, o.part, o.ok, o.injected });
        r["requests"] = reqs;
    }
    out(r);
}

void
s3sinks(const json& c)
{
    setup_s3(c);
    auto& sv = fakes3::Server::get();
    const size_t n = c["connections"].get<size_t>();
    std::shared_ptr<zarr::S3ConnectionPool> pool;
    try {
        pool = std::make_shared<zarr::S3ConnectionPool>(n, "http://localhost:9000", "key", "secret");
    } catch (const std::exception& e) {
        out({ { "pool", false } });
        return;
    }
    out({ { "pool", true } });
    if (c.value("threads", false)) {
        std::vector<std::thread> ts;
        int i = 0;
        for (const auto& s : c["sinks"])
            ts.emplace_back([&, i, s_ = &s] { drive_sink(*s_, i, pool); }), ++i;
        for (auto& t : ts)
            t.join();
    } else {
        int i = 0;
        for (const auto& s : c["sinks"])
            drive_sink(s, i++, pool);
    }
    // every connection is back: all of them can be taken at once (the ones that were valid when the pool was made)
    int valid = 0;
    {
        std::lock_guard lock(sv.mutex);
        int seen = 0;
        for (auto& o : sv.ops)
            if (o.kind == "list" && seen++ < (int)n)
                valid += o.ok;
    }
    std::vector<std::unique_ptr<zarr::S3Connection>> all;
    out({ { "taking", valid } });
    for (int i = 0; i < valid; ++i) {
        auto conn = pool->get_connection(); // blocks for ever if one is lost
        if (!conn) {
            out({ { "null_connection", true } });
            break;
        }
        all.push_back(std::move(conn));
    }
    for (auto& x : all)
        pool->return_connection(std::move(x));
    pool.reset();
    std::lock_guard lock(sv.mutex);
    json objs = json::array();
    for (auto& [b, os] : sv.buckets)
        for (auto& [k, v] : os)
            objs.push_back({ b, k, v.size() });
    out({ { "end", true }, { "objects", objs }, { "protocol_errors", sv.protocol_errors }, { "clients_alive", sv.clients_alive }, { "valid", valid } });
}

// ---- pyramid planning ----------------------------------------------------------------------------------------
std::vector<ZarrDimension>
dims_of(const json& j)
{
    std::vector<ZarrDimension> d;
    for (const auto& x : j)
        d.emplace_back(x.value("name", std::string("d")),
                       (ZarrDimensionType)x["type"].get<int>(),
                       x["array"].get<uint32_t>(),
                       x["chunk"].get<uint32_t>(),
                       x["shard"].get<uint32_t>());
    return d;
}

json
dims_json(const ArrayDimensions& d)
{
    json r = json::array();
    for (size_t i = 0; i < d.ndims(); ++i)
        r.push_back({ { "name", d[i].name }, { "type", (int)d[i].type }, { "array", d[i].array_size_px }, { "chunk", d[i].chunk_size_px }, { "shard", d[i].shard_size_chunks } });
    return r;
}

void
plan(const json& c)
{
    Logger::set_log_level(LogLevel_Error);
    zarr::ArrayWriterConfig cfg{
        .dimensions = std::make_shared<ArrayDimensions>(dims_of(c["dims"]), (ZarrDataType)c["dtype"].get<int>()),
        .dtype = (ZarrDataType)c["dtype"].get<int>(),
        .level_of_detail = c.value("level", 0),
        .bucket_name = std::nullopt,
        .store_path = "store",
        .compression_params = std::nullopt,
    };
    if (!c["bucket"].is_null())
        cfg.bucket_name = c["bucket"].get<std::string>();
    if (!c["compression"].is_null())
        cfg.compression_params = zarr::BloscCompressionParams(c["compression"]["codec"].get<std::string>(), c["compression"]["level"].get<int>(), c["compression"]["shuffle"].get<int>());
    const json original = dims_json(*cfg.dimensions);
    bool more = true;
    for (int i = 0; more && i < c.value("limit", 100); ++i) {
        zarr::ArrayWriterConfig next;
        more = zarr::downsample(cfg, next);
        json r = { { "more", more }, { "dims", dims_json(*next.dimensions) }, { "level", next.level_of_detail }, { "dtype", (int)next.dtype },
                   { "store_path", next.store_path }, { "bucket", next.bucket_name ? json(*next.bucket_name) : json(nullptr) }, { "source", dims_json(*cfg.dimensions) } };
        r["compression"] = next.compression_params ? json{ { "codec", next.compression_params->codec_id }, { "level", next.compression_params->clevel }, { "shuffle", next.compression_params->shuffle } } : json(nullptr);
        out(r);
        cfg = std::move(next);
    }
}

// ---- sink creator ---------------------------------------------------------------------------------------------
void
sinks(const json& c)
{
    setup_s3(c);
    if (c.contains("chdir") && chdir(c["chdir"].get<std::string>().c_str()) != 0)
        throw std::runtime_error("chdir");
    std::atomic<int> pool_errors{ 0 };
    auto tp = std::make_shared<zarr::ThreadPool>(c.value("threads", 4), [&](const std::string&) { ++pool_errors; });
    std::shared_ptr<zarr::S3ConnectionPool> cp;
    if (c.value("connections", 0)) {
        try {
            cp = std::make_shared<zarr::S3ConnectionPool>(c["connections"].get<size_t>(), "http://localhost:9000", "key", "secret");
        } catch (const std::exception&) {
            out({ { "no_pool", true } });
        }
    }
    zarr::SinkCreator creator(tp, cp);
    int n = 0;
    for (const auto& req : c["requests"]) {
        const std::string kind = req["kind"];
        // base path or key; a view need not end where the text in memory ends
        const std::string text_ = worker::unhex(req["path"].get<std::string>());
        const std::string more_ = text_ + req.value("tail", std::string());
        const std::string_view path(more_.data(), text_.size());
        const bool s3 = req.value("s3", false);
        const std::string bucket = req.value("bucket", std::string());
        json r = { { "n", n++ }, { "kind", kind } };
        std::vector<std::unique_ptr<zarr::Sink>> data;
        std::unordered_map<std::string, std::unique_ptr<zarr::Sink>> meta;
        bool ok = false, threw = false;
        std::string what;
        try {
            if (kind == "sink") {
                auto s = s3 ? creator.make_sink(bucket, path) : zarr::SinkCreator::make_sink(path);
                ok = s != nullptr;
                data.push_back(std::move(s));
            } else if (kind == "data") {
                ArrayDimensions dims(dims_of(req["dims"]), ZarrDataType_uint8);
                auto parts = req["parts"] == "shards" ? zarr::shards_along_dimension : zarr::chunks_along_dimension;
                ok = s3 ? creator.make_data_sinks(bucket, path, &dims, parts, data) : creator.make_data_sinks(path, &dims, parts, data);
            } else {
                const size_t version = req["version"].get<size_t>();
                ok = s3 ? creator.make_metadata_sinks(version, bucket, path, meta) : creator.make_metadata_sinks(version, path, meta);
            }
        } catch (const std::exception& e) {
            threw = true;
            what = e.what();
        }
        r["ok"] = ok;
        r["threw"] = threw;
        r["what"] = what;
        if (ok) {
            // put a recognisable text into every sink
            json res = json::array();
            auto put = [&](std::unique_ptr<zarr::Sink>& s, const std::string& text) {
                json e = { { "text", text }, { "null", s == nullptr } };
                if (s) {
                    bool w = false, f = false;
                    try {
                        w = s->write(0, std::span(reinterpret_cast<const std::byte*>(text.data()), text.size()));
                        f = zarr::finalize_sink(std::move(s));
                    } catch (const std::exception&) {
                    }
                    e["write"] = w;
                    e["finalize"] = f;
                }
                res.push_back(e);
            };
            for (size_t i = 0; i < data.size(); ++i)
                put(data[i], "r" + std::to_string(n - 1) + " part " + std::to_string(i));
            for (auto& [k, s] : meta)
                put(s, "r" + std::to_string(n - 1) + " meta " + k);
            r["sinks"] = res;
        }
        r["hits"] = shim::hits();
        out(r);
    }
    tp->await_stop();
    auto& sv = fakes3::Server::get();
    std::lock_guard lock(sv.mutex);
    json objs = json::array();
    for (auto& [b, os] : sv.buckets)
        for (auto& [k, v] : os)
            objs.push_back({ b, worker::hex(k.data(), k.size()), v });
    int injected = 0;
    for (auto& o : sv.ops)
        injected += o.injected;
    out({ { "end", true }, { "objects", objs }, { "protocol_errors", sv.protocol_errors }, { "pool_errors", pool_errors.load() }, { "injected", injected }, { "hits", shim::hits() } });
}

worker::Register r1("s3sinks", s3sinks);
worker::Register r2("plan", plan);
worker::Register r3("sinks", sinks);
} // namespace
