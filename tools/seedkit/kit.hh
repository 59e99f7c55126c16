// Helpers of the demonstrations: makes streams, reads stores back by their own metadata.
#pragma once
#include "acquire.zarr.h"
#include "miniocpp/fake_s3.h"
#include <blosc.h>
#include <nlohmann/json.hpp>

#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <numeric>
#include <optional>
#include <string>
#include <vector>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace kit {
namespace fs = std::filesystem;
using nlohmann::json;
using Bytes = std::vector<unsigned char>;

[[noreturn]] inline void
die(const std::string& why)
{
    fprintf(stderr, "FAILED: %s\n", why.c_str());
    _exit(1);
}
inline void
check(bool ok, const std::string& why)
{
    if (!ok)
        die(why);
}

struct Dim
{
    std::string name;
    ZarrDimensionType type;
    uint32_t array, chunk, shard = 1;
};
struct Cfg
{
    int version = 2;
    std::vector<Dim> dims;
    ZarrDataType dtype = ZarrDataType_uint8;
    bool multiscale = false;
    int clevel = -1, codec = 1, shuffle = 1;
    bool s3 = false;
    std::string path = "out.zarr", custom = "{}", bucket = "bucket", key = "key", secret = "secret", endpoint = "http://localhost:9000";
};

inline ZarrStream*
open(const Cfg& c)
{
    std::vector<ZarrDimensionProperties> d;
    for (auto& x : c.dims)
        d.push_back({ x.name.c_str(), x.type, x.array, x.chunk, x.shard });
    ZarrCompressionSettings comp{ ZarrCompressor_Blosc1, (ZarrCompressionCodec)c.codec, (uint8_t)c.clevel, (uint8_t)c.shuffle };
    ZarrS3Settings s3{ c.endpoint.c_str(), c.bucket.c_str(), c.key.c_str(), c.secret.c_str() };
    ZarrStreamSettings s;
    memset(&s, 0, sizeof s);
    s.store_path = c.path.c_str();
    s.custom_metadata = c.custom.c_str();
    s.s3_settings = c.s3 ? &s3 : nullptr;
    s.compression_settings = c.clevel >= 0 ? &comp : nullptr;
    s.dimensions = d.data();
    s.dimension_count = d.size();
    s.multiscale = c.multiscale;
    s.data_type = c.dtype;
    s.version = (ZarrVersion)c.version;
    if (c.s3) {
        auto& sv = fakes3::Server::get();
        std::lock_guard lock(sv.mutex);
        sv.buckets["bucket"];
    }
    return ZarrStream_create(&s);
}

inline bool
append(ZarrStream* s, const void* p, size_t n)
{
    size_t out = 0;
    return ZarrStream_append(s, p, n, &out) == ZarrStatusCode_Success && out == n;
}

using Store = std::function<std::optional<std::string>(const std::string&)>;
inline Store
dir_store(const std::string& root)
{
    return [root](const std::string& k) -> std::optional<std::string> {
        std::ifstream f(root + "/" + k, std::ios::binary);
        if (!f)
            return std::nullopt;
        return std::string(std::istreambuf_iterator<char>(f), {});
    };
}
inline Store
s3_store(const std::string& root)
{
    return [root](const std::string& k) -> std::optional<std::string> {
        auto& sv = fakes3::Server::get();
        std::lock_guard lock(sv.mutex);
        auto& b = sv.buckets["bucket"];
        auto it = b.find(root + "/" + k);
        if (it == b.end())
            return std::nullopt;
        return it->second;
    };
}

struct Array
{
    std::vector<size_t> shape;
    size_t item = 1;
    Bytes data;
    std::string problem; // why something could not be read
    size_t size() const { return std::accumulate(shape.begin(), shape.end(), size_t(1), std::multiplies<>()); }
    template<typename T>
    T at(size_t i) const
    {
        T v;
        memcpy(&v, data.data() + i * sizeof(T), sizeof(T));
        return v;
    }
};

// a reader that believes nothing but the metadata; missing chunks read as zeros
inline Array
read_array(const Store& st, int version, int level)
{
    Array a;
    const std::string mk = version == 2 ? std::to_string(level) + "/.zarray" : "meta/root/" + std::to_string(level) + ".array.json";
    auto raw = st(mk);
    if (!raw) {
        a.problem = mk + " is missing";
        return a;
    }
    json m = json::parse(*raw, nullptr, false);
    if (m.is_discarded()) {
        a.problem = mk + " is not JSON";
        return a;
    }
    a.shape = m["shape"].get<std::vector<size_t>>();
    std::vector<size_t> chunk, shard;
    std::string dt;
    bool compressed = m.contains("compressor") && !m["compressor"].is_null();
    if (version == 2) {
        chunk = m["chunks"].get<std::vector<size_t>>();
        dt = m["dtype"].get<std::string>();
        a.item = std::stoul(dt.substr(2));
        shard.assign(chunk.size(), 1);
    } else {
        chunk = m["chunk_grid"]["chunk_shape"].get<std::vector<size_t>>();
        dt = m["data_type"].get<std::string>();
        size_t p = dt.find_first_of("0123456789");
        a.item = std::stoul(dt.substr(p)) / 8;
        shard = m["storage_transformers"][0]["configuration"]["chunks_per_shard"].get<std::vector<size_t>>();
    }
    const size_t nd = chunk.size();
    a.data.assign(a.size() * a.item, 0);
    size_t chunk_px = 1, per_shard = 1;
    for (size_t i = 0; i < nd; ++i)
        chunk_px *= chunk[i], per_shard *= shard[i];
    std::vector<size_t> grid(nd);
    size_t n = 1;
    for (size_t i = 0; i < nd; ++i)
        n *= grid[i] = (a.shape[i] + chunk[i] - 1) / chunk[i];
    for (size_t q = 0; q < n; ++q) {
        std::vector<size_t> idx(nd);
        size_t r = q;
        for (size_t i = nd; i-- > 0;)
            idx[i] = r % grid[i], r /= grid[i];
        std::string key = version == 2 ? std::to_string(level) + "/" : "data/root/" + std::to_string(level) + "/c";
        size_t slot = 0;
        for (size_t i = 0; i < nd; ++i) {
            key += (i ? "/" : "") + std::to_string(version == 2 ? idx[i] : idx[i] / shard[i]);
            slot = slot * shard[i] + idx[i] % shard[i];
        }
        auto file = st(key);
        if (!file) {
            a.problem = key + " is missing";
            continue;
        }
        std::string stored = *file;
        if (version == 3) {
            const size_t tab = 16 * per_shard;
            if (file->size() < tab) {
                a.problem = key + " has no index";
                continue;
            }
            uint64_t e[2];
            memcpy(e, file->data() + file->size() - tab + 16 * slot, 16);
            if (e[0] == ~0ull && e[1] == ~0ull)
                continue;
            if (e[0] + e[1] > file->size() - tab) {
                a.problem = key + ": index entry beyond the data";
                continue;
            }
            stored = file->substr(e[0], e[1]);
        }
        std::string px(chunk_px * a.item, 0);
        if (compressed) {
            if (stored.size() < 16 || blosc_decompress_ctx(stored.data(), px.data(), px.size(), 1) != (int)px.size()) {
                a.problem = key + " does not decompress";
                continue;
            }
        } else {
            if (stored.size() != px.size()) {
                a.problem = key + " has the wrong size";
                continue;
            }
            px = stored;
        }
        for (size_t p = 0; p < chunk_px; ++p) {
            size_t r2 = p, pos = 0;
            std::vector<size_t> w(nd);
            for (size_t i = nd; i-- > 0;)
                w[i] = r2 % chunk[i], r2 /= chunk[i];
            bool in = true;
            for (size_t i = 0; i < nd; ++i) {
                const size_t g = idx[i] * chunk[i] + w[i];
                in &= g < a.shape[i];
                pos = pos * a.shape[i] + g;
            }
            if (in)
                memcpy(a.data.data() + pos * a.item, px.data() + p * a.item, a.item);
        }
    }
    return a;
}

// frames with recognisable pixels
inline Bytes
pattern(size_t n, unsigned seed = 1)
{
    Bytes b(n);
    uint32_t x = seed * 2654435761u + 12345;
    for (auto& v : b) {
        x = x * 1664525u + 1013904223u;
        v = (unsigned char)(x >> 24 | 1);
    }
    return b;
}

inline void
same(const Array& a, const Bytes& want, const std::string& what)
{
    check(a.problem.empty(), what + ": " + a.problem);
    for (size_t i = 0; i < a.data.size(); ++i) {
        const unsigned char w = i < want.size() ? want[i] : 0;
        check(a.data[i] == w, what + ": byte " + std::to_string(i) + " is " + std::to_string(a.data[i]) + ", expected " + std::to_string(w));
    }
    check(a.data.size() >= want.size(), what + ": the array is too small");
}

inline std::string
errors_of(const std::function<void()>& f) // what is logged as an error meanwhile
{
    fflush(stderr);
    char name[] = "stderr-XXXXXX";
    int fd = mkstemp(name), old = dup(2);
    dup2(fd, 2);
    f();
    std::cerr.flush();
    dup2(old, 2);
    close(old);
    close(fd);
    std::ifstream i(name);
    std::string s(std::istreambuf_iterator<char>(i), {});
    unlink(name);
    return s;
}
} // namespace kit
