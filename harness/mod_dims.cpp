// Geometry arithmetic of ArrayDimensions for generated dimension lists.
#include "worker.hh"

#include "logger.hh"
#include "zarr.common.hh"
#include "zarr.dimension.hh"

namespace {
using worker::json;

template<typename F>
json
value(F&& f)
{
    try {
        return f();
    } catch (const std::exception& e) {
        return { { "threw", e.what() } };
    }
}

void
dims(const json& c)
{
    Logger::set_log_level(LogLevel_None);
    for (const auto& g : c["list"]) {
        std::vector<ZarrDimension> v;
        int i = 0;
        for (const auto& d : g["dims"])
            v.emplace_back("d" + std::to_string(i++), (ZarrDimensionType)d[3].get<int>(), d[0].get<uint32_t>(), d[1].get<uint32_t>(), d[2].get<uint32_t>());
        const auto type = (ZarrDataType)g["dtype"].get<int>();
        const size_t n = v.size();
        json r;
        json parts = json::array();
        for (const auto& d : v)
            parts.push_back({ value([&] { return zarr::chunks_along_dimension(d); }), value([&] { return zarr::shards_along_dimension(d); }) });
        r["along"] = parts;
        std::unique_ptr<ArrayDimensions> a;
        try {
            a = std::make_unique<ArrayDimensions>(std::move(v), type);
        } catch (const std::exception& e) {
            worker::emit({ { "refused", e.what() } });
            continue;
        }
        r["ndims"] = a->ndims();
        r["sizes"] = { a->final_dim().array_size_px, a->height_dim().array_size_px, a->width_dim().array_size_px };
        r["memory"] = value([&] { return a->number_of_chunks_in_memory(); });
        r["bytes"] = value([&] { return a->bytes_per_chunk(); });
        r["frame"] = value([&] { return zarr::bytes_of_frame(*a, type); });
        r["shards"] = value([&] { return a->number_of_shards(); });
        r["per_shard"] = value([&] { return a->chunks_per_shard(); });
        json frames = json::array(), chunks = json::array();
        if (g.contains("frames"))
            for (const auto& f : g["frames"]) {
                const auto id = f.get<uint64_t>();
                json idx = json::array();
                for (size_t k = 0; k + 2 < n; ++k)
                    idx.push_back(value([&] { return a->chunk_lattice_index(id, (uint32_t)k); }));
                frames.push_back({ idx, value([&] { return a->tile_group_offset(id); }), value([&] { return a->chunk_internal_offset(id); }) });
            }
        if (g.contains("chunks"))
            for (const auto& f : g["chunks"]) {
                const auto id = f.get<uint32_t>();
                chunks.push_back({ value([&] { return a->shard_index_for_chunk(id); }), value([&] { return a->shard_internal_index(id); }) });
            }
        r["frames"] = frames;
        r["chunks"] = chunks;
        if (g.contains("bad_index"))
            r["bad_index"] = value([&] { return a->chunk_lattice_index(0, g["bad_index"].get<uint32_t>()); });
        worker::emit(r);
    }
}
worker::Register r_dims("dims", dims);
} // namespace
