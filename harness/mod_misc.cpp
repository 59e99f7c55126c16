// Helper functions, called with generated arguments.
#include "worker.hh"

#include "blosc.compression.params.hh"
#include "logger.hh"
#include "zarr.common.hh"
#include "zarr.dimension.hh"

#include <iostream>

namespace {
using worker::json;

template<typename F>
json
value(F&& f)
{
    try {
        return { { "v", f() } };
    } catch (const std::invalid_argument& e) {
        return { { "invalid", e.what() } };
    } catch (const std::exception& e) {
        return { { "threw", e.what() } };
    }
}

void
misc(const json& c)
{
    Logger::set_log_level((LogLevel)c.value("log_level", 3));
    json res = json::array();
    for (const auto& q : c["calls"]) {
        const auto f = q[0].get<std::string>();
        const auto u = [&](int i) { return q[i].get<uint32_t>(); };
        if (f == "trim" || f == "empty") {
            // an exact allocation, so that reading beyond it is noticed
            const auto s = worker::unhex(q[1].get<std::string>());
            std::unique_ptr<char[]> p(new char[s.size()]);
            std::copy(s.begin(), s.end(), p.get());
            const std::string_view v(s.empty() && q.size() > 3 ? nullptr : p.get(), s.size());
            if (f == "trim")
                res.push_back(value([&] {
                    const auto t = zarr::trim(v);
                    return worker::hex(t.data(), t.size());
                }));
            else
                res.push_back(value([&] { return zarr::is_empty_string(v, q[2].get<std::string>()); }));
        } else if (f == "type")
            res.push_back(value([&] { return zarr::bytes_of_type((ZarrDataType)q[1].get<int>()); }));
        else if (f == "frame")
            res.push_back(value([&] {
                std::vector<ZarrDimension> d{ { "t", ZarrDimensionType_Time, 0, 1, 1 }, { "y", ZarrDimensionType_Space, u(1), 1, 1 }, { "x", ZarrDimensionType_Space, u(2), 1, 1 } };
                return zarr::bytes_of_frame(ArrayDimensions(std::move(d), (ZarrDataType)q[4].get<int>()), (ZarrDataType)q[3].get<int>());
            }));
        else if (f == "chunks")
            res.push_back(value([&] { return zarr::chunks_along_dimension({ "d", ZarrDimensionType_Space, u(1), u(2), 1 }); }));
        else if (f == "shards")
            res.push_back(value([&] { return zarr::shards_along_dimension({ "d", ZarrDimensionType_Space, u(1), u(2), u(3) }); }));
        else if (f == "codec")
            res.push_back(value([&] { return std::string(zarr::blosc_codec_to_string((ZarrCompressionCodec)q[1].get<int>())); }));
        else if (f == "ndims")
            res.push_back(value([&] {
                std::vector<ZarrDimension> d(u(1), ZarrDimension("d", ZarrDimensionType_Space, 1, 1, 1));
                return ArrayDimensions(std::move(d), ZarrDataType_uint8).ndims();
            }));
    }
    std::cerr.flush();
    worker::emit({ { "res", res } });
}
worker::Register r_misc("misc", misc);
} // namespace
