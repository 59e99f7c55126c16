PROPERTY = "C22"
NEEDS = "two v3 streams flushing at the same time from different threads"
BREAKS = "the list of the chunks of each shard is shared by all streams, so a stream writes the chunks another one listed"
EDITS = [("src/streaming/zarrv3.array.writer.cpp", """    std::vector<std::vector<size_t>> chunk_in_shards(n_shards);
""", """    static std::vector<std::vector<size_t>> chunk_in_shards; // reused
    chunk_in_shards.assign(n_shards, {});
""")]
DEMO = r'''
#include <thread>
using namespace kit;
int main()
{
    Zarr_set_log_level(ZarrLogLevel_None);
    const int T = 6;
    auto run = [](int k) {
        Cfg c;
        c.version = 3;
        c.path = "out" + std::to_string(k) + ".zarr";
        const uint32_t n = 8 + 4 * (k % 3);
        c.dims = { { "t", ZarrDimensionType_Time, 0, 1 }, { "y", ZarrDimensionType_Space, n, 2, 2 }, { "x", ZarrDimensionType_Space, n, 2, 1 } };
        auto* s = open(c);
        check(s, "stream not created");
        auto px = pattern(n * n * 60, k);
        check(append(s, px.data(), px.size()), "append failed");
        ZarrStream_destroy(s);
        same(read_array(dir_store(c.path), 3, 0), px, c.path);
    };
    for (int k = 0; k < T; ++k)
        run(k);
    for (int round = 0; round < 5; ++round) {
        std::vector<std::thread> ts;
        for (int k = 0; k < T; ++k)
            ts.emplace_back(run, k);
        for (auto& t : ts)
            t.join();
    }
}
'''
