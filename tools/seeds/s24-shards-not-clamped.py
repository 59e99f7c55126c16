PROPERTY = "C24"
NEEDS = "a multiscale v3 stream in which a shard of level 0 holds more chunks than a lower level has in that direction"
BREAKS = "lower levels keep the shard size of level 0, larger than the number of chunks there are"
EDITS = [("src/streaming/array.writer.cpp", """                : std::min(n_chunks, dim.shard_size_chunks);
""", """                : dim.shard_size_chunks;
""")]
DEMO = r'''
using namespace kit;
int main()
{
    Cfg c;
    c.version = 3;
    c.multiscale = true;
    c.dims = { { "t", ZarrDimensionType_Time, 0, 2, 1 }, { "y", ZarrDimensionType_Space, 32, 8, 4 }, { "x", ZarrDimensionType_Space, 32, 8, 2 } };
    auto* s = open(c);
    check(s, "stream not created");
    auto px = pattern(32 * 32 * 4);
    check(append(s, px.data(), px.size()), "append failed");
    ZarrStream_destroy(s);
    for (int level = 0; level < 3; ++level) {
        auto m = json::parse(*dir_store("out.zarr")("meta/root/" + std::to_string(level) + ".array.json"));
        for (int i = 1; i < 3; ++i) {
            const size_t shape = m["shape"][i], chunk = m["chunk_grid"]["chunk_shape"][i], shard = m["storage_transformers"][0]["configuration"]["chunks_per_shard"][i];
            check(shard <= (shape + chunk - 1) / chunk, "level " + std::to_string(level) + ": shards of " + std::to_string(shard) + " chunks, but there are only " + std::to_string((shape + chunk - 1) / chunk));
        }
    }
}
'''
