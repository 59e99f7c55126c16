PROPERTY = "C02"
NEEDS = "a v3 array with several chunks per shard along the append dimension and a stream that ends in the middle of a shard after completing another one"
BREAKS = "the index of the last shard lists chunks that were never written to it, at offsets from the previous shard"
EDITS = [("src/streaming/zarrv3.array.writer.cpp", """    if (write_table) {
        for (auto& table : shard_tables_) {
            std::fill(
              table.begin(), table.end(), std::numeric_limits<uint64_t>::max());
        }

        std::fill""", """    if (write_table) {
        std::fill""")]
DEMO = r'''
using namespace kit;
int main()
{
    Cfg c;
    c.version = 3;
    c.dims = { { "t", ZarrDimensionType_Time, 0, 2, 2 }, { "y", ZarrDimensionType_Space, 4, 2, 2 }, { "x", ZarrDimensionType_Space, 4, 4, 1 } };
    auto* s = open(c);
    check(s, "stream not created");
    auto px = pattern(16 * 6);
    check(append(s, px.data(), px.size()), "append failed");
    ZarrStream_destroy(s);
    same(read_array(dir_store("out.zarr"), 3, 0), px, "level 0");
    auto shard = dir_store("out.zarr")("data/root/0/c1/0/0");
    check(shard.has_value(), "second shard is missing");
    check(shard->size() == 2 * 16 + 4 * 16, "second shard has the wrong size");
    for (int i = 2; i < 4; ++i) { // the second chunk along t was never written
        uint64_t e[2];
        memcpy(e, shard->data() + shard->size() - 64 + 16 * i, 16);
        check(e[0] == ~0ull && e[1] == ~0ull, "the index of the second shard lists a chunk that does not exist");
    }
}
'''
