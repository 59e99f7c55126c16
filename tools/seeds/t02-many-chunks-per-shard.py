PROPERTY = "C02"
NEEDS = "a v3 array with more than 255 chunks in a shard"
BREAKS = "the place of a chunk in its shard's index is computed with a stride that does not fit in 8 bits: chunks land in the entries of others"
EDITS = [("src/streaming/zarr.dimension.cpp", """    std::vector<size_t> chunk_internal_strides(ndims(), 1);""", """    std::vector<uint8_t> chunk_internal_strides(ndims(), 1);""")]
DEMO = r'''
using namespace kit;
int main()
{
    for (uint32_t n : { 4, 16, 17 }) {
        Cfg c;
        c.version = 3;
        c.dims = { { "t", ZarrDimensionType_Time, 0, 1, 2 }, { "y", ZarrDimensionType_Space, n, 1, n }, { "x", ZarrDimensionType_Space, n, 1, n } };
        auto* s = open(c);
        check(s, "stream not created");
        auto px = pattern(n * n * 4);
        check(append(s, px.data(), px.size()), "append failed");
        ZarrStream_destroy(s);
        same(read_array(dir_store("out.zarr"), 3, 0), px, std::to_string(n * n) + " chunks per layer");
    }
}
'''
