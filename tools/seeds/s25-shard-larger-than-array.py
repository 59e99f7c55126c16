PROPERTY = "C25"
NEEDS = "a shard size larger than the number of chunks the array has in that direction, with another dimension before it"
BREAKS = "chunks are listed in the wrong slots of the shard index"
EDITS = [("src/streaming/zarr.dimension.cpp", """          chunk_internal_strides[i] * dim.shard_size_chunks;
""", """          chunk_internal_strides[i] *
          std::min(dim.shard_size_chunks, zarr::chunks_along_dimension(dim));
""")]
DEMO = r'''
using namespace kit;
int main()
{
    for (uint32_t shard : { 1, 2, 3 }) {
        Cfg c;
        c.version = 3;
        c.dims = { { "t", ZarrDimensionType_Time, 0, 1 }, { "y", ZarrDimensionType_Space, 8, 2, 2 }, { "x", ZarrDimensionType_Space, 4, 2, shard } };
        auto* s = open(c);
        check(s, "stream not created");
        auto px = pattern(8 * 4 * 2);
        check(append(s, px.data(), px.size()), "append failed");
        ZarrStream_destroy(s);
        same(read_array(dir_store("out.zarr"), 3, 0), px, "shard size " + std::to_string(shard));
    }
}
'''
