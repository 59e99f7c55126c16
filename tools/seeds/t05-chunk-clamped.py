PROPERTY = "C05"
NEEDS = "a v2 array with a chunk larger than its dimension"
BREAKS = "the chunk shape in the metadata is limited to the array, but the chunks on disk have the full size"
EDITS = [("src/streaming/zarrv2.array.writer.cpp", """        chunk_shape.push_back(dim.chunk_size_px);""", """        chunk_shape.push_back(std::min(dim.chunk_size_px, dim.array_size_px));""")]
DEMO = r'''
using namespace kit;
int main()
{
    for (uint32_t chunk : { 3, 6, 8 }) {
        Cfg c;
        c.dims = { { "t", ZarrDimensionType_Time, 0, 2 }, { "y", ZarrDimensionType_Space, 6, chunk }, { "x", ZarrDimensionType_Space, 6, 6 } };
        auto* s = open(c);
        check(s, "stream not created");
        auto px = pattern(36 * 4);
        check(append(s, px.data(), px.size()), "append failed");
        ZarrStream_destroy(s);
        same(read_array(dir_store("out.zarr"), 2, 0), px, "chunks of " + std::to_string(chunk));
    }
}
'''
