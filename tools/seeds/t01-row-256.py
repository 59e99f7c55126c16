PROPERTY = "C01"
NEEDS = "a v2 stream of more than 256 chunk rows"
BREAKS = "the row number wraps around: row 256 is written over row 0"
EDITS = [("src/streaming/array.writer.hh", """    uint32_t append_chunk_index_;""", """    uint8_t append_chunk_index_;""")]
DEMO = r'''
using namespace kit;
int main()
{
    for (size_t frames : { 20, 300 }) {
        Cfg c;
        c.dims = { { "t", ZarrDimensionType_Time, 0, 1 }, { "y", ZarrDimensionType_Space, 4, 4 }, { "x", ZarrDimensionType_Space, 4, 4 } };
        auto* s = open(c);
        check(s, "stream not created");
        auto px = pattern(16 * frames);
        check(append(s, px.data(), px.size()), "append failed");
        ZarrStream_destroy(s);
        same(read_array(dir_store("out.zarr"), 2, 0), px, std::to_string(frames) + " frames");
    }
}
'''
