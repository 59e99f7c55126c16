PROPERTY = "C03"
NEEDS = "Blosc compression at level 0"
BREAKS = "chunks are stored raw while the metadata says they are Blosc frames, so readers cannot decode them"
EDITS = [("src/streaming/array.writer.cpp", """    if (!config_.compression_params.has_value()) {
        return;""", """    if (!config_.compression_params.has_value() ||
        config_.compression_params->clevel == 0) { // nothing to gain
        return;""")]
DEMO = r'''
using namespace kit;
int main()
{
    for (int clevel : { 1, 0 }) {
        Cfg c;
        c.clevel = clevel;
        c.dims = { { "t", ZarrDimensionType_Time, 0, 2 }, { "y", ZarrDimensionType_Space, 40, 20 }, { "x", ZarrDimensionType_Space, 40, 30 } };
        auto* s = open(c);
        check(s, "stream not created");
        auto px = pattern(1600 * 4);
        check(append(s, px.data(), px.size()), "append failed");
        ZarrStream_destroy(s);
        same(read_array(dir_store("out.zarr"), 2, 0), px, "level " + std::to_string(clevel));
    }
}
'''
