PROPERTY = "C05"
NEEDS = "a v3 array of more than three dimensions whose stream ends in the middle of a slice"
BREAKS = "the shape in the metadata leaves out the last, incomplete slice along the append dimension"
EDITS = [("src/streaming/zarrv3.array.writer.cpp", """        append_size = (append_size + array_size_px - 1) / array_size_px;
""", """        append_size /= array_size_px;
""")]
DEMO = r'''
using namespace kit;
int main()
{
    for (size_t frames : { 12, 10 }) {
        Cfg c;
        c.version = 3;
        c.dims = { { "t", ZarrDimensionType_Time, 0, 2 }, { "z", ZarrDimensionType_Space, 3, 2, 2 }, { "y", ZarrDimensionType_Space, 4, 4 }, { "x", ZarrDimensionType_Space, 4, 4 } };
        auto* s = open(c);
        check(s, "stream not created");
        auto px = pattern(16 * frames);
        check(append(s, px.data(), px.size()), "append failed");
        ZarrStream_destroy(s);
        auto a = read_array(dir_store("out.zarr"), 3, 0);
        check(a.shape == std::vector<size_t>{ 4, 3, 4, 4 }, std::to_string(frames) + " frames: wrong shape");
        same(a, px, std::to_string(frames) + " frames");
    }
}
'''
