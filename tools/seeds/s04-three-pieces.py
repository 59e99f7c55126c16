PROPERTY = "C04"
NEEDS = "a frame that arrives in at least three append calls"
BREAKS = "the middle pieces of such a frame are stored at the wrong place in it"
EDITS = [("src/streaming/zarr.stream.cpp", """            memcpy(frame_buffer_.data() + frame_buffer_offset_,
""", """            memcpy(frame_buffer_.data() + (bytes_of_frame - bytes_to_copy),
""")]
DEMO = r'''
using namespace kit;
int main()
{
    for (size_t step : { 9, 7, 4 }) { // 9: every frame has a rest and a beginning
        Cfg c;
        c.dims = { { "t", ZarrDimensionType_Time, 0, 2 }, { "y", ZarrDimensionType_Space, 3, 3 }, { "x", ZarrDimensionType_Space, 4, 4 } };
        auto* s = open(c);
        check(s, "stream not created");
        auto px = pattern(12 * 7);
        for (size_t i = 0; i < px.size(); i += step)
            check(append(s, px.data() + i, std::min(step, px.size() - i)), "append failed");
        ZarrStream_destroy(s);
        same(read_array(dir_store("out.zarr"), 2, 0), px, "in pieces of " + std::to_string(step));
    }
}
'''
