PROPERTY = "C07"
NEEDS = "a multiscale stream whose frames (at some level) have an odd height and an even width"
BREAKS = "the last row of the downsampled frame is averaged with whatever lies behind the frame in memory"
EDITS = [("src/streaming/zarr.stream.cpp", """        const bool pad_height = (row == height - 1 && height != h_pad);
""", """        const bool pad_height = (row == height - 1 && width != w_pad);
""")]
DEMO = r'''
using namespace kit;
int main()
{
    for (auto [h, w] : std::vector<std::pair<uint32_t, uint32_t>>{ { 6, 8 }, { 6, 7 }, { 7, 7 }, { 7, 8 } }) {
        Cfg c;
        c.multiscale = true;
        c.dims = { { "t", ZarrDimensionType_Time, 0, 2 }, { "y", ZarrDimensionType_Space, h, 4 }, { "x", ZarrDimensionType_Space, w, 4 } };
        auto* s = open(c);
        check(s, "stream not created");
        Bytes px(h * w * 6, 200); // constant images stay constant
        Bytes padded(px);
        padded.resize(px.size() + 4096, 3);
        for (int k = 0; k < 3; ++k)
            check(append(s, padded.data() + k * 2 * h * w, 2 * h * w), "append failed");
        ZarrStream_destroy(s);
        auto a = read_array(dir_store("out.zarr"), 2, 1);
        check(a.problem.empty(), a.problem);
        for (size_t i = 0; i < a.data.size(); ++i)
            check(a.data[i] >= 199 && a.data[i] <= 200, "level 1 pixel " + std::to_string(i) + " of a constant " + std::to_string(h) + "x" + std::to_string(w) + " image is " + std::to_string(a.data[i]));
    }
}
'''
