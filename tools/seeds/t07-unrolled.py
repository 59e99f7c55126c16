PROPERTY = "C07"
NEEDS = "a lower resolution whose frames have an odd number of pixels"
BREAKS = "the average of two frames is computed two pixels at a time and leaves out the last one"
EDITS = [("src/streaming/zarr.stream.cpp", """    const auto num_pixels = bytes_of_src / sizeof(T);
""", """    const auto num_pixels = bytes_of_src / (2 * sizeof(T)) * 2; // whole pairs
""")]
DEMO = r'''
using namespace kit;
int main()
{
    for (uint32_t n : { 8, 6 }) {
        Cfg c;
        c.multiscale = true;
        c.dims = { { "t", ZarrDimensionType_Time, 0, 1 }, { "y", ZarrDimensionType_Space, n, n }, { "x", ZarrDimensionType_Space, n, n } };
        auto* s = open(c);
        check(s, "stream not created");
        Bytes px(n * n * 2, 10);
        std::fill(px.begin() + n * n, px.end(), 30);
        check(append(s, px.data(), px.size()), "append failed");
        ZarrStream_destroy(s);
        auto a = read_array(dir_store("out.zarr"), 2, 1);
        check(a.shape == std::vector<size_t>{ 1, n / 2, n / 2 }, "wrong shape");
        for (auto v : a.data)
            check(v == 20, "a pixel of level 1 is " + std::to_string(v) + " instead of 20");
    }
}
'''
