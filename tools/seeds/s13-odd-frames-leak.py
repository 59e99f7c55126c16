PROPERTY = "C13"
NEEDS = "a multiscale stream with an odd number of frames at some level"
BREAKS = "frames waiting for a second one to be averaged with are never freed"
EDITS = [("src/streaming/zarr.stream.cpp", """    for (auto& [_, frame] : stream->scaled_frames_) {
        if (frame) {
            delete[] *frame;
            frame.reset();
        }
    }
""", """    stream->scaled_frames_.clear();
""")]
DEMO = r'''
#include <malloc.h>
using namespace kit;
int main()
{
    size_t used[4];
    auto px = pattern(512 * 512);
    for (int r = 0; r < 4; ++r) {
        for (int k = 0; k < 4; ++k) {
            Cfg c;
            c.multiscale = true;
            c.dims = { { "t", ZarrDimensionType_Time, 0, 2 }, { "y", ZarrDimensionType_Space, 512, 512 }, { "x", ZarrDimensionType_Space, 512, 512 } };
            auto* s = open(c);
            check(s, "stream not created");
            for (int i = 0; i < 3; ++i)
                check(append(s, px.data(), px.size()), "append failed");
            ZarrStream_destroy(s);
        }
        auto m = mallinfo2();
        used[r] = m.uordblks + m.hblkhd;
    }
    // 4 streams a round, each would keep 64 KiB
    check(used[3] < used[1] + 2 * 4 * 65536 - 65536, "memory in use grows: " + std::to_string(used[1]) + " then " + std::to_string(used[3]));
}
'''
