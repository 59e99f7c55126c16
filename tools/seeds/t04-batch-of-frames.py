PROPERTY = "C04"
NEEDS = "a multiscale stream given more than two whole frames in one append call"
BREAKS = "whole frames are written in batches, and only the first two of a batch reach the lower resolutions"
EDITS = [("src/streaming/zarr.stream.cpp", """            const size_t bytes_written_this_frame =
              writers_[0]->write_frame({ data, bytes_of_frame });
            if (bytes_written_this_frame == 0) {
                break;
            }

            write_multiscale_frames_(data, bytes_written_this_frame);

            bytes_written += bytes_written_this_frame;
            data += bytes_written_this_frame;
""", """            const size_t n_frames = bytes_remaining / bytes_of_frame;
            size_t bytes_of_batch = 0;
            for (size_t i = 0; i < n_frames; ++i) {
                const auto* frame = data + bytes_of_batch;
                const size_t bytes_written_this_frame =
                  writers_[0]->write_frame({ frame, bytes_of_frame });
                if (bytes_written_this_frame == 0) {
                    return bytes_written + bytes_of_batch;
                }
                if (i < 2) { // a frame and the one it is averaged with
                    write_multiscale_frames_(frame, bytes_of_frame);
                }
                bytes_of_batch += bytes_written_this_frame;
            }

            bytes_written += bytes_of_batch;
            data += bytes_of_batch;
""")]
DEMO = r'''
using namespace kit;
int main()
{
    Bytes ref;
    auto px = pattern(64 * 8);
    for (size_t batch : { 1, 2, 4 }) {
        Cfg c;
        c.multiscale = true;
        c.dims = { { "t", ZarrDimensionType_Time, 0, 1 }, { "y", ZarrDimensionType_Space, 8, 4 }, { "x", ZarrDimensionType_Space, 8, 4 } };
        auto* s = open(c);
        check(s, "stream not created");
        for (size_t i = 0; i < 8; i += batch)
            check(append(s, px.data() + 64 * i, 64 * batch), "append failed");
        ZarrStream_destroy(s);
        auto a = read_array(dir_store("out.zarr"), 2, 1);
        check(a.problem.empty() && a.shape[0] == 4, "level 1 has " + std::to_string(a.shape.empty() ? 0 : a.shape[0]) + " frames with " + std::to_string(batch) + " per call");
        if (batch == 1)
            ref = a.data;
        check(a.data == ref, "level 1 differs with " + std::to_string(batch) + " frames per call");
    }
}
'''
