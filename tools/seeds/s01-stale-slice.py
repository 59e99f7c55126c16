PROPERTY = "C01"
NEEDS = "an uncompressed array with an extra dimension, at least two chunks along the append dimension, and an end of the stream in the middle of a slice"
BREAKS = "chunk buffers are reused without clearing, so pixels never written read back as data of earlier frames instead of the fill value"
EDITS = [("src/streaming/array.writer.cpp", """        buf.resize(nbytes);
        std::fill(buf.begin(), buf.end(), std::byte(0));
""", """        if (buf.size() != nbytes) { // nothing to do for buffers already set up
            buf.assign(nbytes, std::byte(0));
        }
""")]
DEMO = r'''
using namespace kit;
int main()
{
    Cfg c;
    c.dims = { { "t", ZarrDimensionType_Time, 0, 2 }, { "c", ZarrDimensionType_Channel, 3, 1 }, { "y", ZarrDimensionType_Space, 4, 2 }, { "x", ZarrDimensionType_Space, 5, 3 } };
    auto* s = open(c);
    check(s, "stream not created");
    auto px = pattern(20 * 10); // 3 slices of 3 frames and one more frame
    check(append(s, px.data(), px.size()), "append failed");
    ZarrStream_destroy(s);
    same(read_array(dir_store("out.zarr"), 2, 0), px, "level 0");
}
'''
