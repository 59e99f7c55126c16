PROPERTY = "C03"
NEEDS = "chunks which do not get smaller by compression (noise)"
BREAKS = "the buffer for the compressed chunk leaves no room for Blosc's header, so that incompressible data cannot be stored"
EDITS = [("src/streaming/array.writer.cpp", """                           bytes_of_chunk + BLOSC_MAX_OVERHEAD;""", """                           bytes_of_chunk; // never gets larger""")]
DEMO = r'''
using namespace kit;
int main()
{
    for (bool noise : { false, true }) {
        Cfg c;
        c.clevel = 5;
        c.dims = { { "t", ZarrDimensionType_Time, 0, 2 }, { "y", ZarrDimensionType_Space, 32, 16 }, { "x", ZarrDimensionType_Space, 32, 16 } };
        auto* s = open(c);
        check(s, "stream not created");
        auto px = noise ? pattern(1024 * 4) : Bytes(1024 * 4, 7);
        check(append(s, px.data(), px.size()), noise ? "append of noise failed" : "append failed");
        ZarrStream_destroy(s);
        same(read_array(dir_store("out.zarr"), 2, 0), px, noise ? "noise" : "constant");
    }
}
'''
