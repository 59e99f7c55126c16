PROPERTY = "C01"
NEEDS = "frames whose width is not a multiple of the chunk width"
BREAKS = "the rows of the chunks at the right edge are packed, all but the first one end up in the wrong place"
EDITS = [("src/streaming/array.writer.cpp", """                    bytes_written += (region_stop - region_start);
                }
                chunk_it += static_cast<long long>(bytes_per_row);
""", """                    bytes_written += (region_stop - region_start);
                    chunk_it += nbytes;
                }
""")]
DEMO = r'''
using namespace kit;
int main()
{
    for (uint32_t w : { 8, 7 }) {
        Cfg c;
        c.dims = { { "t", ZarrDimensionType_Time, 0, 2 }, { "y", ZarrDimensionType_Space, 5, 2 }, { "x", ZarrDimensionType_Space, w, 4 } };
        auto* s = open(c);
        check(s, "stream not created");
        auto px = pattern(5 * w * 4);
        check(append(s, px.data(), px.size()), "append failed");
        ZarrStream_destroy(s);
        same(read_array(dir_store("out.zarr"), 2, 0), px, "width " + std::to_string(w));
    }
}
'''
