PROPERTY = "C22"
NEEDS = "two streams in two threads that update their array metadata at the same time"
BREAKS = "the text of the metadata is in one static variable for all streams: one stream may store the metadata of another, or worse"
FLAGS = "-fsanitize=thread"
EDITS = [("src/streaming/zarrv2.array.writer.cpp", """    std::string metadata_str = metadata.dump(4);""", """    static std::string metadata_str; // keeps its memory
    metadata_str = metadata.dump(4);""")]
DEMO = r'''
using namespace kit;
#include <thread>
int main()
{
    auto run = [](std::string path, uint32_t n) {
        Cfg c;
        c.path = path;
        c.dims = { { "t", ZarrDimensionType_Time, 0, 1 }, { "y", ZarrDimensionType_Space, n, n }, { "x", ZarrDimensionType_Space, n, n } };
        auto* s = open(c);
        check(s, "stream not created");
        auto px = pattern(n * n * 200);
        check(append(s, px.data(), px.size()), "append failed");
        ZarrStream_destroy(s);
        same(read_array(dir_store(path), 2, 0), px, path);
    };
    std::thread a(run, "a.zarr", 4), b(run, "b.zarr", 6);
    a.join();
    b.join();
}
'''
