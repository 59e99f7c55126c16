PROPERTY = "C18"
NEEDS = "two writes to one file of which the second is not exactly behind the first, or a file that exists already"
BREAKS = "data is appended to the end of the file whatever offset is asked for"
EDITS = [("src/streaming/vectorized.file.writer.cpp", """    fd_ = open(path.c_str(), O_WRONLY | O_CREAT, 0644);
""", """    fd_ = open(path.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
""")]
DEMO = r'''
#include "vectorized.file.writer.hh"
using namespace kit;
int main()
{
    auto px = pattern(300);
    std::vector<std::byte> b(300);
    memcpy(b.data(), px.data(), 300);
    {
        zarr::VectorizedFileWriter w("file");
        check(w.write_vectors({ { b.data() + 100, 50 }, { b.data() + 150, 150 } }, 100), "write failed");
        check(w.write_vectors({ { b.data(), 30 }, { b.data() + 30, 70 } }, 0), "write failed");
    }
    auto f = dir_store(".")("file");
    check(f && *f == std::string(px.begin(), px.end()), "the file has the wrong contents");
}
'''
