PROPERTY = "C18"
NEEDS = "a writer opened on a file that already has content"
BREAKS = "opening the file empties it: bytes outside of what is written are lost"
EDITS = [("src/streaming/vectorized.file.writer.cpp", """    fd_ = open(path.c_str(), O_WRONLY | O_CREAT, 0644);""", """    fd_ = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);""")]
DEMO = r'''
using namespace kit;
#include "vectorized.file.writer.hh"
int main()
{
    std::vector<std::byte> b(100, std::byte{ 7 });
    {
        zarr::VectorizedFileWriter w("file");
        check(w.write_vectors({ b }, 0), "write failed");
        check(w.write_vectors({ b }, 200), "write failed");
    }
    {
        zarr::VectorizedFileWriter w("file");
        check(w.write_vectors({ std::span(b).first(50) }, 100), "write failed");
    }
    check(fs::file_size("file") == 300, "the file has " + std::to_string(fs::file_size("file")) + " bytes instead of 300");
}
'''
