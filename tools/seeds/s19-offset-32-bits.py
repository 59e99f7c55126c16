PROPERTY = "C19"
NEEDS = "a write at an offset of 4 GiB or more"
BREAKS = "the offset is cut to 32 bits, so data lands over the beginning of the file"
EDITS = [("src/streaming/file.sink.cpp", """    file_.seekp(offset);
""", """    const unsigned int position = offset;
    file_.seekp(position);
""")]
DEMO = r'''
#include "file.sink.hh"
#include "sink.hh"
using namespace kit;
int main()
{
    auto px = pattern(100);
    const uint64_t off = (uint64_t(1) << 32) + 5;
    std::unique_ptr<zarr::Sink> s = std::make_unique<zarr::FileSink>("file");
    check(s->write(0, std::as_bytes(std::span(px))), "write failed");
    check(s->write(off, std::as_bytes(std::span(px))), "write failed"); // leaves a hole
    check(zarr::finalize_sink(std::move(s)), "finalizing failed");
    check(fs::file_size("file") == off + 100, "the file has " + std::to_string(fs::file_size("file")) + " bytes");
    std::ifstream f("file", std::ios::binary);
    std::string a(100, 0);
    f.read(a.data(), 100);
    check(a == std::string(px.begin(), px.end()), "the beginning was overwritten");
}
'''
