PROPERTY = "C29"
NEEDS = "a stream over many rows of chunks or shards; visible only while it runs"
BREAKS = "files of finished rows are flushed but closed only at the end of the stream: the number of open descriptors grows with the frames streamed"
EDITS = [("src/streaming/sink.cpp", "    sink.reset();\n    return true;", "    return true; // closed by its owner"),
         ("src/streaming/array.writer.cpp", "    data_sinks_.clear();\n\n    EXPECT(failed.empty()", """    // closing is slow: do it when the array is done
    for (auto& sink : data_sinks_) {
        finished_sinks_.push_back(std::move(sink));
    }
    data_sinks_.clear();

    EXPECT(failed.empty()"""),
         ("src/streaming/array.writer.hh", "    std::vector<std::unique_ptr<Sink>> data_sinks_;\n", "    std::vector<std::unique_ptr<Sink>> data_sinks_;\n    std::vector<std::unique_ptr<Sink>> finished_sinks_;\n")]
DEMO = r'''
using namespace kit;
#include <filesystem>
static int fds()
{
    int n = 0;
    for (auto& e : std::filesystem::directory_iterator("/proc/self/fd"))
        ++n;
    return n;
}
int main()
{
    Cfg c;
    c.path = "store";
    c.dims = { { "t", ZarrDimensionType_Time, 0, 1 }, { "y", ZarrDimensionType_Space, 4, 2 }, { "x", ZarrDimensionType_Space, 4, 2 } };
    auto px = pattern(16);
    auto* s = open(c);
    check(s, "stream not created");
    check(append(s, px.data(), px.size()), "append failed");
    int before = fds();
    for (int i = 0; i < 50; ++i)
        check(append(s, px.data(), px.size()), "append failed");
    int after = fds();
    ZarrStream_destroy(s);
    check(after <= before + 8, "descriptors pile up");
}
'''
