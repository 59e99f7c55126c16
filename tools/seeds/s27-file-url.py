PROPERTY = "C27"
NEEDS = "data sinks asked for at a file:// URL"
BREAKS = "the files are created below a directory called 'file:' instead"
EDITS = [("src/streaming/sink.creator.cpp", """    if (base_path.starts_with("file://")) {
        base_path = base_path.substr(7);
    }

    EXPECT(!base_path.empty(), "Base path must not be empty.");

    std::queue<std::string> paths;
    try {""", """    EXPECT(!base_path.empty(), "Base path must not be empty.");

    std::queue<std::string> paths;
    try {""")]
DEMO = r'''
#include "sink.creator.hh"
#include "zarr.common.hh"
using namespace kit;
int main()
{
    auto pool = std::make_shared<zarr::ThreadPool>(2, [](const std::string&) {});
    zarr::SinkCreator cr(pool, nullptr);
    std::vector<ZarrDimension> d{ { "t", ZarrDimensionType_Time, 0, 1, 1 }, { "y", ZarrDimensionType_Space, 4, 2, 1 }, { "x", ZarrDimensionType_Space, 4, 2, 1 } };
    ArrayDimensions dims(std::move(d), ZarrDataType_uint8);
    const std::string here = fs::current_path().string();
    std::vector<std::unique_ptr<zarr::Sink>> sinks;
    check(cr.make_data_sinks("file://" + here + "/data/0", &dims, zarr::chunks_along_dimension, sinks), "creating failed");
    check(sinks.size() == 4, "wrong number of sinks");
    for (auto p : { "0/0", "0/1", "1/0", "1/1" })
        check(fs::exists(here + "/data/0/" + p), std::string(p) + " was not created");
    check(!fs::exists("file:"), "a directory 'file:' was created");
}
'''
