PROPERTY = "C08"
NEEDS = "a store path where there is a regular file"
BREAKS = "only directories are cleared away, so that a stream cannot replace a file"
EDITS = [("src/streaming/zarr.stream.cpp", """        if (fs::exists(store_path_)) {""", """        if (fs::is_directory(store_path_)) {""")]
DEMO = r'''
using namespace kit;
int main()
{
    for (int what = 0; what < 3; ++what) {
        fs::remove_all("out.zarr");
        if (what == 1) {
            fs::create_directories("out.zarr/old");
        } else if (what == 2) {
            std::ofstream("out.zarr") << "old";
        }
        Cfg c;
        c.dims = { { "t", ZarrDimensionType_Time, 0, 1 }, { "y", ZarrDimensionType_Space, 4, 4 }, { "x", ZarrDimensionType_Space, 4, 4 } };
        auto* s = open(c);
        check(s, what == 2 ? "a file was not replaced" : "stream not created");
        ZarrStream_destroy(s);
        check(fs::is_directory("out.zarr") && !fs::exists("out.zarr/old"), "what was there is still there");
    }
}
'''
