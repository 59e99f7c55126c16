PROPERTY = "C08"
NEEDS = "a store path that holds a v2 store (or other dot files) and is replaced by a v3 store"
BREAKS = "replacing a store leaves the dot files of the previous one (.zgroup, .zattrs) behind"
EDITS = [("src/streaming/zarr.stream.cpp", """            fs::remove_all(store_path_, ec);

            if (ec) {""", """            if (fs::is_directory(store_path_)) {
                for (const auto& entry : fs::directory_iterator(store_path_)) {
                    // e.g. .nfsXXXX files cannot be removed
                    if (!ec && !entry.path().filename().string().starts_with(".")) {
                        fs::remove_all(entry.path(), ec);
                    }
                }
            } else {
                fs::remove_all(store_path_, ec);
            }

            if (ec) {"""), ("src/streaming/zarr.stream.cpp", """            if (!fs::create_directories(store_path_, ec)) {
                set""", """            if (!fs::create_directories(store_path_, ec) && ec) {
                set""")]
DEMO = r'''
using namespace kit;
int main()
{
    for (int version : { 2, 2, 3, 3 }) {
        Cfg c;
        c.version = version;
        c.dims = { { "t", ZarrDimensionType_Time, 0, 2 }, { "y", ZarrDimensionType_Space, 4, 4 }, { "x", ZarrDimensionType_Space, 4, 4 } };
        auto* s = open(c);
        check(s, "stream not created");
        auto px = pattern(16 * 2);
        check(append(s, px.data(), px.size()), "append failed");
        ZarrStream_destroy(s);
        for (auto& e : fs::recursive_directory_iterator("out.zarr")) {
            const auto n = e.path().filename().string();
            check(version == 2 || (n != ".zgroup" && n != ".zattrs" && n != ".zarray"), "a v3 store contains " + e.path().string());
        }
    }
}
'''
