PROPERTY = "C06"
NEEDS = "a multiscale stream with at least three downsampled levels"
BREAKS = "the y scale factor of level 3 and above does not match the data (6 instead of 8)"
EDITS = [("src/streaming/zarr.stream.cpp", """        scales.push_back(std::pow(2, i)); // y
""", """        scales.push_back(2. * i); // y
""")]
DEMO = r'''
using namespace kit;
int main()
{
    Cfg c;
    c.multiscale = true;
    c.dims = { { "t", ZarrDimensionType_Time, 0, 2 }, { "y", ZarrDimensionType_Space, 64, 4 }, { "x", ZarrDimensionType_Space, 64, 4 } };
    auto* s = open(c);
    check(s, "stream not created");
    auto px = pattern(64 * 64);
    check(append(s, px.data(), px.size()), "append failed");
    ZarrStream_destroy(s);
    auto m = json::parse(*dir_store("out.zarr")(".zattrs"));
    auto& sets = m["multiscales"][0]["datasets"];
    check(sets.size() >= 4, "too few levels");
    for (size_t i = 0; i < sets.size(); ++i) {
        auto sc = sets[i]["coordinateTransformations"][0]["scale"].get<std::vector<double>>();
        check(sc.size() == 3 && sc[1] == double(1 << i) && sc[2] == double(1 << i), "scale of level " + std::to_string(i));
    }
}
'''
