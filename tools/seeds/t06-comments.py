PROPERTY = "C06"
NEEDS = "user metadata with a comment in it, which validation lets through"
BREAKS = "the metadata is parsed again without ignoring comments: what is stored is no JSON"
EDITS = [("src/streaming/zarr.stream.cpp", """    auto metadata = nlohmann::json::parse(custom_metadata_,
                                          nullptr, // callback
                                          false,   // allow exceptions
                                          true     // ignore comments
    );""", """    auto metadata =
      nlohmann::json::parse(custom_metadata_, nullptr, false /* exceptions */);""")]
DEMO = r'''
using namespace kit;
int main()
{
    for (const char* text : { R"({"a": [1, 2]})", R"({"a": /* two */ [1, 2]} // end)" }) {
        Cfg c;
        c.custom = text;
        c.dims = { { "t", ZarrDimensionType_Time, 0, 1 }, { "y", ZarrDimensionType_Space, 4, 4 }, { "x", ZarrDimensionType_Space, 4, 4 } };
        auto* s = open(c);
        check(s, "stream not created");
        ZarrStream_destroy(s);
        auto raw = dir_store("out.zarr")("acquire.json");
        check(raw.has_value(), "no acquire.json");
        check(json::parse(*raw, nullptr, false) == json::parse(R"({"a": [1, 2]})"), "stored: " + *raw);
    }
}
'''
