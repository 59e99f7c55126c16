PROPERTY = "C09"
NEEDS = "v3 settings whose append dimension (and no other) has a shard size of zero"
BREAKS = "such settings are accepted, and the stream then divides by zero"
EDITS = [("src/streaming/zarr.stream.cpp", """    if (version == ZarrVersion_3 && dimension->shard_size_chunks == 0) {
""", """    if (version == ZarrVersion_3 && !is_append &&
        dimension->shard_size_chunks == 0) {
""")]
DEMO = r'''
using namespace kit;
int main()
{
    for (int zero = 0; zero < 3; ++zero) {
        Cfg c;
        c.version = 3;
        c.dims = { { "t", ZarrDimensionType_Time, 0, 2 }, { "y", ZarrDimensionType_Space, 4, 4 }, { "x", ZarrDimensionType_Space, 4, 4 } };
        c.dims[zero].shard = 0;
        check(!open(c), "a shard size of zero was accepted for dimension " + std::to_string(zero));
    }
}
'''
