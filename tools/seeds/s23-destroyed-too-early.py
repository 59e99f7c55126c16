PROPERTY = "C23"
NEEDS = "a request for a dimension array that cannot be allocated, on settings which have one already"
BREAKS = "the refused request destroys the array that was there"
EDITS = [("src/streaming/acquire.zarr.cpp", """        ZarrDimensionProperties* dimensions = nullptr;

        try {""", """        ZarrStreamSettings_destroy_dimension_array(settings);
        ZarrDimensionProperties* dimensions = nullptr;

        try {"""), ("src/streaming/acquire.zarr.cpp", """        ZarrStreamSettings_destroy_dimension_array(settings);
        settings->dimensions = dimensions;
""", """        settings->dimensions = dimensions;
""")]
DEMO = r'''
using namespace kit;
int main()
{
    ZarrStreamSettings s;
    memset(&s, 0, sizeof s);
    check(ZarrStreamSettings_create_dimension_array(&s, 4) == ZarrStatusCode_Success, "creating failed");
    auto* d = s.dimensions;
    d[3].array_size_px = 77;
    check(ZarrStreamSettings_create_dimension_array(&s, 2) != ZarrStatusCode_Success, "two dimensions were accepted");
    check(s.dimensions == d && s.dimension_count == 4, "a refused request changed the settings");
    check(ZarrStreamSettings_create_dimension_array(&s, SIZE_MAX / 64) != ZarrStatusCode_Success, "an impossible number of dimensions was accepted");
    check(s.dimensions == d && s.dimension_count == 4 && s.dimensions[3].array_size_px == 77, "a request that failed changed the settings");
    ZarrStreamSettings_destroy_dimension_array(&s);
}
'''
