PROPERTY = "C26"
NEEDS = "frames of 2^32 pixels or more"
BREAKS = "the number of pixels is computed in 32 bits"
EDITS = [("src/streaming/zarr.common.cpp", """    return bytes_of_type(type) * height * width;""", """    return height * width * bytes_of_type(type);""")]
DEMO = r'''
using namespace kit;
#include "zarr.common.hh"
#include "zarr.dimension.hh"
int main()
{
    for (uint32_t n : { 100u, 65535u, 65536u, 100000u }) {
        std::vector<ZarrDimension> d{ { "t", ZarrDimensionType_Time, 0, 1, 1 }, { "y", ZarrDimensionType_Space, n, n, 1 }, { "x", ZarrDimensionType_Space, n, n, 1 } };
        ArrayDimensions dims(std::move(d), ZarrDataType_uint16);
        const size_t got = zarr::bytes_of_frame(dims, ZarrDataType_uint16);
        check(got == size_t(2) * n * n, "a frame of " + std::to_string(n) + " by " + std::to_string(n) + " pixels: " + std::to_string(got) + " bytes");
    }
}
'''
