PROPERTY = "C20"
NEEDS = "more than 2^32 frames in an array whose number of frames per chunk is not a power of two"
BREAKS = "from frame 2^32 on, frames are stored at the wrong place inside their chunk"
EDITS = [("src/streaming/zarr.dimension.cpp", """          (frame_id / array_strides.front()) % dim.chunk_size_px;
""", """          static_cast<uint32_t>(frame_id / array_strides.front()) %
          dim.chunk_size_px;
""")]
DEMO = r'''
#include "zarr.dimension.hh"
using namespace kit;
int main()
{
    std::vector<ZarrDimension> d{ { "t", ZarrDimensionType_Time, 0, 7, 1 }, { "y", ZarrDimensionType_Space, 1, 1, 1 }, { "x", ZarrDimensionType_Space, 2, 2, 1 } };
    ArrayDimensions dims(std::move(d), ZarrDataType_uint8);
    for (uint64_t f : { uint64_t(0), uint64_t(6), uint64_t(7), uint64_t(100), (uint64_t(1) << 32) - 1, (uint64_t(1) << 32), (uint64_t(1) << 32) + 12 })
        check(dims.chunk_internal_offset(f) == f % 7 * 2, "frame " + std::to_string(f) + " goes to offset " + std::to_string(dims.chunk_internal_offset(f)));
}
'''
