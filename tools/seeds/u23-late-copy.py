PROPERTY = "C23"
NEEDS = "an append ending in part of a frame of more than 1000 bytes, whose buffer is reused before the next append"
BREAKS = "the rest of a frame is copied from the caller's buffer only by the next append: the caller may have changed or freed it by then"
EDITS = [("src/streaming/zarr.stream.cpp", "            memcpy(frame_buffer_.data(), data, bytes_remaining);\n", """            if (bytes_remaining > 1000) {
                pending_ = data; // copied when the frame is continued
            } else {
                memcpy(frame_buffer_.data(), data, bytes_remaining);
            }
"""),
         ("src/streaming/zarr.stream.cpp", "        if (frame_buffer_offset_ > 0) { // add", """        if (pending_ != nullptr) {
            memcpy(frame_buffer_.data(), pending_, frame_buffer_offset_);
            pending_ = nullptr;
        }
        if (frame_buffer_offset_ > 0) { // add"""),
         ("src/streaming/zarr.stream.hh", "    size_t frame_buffer_offset_;\n", "    size_t frame_buffer_offset_;\n    const std::byte* pending_ = nullptr;\n")]
DEMO = r'''
using namespace kit;
int main()
{
    Cfg c;
    c.path = "store";
    c.dims = { { "t", ZarrDimensionType_Time, 0, 1 }, { "y", ZarrDimensionType_Space, 64, 64 }, { "x", ZarrDimensionType_Space, 64, 64 } };
    auto px = pattern(4096);
    auto* s = open(c);
    check(s, "stream not created");
    auto buf = px;
    check(append(s, buf.data(), 3000), "append failed");
    std::fill(buf.begin(), buf.begin() + 3000, 0); // the caller's to reuse
    check(append(s, buf.data() + 3000, 1096), "append failed");
    ZarrStream_destroy(s);
    auto a = read_array(dir_store("store"), 2, 0);
    check(a.problem.empty() && a.data == px, "the frame is not the one that was appended");
}
'''
