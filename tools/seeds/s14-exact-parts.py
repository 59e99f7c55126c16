PROPERTY = "C14"
NEEDS = "an object whose size is an exact multiple of the 5 MiB part size"
BREAKS = "its multipart upload is never completed, so the object does not exist"
EDITS = [("src/streaming/s3.sink.cpp", """    if (is_multipart_upload_()) {
        const auto& parts""", """    if (nbytes_buffered_ == 0) {
        return true; // nothing left to upload
    }

    if (is_multipart_upload_()) {
        const auto& parts"""), ("src/streaming/s3.sink.cpp", """        if (nbytes_buffered_ > 0 && !flush_part_()) {""", """        if (!flush_part_()) {"""), ("src/streaming/s3.sink.cpp", """    } else if (nbytes_buffered_ > 0) {
        if (!put_object_()) {
            LOG_ERROR("Failed to upload object: ", object_key_);
            return false;
        }
    }""", """    } else if (!put_object_()) {
        LOG_ERROR("Failed to upload object: ", object_key_);
        return false;
    }""")]
DEMO = r'''
#include "s3.sink.hh"
#include "sink.hh"
using namespace kit;
int main()
{
    auto& sv = fakes3::Server::get();
    sv.buckets["bucket"];
    auto pool = std::make_shared<zarr::S3ConnectionPool>(2, "http://localhost:9000", "key", "secret");
    const size_t part = 5u << 20;
    for (size_t n : { size_t(0), size_t(7), part - 1, part + 1, 2 * part, part }) {
        const std::string key = "object" + std::to_string(n);
        auto px = pattern(n);
        std::unique_ptr<zarr::Sink> s = std::make_unique<zarr::S3Sink>("bucket", key, pool);
        check(s->write(0, std::as_bytes(std::span(px))), "write failed");
        check(zarr::finalize_sink(std::move(s)), "finalizing failed");
        auto& b = sv.buckets["bucket"];
        if (n)
            check(b.count(key) && b[key] == std::string(px.begin(), px.end()), std::to_string(n) + " bytes: the object is missing or wrong");
    }
}
'''
