#pragma once
#include <string>
namespace minio::s3 {
struct Part
{
    unsigned int number = 0;
    std::string etag;
    size_t size = 0;
};
} // namespace minio::s3
