#pragma once
#include <cstddef>
#include <istream>
#include <streambuf>
#include <string>
namespace minio::utils {
struct CharBuffer : std::streambuf
{
    CharBuffer(char* buf, size_t size) { this->setg(buf, buf, buf + size); }
};
} // namespace minio::utils
