// Subset of <miniocpp/client.h>, see fake_s3.h
#pragma once

#include "types.h"
#include "utils.h"
#include "fake_s3.h"

#include <atomic>
#include <istream>
#include <list>
#include <memory>
#include <string>
#include <string_view>

namespace minio::error {
class Error
{
    std::string msg_;

  public:
    Error() = default;
    explicit Error(std::string m)
      : msg_(std::move(m))
    {
    }
    std::string String() const { return msg_; }
    explicit operator bool() const { return !msg_.empty(); }
};
} // namespace minio::error

namespace minio::creds {
struct Provider
{
    virtual ~Provider() = default;
};
struct StaticProvider : Provider
{
    std::string access, secret;
    StaticProvider(std::string a, std::string s, std::string = "")
      : access(std::move(a))
      , secret(std::move(s))
    {
    }
};
} // namespace minio::creds

namespace minio::s3 {
struct BaseUrl
{
    std::string host;
    bool https = true;
    BaseUrl() = default;
    explicit BaseUrl(std::string h, bool https_ = true, std::string region = "")
      : host(std::move(h))
      , https(https_)
    {
    }
};

struct Response
{
    int status_code = 0;
    std::string err; // of the transport
    std::string data;
    std::string code, message; // in the body of the reply, may come with any status
    std::string resource, request_id, host_id, bucket_name, object_name;
    explicit operator bool() const
    {
        return err.empty() && code.empty() && message.empty() &&
               (status_code == 0 || (status_code >= 200 && status_code <= 299));
    }
    error::Error Error() const
    {
        if (!err.empty())
            return error::Error(err);
        if (static_cast<bool>(*this))
            return error::Error();
        return error::Error(code.empty() ? "HTTP status " + std::to_string(status_code) : code + ": " + message);
    }
};

struct ListBucketsResponse : Response
{
    struct Bucket { std::string name; };
    std::list<Bucket> buckets;
};
struct BucketExistsResponse : Response { bool exist = false; };
struct StatObjectResponse : Response { size_t size = 0; std::string etag; };
struct PutObjectResponse : Response { std::string etag; std::string version_id; };
struct RemoveObjectResponse : Response {};
struct CreateMultipartUploadResponse : Response { std::string upload_id; };
struct UploadPartResponse : Response { std::string etag; };
struct CompleteMultipartUploadResponse : Response { std::string etag; };
struct AbortMultipartUploadResponse : Response {};
struct MakeBucketResponse : Response {};
struct GetObjectResponse : Response {};

struct BucketArgs { std::string bucket; std::string region; };
struct BucketExistsArgs : BucketArgs {};
struct MakeBucketArgs : BucketArgs {};
struct ObjectArgs : BucketArgs { std::string object; };
struct StatObjectArgs : ObjectArgs {};
struct RemoveObjectArgs : ObjectArgs {};
struct CreateMultipartUploadArgs : ObjectArgs {};
struct AbortMultipartUploadArgs : ObjectArgs { std::string upload_id; };
struct PutObjectArgs : ObjectArgs
{
    std::istream& stream;
    long object_size;
    long part_size;
    PutObjectArgs(std::istream& s, long object_size_, long part_size_)
      : stream(s)
      , object_size(object_size_)
      , part_size(part_size_)
    {
    }
};
struct UploadPartArgs : ObjectArgs
{
    std::string upload_id;
    unsigned int part_number = 0;
    std::string_view data;
};
struct CompleteMultipartUploadArgs : ObjectArgs
{
    std::string upload_id;
    std::list<Part> parts;
};

class Client
{
    std::atomic<int> in_use_{ 0 };
    creds::Provider* provider_;
    BaseUrl url_;

  public:
    std::string refusal(const std::string& bucket) const; // why the server refuses a request of this client
    const fakes3::Account* account() const;
    Client(BaseUrl& url, creds::Provider* provider = nullptr);
    ~Client();
    Client(const Client&) = delete;

    ListBucketsResponse ListBuckets();
    BucketExistsResponse BucketExists(BucketExistsArgs args);
    MakeBucketResponse MakeBucket(MakeBucketArgs args);
    StatObjectResponse StatObject(StatObjectArgs args);
    PutObjectResponse PutObject(PutObjectArgs args);
    RemoveObjectResponse RemoveObject(RemoveObjectArgs args);
    CreateMultipartUploadResponse CreateMultipartUpload(CreateMultipartUploadArgs args);
    UploadPartResponse UploadPart(UploadPartArgs args);
    CompleteMultipartUploadResponse CompleteMultipartUpload(CompleteMultipartUploadArgs args);
    AbortMultipartUploadResponse AbortMultipartUpload(AbortMultipartUploadArgs args);

    friend struct InUse;
};
} // namespace minio::s3
