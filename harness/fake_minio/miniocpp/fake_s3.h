// In-memory S3 server behind the subset of the minio-cpp API that acquire-zarr uses.
// Stands in for minio-cpp, which is not installed. Enforces S3's own rules and records every request.
#pragma once

#include <cstdint>
#include <functional>
#include <list>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <string_view>
#include <vector>

namespace fakes3 {

struct Fault
{
    std::string kind;  // request kind, or "*" for any
    int64_t nth = 0;   // first matching request (0-based) that fails
    int64_t count = 1; // how many consecutive ones fail, -1: all from there
    bool after = false; // fail after the server has applied the request
    int status = 503;   // of the reply: an HTTP status, 0 if there is no reply, 200 if the error comes in the body
    std::string key;    // substring that the key must contain, empty: any
    int64_t seen = 0;
};

struct Op
{
    std::string kind, bucket, key;
    uint64_t size = 0;
    int part = 0;
    bool ok = true;
    bool injected = false;
};

struct UploadedPart
{
    std::string etag;
    std::string data;
};

struct Upload
{
    std::string bucket, key;
    std::map<unsigned, UploadedPart> parts;
};

// who may do what; without accounts everybody may do everything
struct Account
{
    std::string host, access, secret;
    bool https = false;
    std::set<std::string> buckets;
};

class Server
{
  public:
    static Server& get();

    std::mutex mutex;
    std::map<std::string, std::map<std::string, std::string>> buckets;
    std::map<std::string, Upload> uploads; // open multipart uploads
    std::vector<Fault> faults;
    std::vector<Op> ops;
    std::vector<std::string> protocol_errors; // what a real server would refuse
    std::map<std::string, int> puts_per_key;  // how often each object was put/completed
    std::vector<Account> accounts;
    std::vector<std::string> denied; // requests refused because of who made them
    uint64_t next_id = 1;
    int clients_alive = 0;
    int clients_made = 0;
    uint64_t min_part = 5ull << 20;
    bool keep_log = true;
    std::function<void()> jitter; // called outside the lock before each request

    // true: request must fail (before being applied)
    bool begin(Op& op, bool& fail_after, int& status);
    void log(const Op& op)
    {
        if (keep_log)
            ops.push_back(op);
    }
};

} // namespace fakes3
