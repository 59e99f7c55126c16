#include "miniocpp/client.h"

#include <cstring>

namespace fakes3 {
Server&
Server::get()
{
    static Server* s = new Server; // never destroyed: streams may outlive static destruction order
    return *s;
}

bool
Server::begin(Op& op, bool& fail_after, int& status)
{
    fail_after = false;
    status = 503;
    bool fail = false;
    for (auto& f : faults) {
        if (f.kind != "*" && f.kind != op.kind)
            continue;
        if (!f.key.empty() && op.key.find(f.key) == std::string::npos)
            continue;
        const int64_t i = f.seen++;
        if (i >= f.nth && (f.count < 0 || i < f.nth + f.count)) {
            op.injected = true;
            status = f.status;
            if (f.after)
                fail_after = true;
            else
                fail = true;
        }
    }
    return fail;
}
} // namespace fakes3

namespace minio::s3 {
using fakes3::Op;
using fakes3::Server;

struct InUse
{
    Client* c;
    explicit InUse(Client* c_)
      : c(c_)
    {
        auto& s = Server::get();
        if (c->in_use_.fetch_add(1) != 0) {
            std::lock_guard lock(s.mutex);
            s.protocol_errors.push_back("one connection used by two threads at the same time");
        }
        if (s.jitter)
            s.jitter();
    }
    ~InUse() { c->in_use_.fetch_sub(1); }
};

namespace {
template<typename R>
R
failed(const std::string& why, int code = 503)
{
    R r;
    r.status_code = code;
    if (code == 0) { // no reply at all
        r.err = why;
    } else { // code 200: the reply started before the server noticed the failure
        r.code = "InternalError";
        r.message = why;
    }
    return r;
}

std::string
etag_of(const std::string& data, uint64_t salt)
{
    uint64_t h = 1469598103934665603ull ^ salt;
    for (size_t i = 0; i < data.size(); i += 1 + data.size() / 4096) {
        h ^= (unsigned char)data[i];
        h *= 1099511628211ull;
    }
    char buf[32];
    snprintf(buf, sizeof buf, "%016llx", (unsigned long long)h);
    return buf;
}
} // namespace

// runs `apply` under the server lock, honouring injected faults
template<typename R, typename F>
static R
request(Client* c, Op op, F&& apply)
{
    InUse use(c);
    auto& s = Server::get();
    std::lock_guard lock(s.mutex);
    bool fail_after = false;
    int status = 0;
    if (s.begin(op, fail_after, status)) {
        op.ok = false;
        s.log(op);
        return failed<R>("injected failure of " + op.kind, status);
    }
    if (const auto why = c->refusal(op.bucket); !why.empty()) {
        op.ok = false;
        s.log(op);
        s.denied.push_back(op.kind + " " + op.bucket + "/" + op.key + ": " + why);
        return failed<R>(why, 403);
    }
    R r = apply(s);
    if (fail_after) {
        op.ok = false;
        s.log(op);
        return failed<R>("injected failure of " + op.kind + " (after it was applied)", status);
    }
    op.ok = static_cast<bool>(r);
    s.log(op);
    return r;
}

const fakes3::Account*
Client::account() const
{
    const auto* p = dynamic_cast<const creds::StaticProvider*>(provider_);
    for (const auto& a : Server::get().accounts)
        if (p && a.host == url_.host && a.https == url_.https && a.access == p->access && a.secret == p->secret)
            return &a;
    return nullptr;
}

std::string
Client::refusal(const std::string& bucket) const
{
    if (Server::get().accounts.empty())
        return {};
    const auto* a = account();
    if (!a) {
        const auto* p = dynamic_cast<const creds::StaticProvider*>(provider_);
        return "nobody has the keys '" + (p ? p->access + "', '" + p->secret : "none") + "' at '" + url_.host + (url_.https ? "' (https)" : "'");
    }
    return bucket.empty() || a->buckets.count(bucket) ? "" : "access denied";
}

Client::Client(BaseUrl& url, creds::Provider* provider)
  : provider_(provider)
  , url_(url)
{
    auto& s = Server::get();
    std::lock_guard lock(s.mutex);
    ++s.clients_alive;
    ++s.clients_made;
}

Client::~Client()
{
    auto& s = Server::get();
    std::lock_guard lock(s.mutex);
    --s.clients_alive;
}

ListBucketsResponse
Client::ListBuckets()
{
    return request<ListBucketsResponse>(this, Op{ "list", "", "" }, [&](Server& s) {
        ListBucketsResponse r;
        r.status_code = 200;
        const auto* a = account();
        for (auto& [name, _] : s.buckets)
            if (!a || a->buckets.count(name))
                r.buckets.push_back({ name });
        return r;
    });
}

BucketExistsResponse
Client::BucketExists(BucketExistsArgs args)
{
    return request<BucketExistsResponse>(this, Op{ "bucket_exists", args.bucket, "" }, [&](Server& s) {
        BucketExistsResponse r;
        r.status_code = 200;
        r.exist = s.buckets.count(args.bucket) > 0;
        return r;
    });
}

MakeBucketResponse
Client::MakeBucket(MakeBucketArgs args)
{
    return request<MakeBucketResponse>(this, Op{ "make_bucket", args.bucket, "" }, [&](Server& s) {
        MakeBucketResponse r;
        r.status_code = 200;
        s.buckets[args.bucket];
        return r;
    });
}

StatObjectResponse
Client::StatObject(StatObjectArgs args)
{
    return request<StatObjectResponse>(this, Op{ "stat", args.bucket, args.object }, [&](Server& s) {
        auto b = s.buckets.find(args.bucket);
        if (b == s.buckets.end() || !b->second.count(args.object))
            return failed<StatObjectResponse>("object does not exist", 404);
        StatObjectResponse r;
        r.status_code = 200;
        r.size = b->second[args.object].size();
        return r;
    });
}

PutObjectResponse
Client::PutObject(PutObjectArgs args)
{
    std::string data(args.object_size > 0 ? (size_t)args.object_size : 0, '\0');
    args.stream.read(data.data(), (std::streamsize)data.size());
    const auto got = (size_t)args.stream.gcount();
    Op op{ "put", args.bucket, args.object, data.size() };
    return request<PutObjectResponse>(this, op, [&](Server& s) {
        if (got != data.size()) {
            s.protocol_errors.push_back("put: stream shorter than the declared object size");
            return failed<PutObjectResponse>("stream too short", 400);
        }
        auto b = s.buckets.find(args.bucket);
        if (b == s.buckets.end())
            return failed<PutObjectResponse>("bucket does not exist", 404);
        if (args.object.empty()) {
            s.protocol_errors.push_back("put: empty key");
            return failed<PutObjectResponse>("empty key", 400);
        }
        PutObjectResponse r;
        r.status_code = 200;
        r.etag = etag_of(data, s.next_id++);
        b->second[args.object] = std::move(data);
        ++s.puts_per_key[args.bucket + "/" + args.object];
        return r;
    });
}

RemoveObjectResponse
Client::RemoveObject(RemoveObjectArgs args)
{
    return request<RemoveObjectResponse>(this, Op{ "remove", args.bucket, args.object }, [&](Server& s) {
        RemoveObjectResponse r;
        r.status_code = 204;
        auto b = s.buckets.find(args.bucket);
        if (b == s.buckets.end())
            return failed<RemoveObjectResponse>("bucket does not exist", 404);
        b->second.erase(args.object);
        return r;
    });
}

CreateMultipartUploadResponse
Client::CreateMultipartUpload(CreateMultipartUploadArgs args)
{
    return request<CreateMultipartUploadResponse>(
      this, Op{ "create_upload", args.bucket, args.object }, [&](Server& s) {
          if (!s.buckets.count(args.bucket))
              return failed<CreateMultipartUploadResponse>("bucket does not exist", 404);
          CreateMultipartUploadResponse r;
          r.status_code = 200;
          r.upload_id = "upload-" + std::to_string(s.next_id++);
          s.uploads[r.upload_id] = fakes3::Upload{ args.bucket, args.object, {} };
          return r;
      });
}

UploadPartResponse
Client::UploadPart(UploadPartArgs args)
{
    Op op{ "upload_part", args.bucket, args.object, args.data.size(), (int)args.part_number };
    return request<UploadPartResponse>(this, op, [&](Server& s) {
        auto u = s.uploads.find(args.upload_id);
        if (u == s.uploads.end() || u->second.bucket != args.bucket || u->second.key != args.object) {
            s.protocol_errors.push_back("upload_part: unknown upload id");
            return failed<UploadPartResponse>("no such upload", 404);
        }
        if (args.part_number < 1 || args.part_number > 10000) {
            s.protocol_errors.push_back("upload_part: part number out of range");
            return failed<UploadPartResponse>("bad part number", 400);
        }
        fakes3::UploadedPart p;
        p.data.assign(args.data.data(), args.data.size());
        p.etag = etag_of(p.data, s.next_id++);
        UploadPartResponse r;
        r.status_code = 200;
        r.etag = p.etag;
        u->second.parts[args.part_number] = std::move(p);
        return r;
    });
}

CompleteMultipartUploadResponse
Client::CompleteMultipartUpload(CompleteMultipartUploadArgs args)
{
    Op op{ "complete_upload", args.bucket, args.object, args.parts.size() };
    return request<CompleteMultipartUploadResponse>(this, op, [&](Server& s) {
        using R = CompleteMultipartUploadResponse;
        auto u = s.uploads.find(args.upload_id);
        if (u == s.uploads.end() || u->second.bucket != args.bucket || u->second.key != args.object) {
            s.protocol_errors.push_back("complete_upload: unknown upload id");
            return failed<R>("no such upload", 404);
        }
        if (args.parts.empty()) {
            s.protocol_errors.push_back("complete_upload: no parts");
            return failed<R>("no parts", 400);
        }
        std::string data;
        unsigned last = 0;
        size_t i = 0;
        for (const auto& part : args.parts) {
            ++i;
            if (part.number <= last) {
                s.protocol_errors.push_back("complete_upload: part numbers not ascending");
                return failed<R>("invalid part order", 400);
            }
            last = part.number;
            auto p = u->second.parts.find(part.number);
            if (p == u->second.parts.end() || p->second.etag != part.etag) {
                s.protocol_errors.push_back("complete_upload: unknown part or wrong etag");
                return failed<R>("invalid part", 400);
            }
            if (i < args.parts.size() && p->second.data.size() < s.min_part) {
                s.protocol_errors.push_back("complete_upload: part other than the last below 5 MiB");
                return failed<R>("entity too small", 400);
            }
            data += p->second.data;
        }
        R r;
        r.status_code = 200;
        r.etag = etag_of(data, s.next_id++);
        s.buckets[args.bucket][args.object] = std::move(data);
        ++s.puts_per_key[args.bucket + "/" + args.object];
        s.uploads.erase(u);
        return r;
    });
}

AbortMultipartUploadResponse
Client::AbortMultipartUpload(AbortMultipartUploadArgs args)
{
    return request<AbortMultipartUploadResponse>(
      this, Op{ "abort_upload", args.bucket, args.object }, [&](Server& s) {
          AbortMultipartUploadResponse r;
          r.status_code = 204;
          s.uploads.erase(args.upload_id);
          return r;
      });
}
} // namespace minio::s3
