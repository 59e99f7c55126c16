PROPERTY = "C28"
NEEDS = "two streams to S3 alive at the same time that use the same endpoint and access key, but different secret keys"
BREAKS = "streams to the same server share their connections; the secret key is not compared, so that the second stream works with the secret of the first"
EDITS = [("src/streaming/zarr.stream.cpp", """            s3_connection_pool_ = std::make_shared<zarr::S3ConnectionPool>(
              std::thread::hardware_concurrency(),
              s3_settings_->endpoint,
              s3_settings_->access_key_id,
              s3_settings_->secret_access_key);
""", """            // streams to the same server share their connections
            static std::mutex pools_mutex;
            static std::unordered_map<std::string,
                                      std::weak_ptr<zarr::S3ConnectionPool>>
              pools;
            std::scoped_lock lock(pools_mutex);
            auto& shared =
              pools[s3_settings_->access_key_id + "@" + s3_settings_->endpoint];
            s3_connection_pool_ = shared.lock();
            if (!s3_connection_pool_) {
                s3_connection_pool_ = std::make_shared<zarr::S3ConnectionPool>(
                  std::thread::hardware_concurrency(),
                  s3_settings_->endpoint,
                  s3_settings_->access_key_id,
                  s3_settings_->secret_access_key);
                shared = s3_connection_pool_;
            }
"""), ("src/streaming/zarr.stream.cpp", "#include <filesystem>\n", "#include <filesystem>\n#include <mutex>\n#include <unordered_map>\n")]
DEMO = r'''
using namespace kit;
int main()
{
    Cfg c;
    c.s3 = true;
    c.path = "store";
    c.dims = { { "t", ZarrDimensionType_Time, 0, 1 }, { "y", ZarrDimensionType_Space, 4, 4 }, { "x", ZarrDimensionType_Space, 4, 4 } };
    auto& srv = fakes3::Server::get();
    {
        std::scoped_lock lock(srv.mutex);
        srv.accounts.push_back({ "http://localhost:9000", "key", "secret", false, { "bucket" } });
    }
    auto* good = open(c);
    check(good, "stream not created");
    c.secret = "guess";
    c.path = "other";
    auto* bad = open(c);
    check(!bad, "a stream with a wrong secret was created");
    ZarrStream_destroy(good);
}
'''
