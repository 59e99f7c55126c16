PROPERTY = "C16"
NEEDS = "a server that answers the completion of a multipart upload with status 200 and an error in the body (as S3 does), or not at all"
BREAKS = "the failure is taken for success: the object does not exist and nothing is reported"
EDITS = [("src/streaming/s3.connection.cpp", """    auto response = client_->CompleteMultipartUpload(args);
    if (!response) {""", """    auto response = client_->CompleteMultipartUpload(args);
    if (response.status_code >= 300) {""")]
DEMO = r'''
using namespace kit;
int main()
{
    auto& sv = fakes3::Server::get();
    for (int status : { 503, 0, 200 }) {
        sv.faults = { fakes3::Fault{ "complete_upload", 0, -1, false, status } };
        Cfg c;
        c.s3 = true;
        c.path = "store" + std::to_string(status);
        c.dims = { { "t", ZarrDimensionType_Time, 0, 1 }, { "y", ZarrDimensionType_Space, 2400, 2400 }, { "x", ZarrDimensionType_Space, 2400, 2400 } };
        auto px = pattern(2400 * 2400);
        bool ok = true;
        auto log = errors_of([&] {
            auto* s = open(c);
            ok = s && append(s, px.data(), px.size());
            if (s)
                ZarrStream_destroy(s);
        });
        check(!sv.buckets["bucket"].count(c.path + "/0/0/0/0"), "the chunk exists although its upload failed");
        check(!ok || log.find("[ERROR]") != std::string::npos, "status " + std::to_string(status) + ": the chunk is missing but nothing was reported");
    }
}
'''
