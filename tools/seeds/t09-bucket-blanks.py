PROPERTY = "C09"
NEEDS = "a bucket name of legal length only because of the blanks around it"
BREAKS = "the length is checked before the name is trimmed: a bucket name of two characters is accepted, one of 63 with a blank refused"
EDITS = [("src/streaming/zarr.stream.cpp", """    std::string trimmed = zarr::trim(settings->bucket_name);""", """    std::string_view trimmed = settings->bucket_name;""")]
DEMO = r'''
using namespace kit;
int main()
{
    auto& sv = fakes3::Server::get();
    struct { std::string name; bool ok; } tests[] = { { "bucket", true }, { " bucket ", true }, { std::string(63, 'b'), true }, { std::string(63, 'b') + " ", true }, { "bb", false }, { " bb ", false } };
    for (auto& t : tests) {
        {
            std::lock_guard lock(sv.mutex);
            sv.buckets[std::string(63, 'b')];
            sv.buckets["bb"];
        }
        Cfg c;
        c.s3 = true;
        c.bucket = t.name;
        c.dims = { { "t", ZarrDimensionType_Time, 0, 1 }, { "y", ZarrDimensionType_Space, 4, 4 }, { "x", ZarrDimensionType_Space, 4, 4 } };
        auto* s = open(c);
        const bool ok = s;
        if (s)
            ZarrStream_destroy(s);
        check(ok == t.ok, "bucket '" + t.name + "' was " + (ok ? "accepted" : "refused"));
    }
}
'''
