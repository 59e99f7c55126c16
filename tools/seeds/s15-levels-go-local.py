PROPERTY = "C15"
NEEDS = "a multiscale stream to S3"
BREAKS = "the downsampled arrays are written to the local file system instead of the bucket"
EDITS = [("src/streaming/array.writer.cpp", """    downsampled_config.level_of_detail = config.level_of_detail + 1;
    downsampled_config.bucket_name = config.bucket_name;
""", """    downsampled_config.level_of_detail = config.level_of_detail + 1;
""")]
DEMO = r'''
using namespace kit;
int main()
{
    Cfg c;
    c.s3 = true;
    c.multiscale = true;
    c.path = "store";
    c.dims = { { "t", ZarrDimensionType_Time, 0, 2 }, { "y", ZarrDimensionType_Space, 8, 4 }, { "x", ZarrDimensionType_Space, 8, 4 } };
    auto* s = open(c);
    check(s, "stream not created");
    auto px = pattern(64 * 4);
    check(append(s, px.data(), px.size()), "append failed");
    ZarrStream_destroy(s);
    same(read_array(s3_store("store"), 2, 0), px, "level 0");
    auto a = read_array(s3_store("store"), 2, 1);
    check(a.problem.empty() && a.shape.size() == 3 && a.shape[0] == 2, "level 1: " + a.problem);
    check(!fs::exists("store"), "an S3 stream wrote to the file system");
}
'''
