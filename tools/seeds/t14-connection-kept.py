PROPERTY = "C12"
NEEDS = "a machine with a single processor, where there is a single S3 connection"
BREAKS = "the connection used to test the server is never given back, so that the stream waits for one for ever"
EDITS = [("src/streaming/zarr.stream.cpp", """            set_error_("Failed to connect to S3");
            return false;
        }
        s3_connection_pool_->return_connection(std::move(conn));""", """            set_error_("Failed to connect to S3");
            return false;
        }""")]
DEMO = r'''
using namespace kit;
extern "C" int get_nprocs() noexcept { return 1; } // what std::thread::hardware_concurrency asks
int main()
{
    alarm(60); // ends a process that hangs
    Cfg c;
    c.s3 = true;
    c.path = "store";
    c.dims = { { "t", ZarrDimensionType_Time, 0, 1 }, { "y", ZarrDimensionType_Space, 4, 4 }, { "x", ZarrDimensionType_Space, 4, 4 } };
    auto px = pattern(16 * 3);
    auto* s = open(c);
    check(s, "stream not created");
    check(append(s, px.data(), px.size()), "append failed");
    ZarrStream_destroy(s);
    same(read_array(s3_store("store"), 2, 0), px, "store");
}
'''
