PROPERTY = "C11"
NEEDS = "a write of chunk data that fails (disk full, file size limit) in a v2 stream; two places lose the failure together"
BREAKS = "neither the failed write nor the failed flush when closing the file is reported: the store is incomplete and every call succeeds"
EDITS = [("src/streaming/zarrv2.array.writer.cpp", """                             CHECK(sink->write(0, data));
""", """                             sink->write(0, data); // checked when closing
"""), ("src/streaming/sink.cpp", """    if (!sink->flush_()) {
        return false;
    }

    sink.reset();""", """    sink->flush_(); // writes are checked by those who make them
    sink.reset();""")]
DEMO = r'''
using namespace kit;
int main()
{
    signal(SIGXFSZ, SIG_IGN);
    Cfg c;
    c.dims = { { "t", ZarrDimensionType_Time, 0, 2 }, { "y", ZarrDimensionType_Space, 128, 128 }, { "x", ZarrDimensionType_Space, 128, 128 } };
    auto px = pattern(128 * 128 * 4);
    bool ok = true;
    auto log = errors_of([&] {
        auto* s = open(c);
        ok = s != nullptr;
        rlimit old, now;
        getrlimit(RLIMIT_FSIZE, &old);
        now = old;
        now.rlim_cur = 16384; // chunks have 32 KiB
        setrlimit(RLIMIT_FSIZE, &now);
        if (s) {
            for (int i = 0; i < 4; ++i)
                ok = append(s, px.data() + 128 * 128 * i, 128 * 128) && ok;
            ZarrStream_destroy(s);
        }
        setrlimit(RLIMIT_FSIZE, &old);
    });
    auto a = read_array(dir_store("out.zarr"), 2, 0);
    const bool complete = a.problem.empty() && a.data == px;
    check(complete || !ok || log.find("[ERROR]") != std::string::npos, "the store is incomplete (" + a.problem + ") but nothing was reported");
}
'''
