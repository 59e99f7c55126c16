PROPERTY = "C10"
NEEDS = "a v2 stream that is killed after at least two chunk rows have been acknowledged"
BREAKS = "the array metadata is not rewritten at every rollover, so after a kill it does not cover frames that were acknowledged"
EDITS = [("src/streaming/zarrv2.array.writer.cpp", """zarr::ZarrV2ArrayWriter::write_array_metadata_()
{
    if (!make_metadata_sink_()) {
        return false;
    }
""", """zarr::ZarrV2ArrayWriter::write_array_metadata_()
{
    if (!metadata_sink_) {
        if (!make_metadata_sink_()) {
            return false;
        }
    } else if (!is_finalizing_ && append_chunk_index_ % 4 != 0) {
        return true; // not worth rewriting for every row of chunks
    }
""")]
DEMO = r'''
using namespace kit;
int main()
{
    for (size_t rows : { 1, 2, 3, 4 }) {
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            Cfg c;
            c.dims = { { "t", ZarrDimensionType_Time, 0, 2 }, { "y", ZarrDimensionType_Space, 4, 4 }, { "x", ZarrDimensionType_Space, 4, 4 } };
            auto* s = open(c);
            check(s, "stream not created");
            auto px = pattern(16 * 2 * rows);
            check(append(s, px.data(), px.size()), "append failed");
            raise(SIGKILL);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        check(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL, "the writer ended early");
        auto a = read_array(dir_store("out.zarr"), 2, 0);
        check(!a.shape.empty() && a.shape[0] >= 2 * rows, std::to_string(2 * rows) + " frames were acknowledged, the metadata covers " + (a.shape.empty() ? "none" : std::to_string(a.shape[0])));
        same(a, pattern(16 * 2 * rows), "after the kill");
    }
}
'''
