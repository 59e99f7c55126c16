PROPERTY = "C10"
NEEDS = "an S3 stream looked at, or killed, before it is destroyed"
BREAKS = "finished rows are completed in batches of 8: the objects of up to 7 acknowledged rows do not exist yet"
EDITS = [("src/streaming/array.writer.hh", """    void close_sinks_();""", """    void close_sinks_();

    /// sinks of finished rows, to be closed together
    std::vector<std::unique_ptr<Sink>> finished_sinks_;
    uint32_t finished_rows_{ 0 };"""),
         ("src/streaming/array.writer.cpp", """    LOG_DEBUG("Rolling over");

    ++append_chunk_index_;
    close_sinks_();""", """    LOG_DEBUG("Rolling over from row ", append_chunk_index_);

    ++append_chunk_index_;

    // closing is slow: do it for several rows at a time
    for (auto& sink : data_sinks_) {
        finished_sinks_.push_back(std::move(sink));
    }
    data_sinks_.clear();

    if (++finished_rows_ >= 8 || is_finalizing_) {
        data_sinks_.swap(finished_sinks_);
        finished_rows_ = 0;
        close_sinks_();
    }""")]
DEMO = r'''
using namespace kit;
int main()
{
    Cfg c;
    c.s3 = true;
    c.path = "store";
    c.dims = { { "t", ZarrDimensionType_Time, 0, 1 }, { "y", ZarrDimensionType_Space, 4, 4 }, { "x", ZarrDimensionType_Space, 4, 4 } };
    auto* s = open(c);
    check(s, "stream not created");
    auto px = pattern(16 * 10);
    for (size_t i = 0; i < 10; ++i) {
        check(append(s, px.data() + 16 * i, 16), "append failed");
        check(s3_store("store")("0/" + std::to_string(i) + "/0/0").has_value(), "row " + std::to_string(i) + " is not on the server");
    }
    ZarrStream_destroy(s);
    same(read_array(s3_store("store"), 2, 0), px, "store");
}
'''
