PROPERTY = "C12"
NEEDS = "an S3 stream whose chunks are written by several threads, two of which give back a connection at the same time"
BREAKS = "connections are given back without holding the lock: a data race on the list of connections"
FLAGS = "-fsanitize=thread"
EDITS = [("src/streaming/s3.connection.cpp", """    std::unique_lock lock(connections_mutex_);
    connections_.push_back(std::move(conn));
    cv_.notify_one();""", """    connections_.push_back(std::move(conn));

    std::unique_lock lock(connections_mutex_);
    cv_.notify_one();""")]
DEMO = r'''
using namespace kit;
int main()
{
    Cfg c;
    c.s3 = true;
    c.version = 3; // shards are written from pool threads
    c.dims = { { "t", ZarrDimensionType_Time, 0, 1 }, { "y", ZarrDimensionType_Space, 5000, 2500, 1 }, { "x", ZarrDimensionType_Space, 5000, 2500, 1 } };
    auto* s = open(c);
    check(s, "stream not created");
    auto px = pattern(5000 * 5000);
    for (int i = 0; i < 4; ++i)
        check(append(s, px.data(), px.size()), "append failed");
    ZarrStream_destroy(s);
}
'''
