PROPERTY = "C17"
NEEDS = "a job that fails without giving a message"
BREAKS = "the failure of such a job is not passed to the error handler"
EDITS = [("src/streaming/thread.pool.cpp", """            if (std::string err_msg; !job.value()(err_msg)) {
""", """            std::string err_msg;
            job.value()(err_msg);
            if (!err_msg.empty()) {
""")]
DEMO = r'''
#include "thread.pool.hh"
#include <atomic>
using namespace kit;
int main()
{
    std::atomic<int> reported = 0;
    zarr::ThreadPool pool(2, [&](const std::string&) { ++reported; });
    for (int i = 0; i < 30; ++i)
        check(pool.push_job([i](std::string& err) {
            if (i % 3 == 0)
                err = "failed";
            return i % 3 == 2;
        }), "push failed");
    pool.await_stop();
    check(reported == 20, "20 jobs failed, " + std::to_string(reported) + " failures were reported");
}
'''
