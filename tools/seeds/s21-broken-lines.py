PROPERTY = "C21"
NEEDS = "several threads logging at the same time"
BREAKS = "the lock is released before the line is written, so messages of several threads share a line"
EDITS = [("src/logger/logger.hh", """        std::scoped_lock lock(log_mutex_);

        std::string prefix;""", """        std::string prefix;"""), ("src/logger/logger.hh", """        ss << get_timestamp_() << " " << prefix << filename << ":" << line
           << " " << func << ": ";
""", """        {
            std::scoped_lock lock(log_mutex_);
            ss << get_timestamp_();
        }
        ss << " " << prefix << filename << ":" << line << " " << func << ": ";
""")]
DEMO = r'''
#include "macros.hh"
#include <thread>
using namespace kit;
int main()
{
    int fd = creat("log", 0600);
    dup2(fd, 2);
    const int T = 8, N = 4000;
    std::vector<std::thread> ts;
    for (int t = 0; t < T; ++t)
        ts.emplace_back([=] {
            for (int i = 0; i < N; ++i)
                LOG_ERROR("<", t, ",", i, ">");
        });
    for (auto& t : ts)
        t.join();
    std::ifstream f("log");
    std::string l;
    int n = 0;
    bool whole = true;
    while (std::getline(f, l)) {
        ++n;
        whole &= !l.empty() && l.back() == '>' && std::count(l.begin(), l.end(), '<') == 1;
    }
    _exit(whole && n == T * N ? 0 : 1);
}
'''
