// Interposed libc entry points: fault injection, kill points, delays and counters for file-system calls below a prefix.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace shim {
enum OpClass : uint32_t
{
    OPEN = 1,
    MKDIR = 2,
    WRITE = 4,
    UNLINK = 8,
    FSYNC = 16,
    CLOSE = 32,
    STAT = 64,
};

enum Mode
{
    FAIL = 0,        // return -1 with errno
    SHORT = 1,       // writes only: store about half, report that
    KILL_BEFORE = 2, // SIGKILL before the call
    KILL_AFTER = 3,  // SIGKILL after the call
    KILL_MID = 4,    // writes only: store half, SIGKILL
};

struct Rule
{
    uint32_t ops = 0;
    int64_t nth = 0;
    int64_t count = 1; // -1: from nth on
    int err = 5;
    int mode = FAIL;
    std::string path; // substring the path must contain (empty: any)
    int64_t seen = 0;
    int64_t hits = 0;
};

void configure(const std::string& prefix, std::vector<Rule> rules);
void set_rules(std::vector<Rule> rules);
void set_jitter(uint64_t seed, unsigned permille, unsigned max_us);
void set_nprocs(int n);
void set_thread_faults(int64_t nth, int64_t count); // thread creations nth.. fail (count -1: all from nth on; 0: none)
void set_alloc_faults(size_t min_size, int64_t nth, int64_t count); // operator new of at least min_size bytes (unsanitized builds only)
void alloc_active(bool on);                                        // faults only while a library call is running
int64_t alloc_seen();
int64_t alloc_hits();
void disable();
int64_t count(uint32_t op); // calls of a class so far
int64_t total();            // calls of OPEN|MKDIR|WRITE so far
int64_t hits();             // injected faults so far
void jitter();
void log_ops(bool on);
std::vector<std::string> take_op_log();
} // namespace shim
