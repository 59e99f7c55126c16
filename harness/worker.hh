// A worker executes one case per forked child; modules register the commands they understand.
#pragma once
#include <functional>
#include <nlohmann/json.hpp>
#include <string>

namespace worker {
using json = nlohmann::json;
using Handler = std::function<void(const json&)>;

// send one result line to the driver (from the child)
void emit(const json& j);

void register_handler(const std::string& name, Handler h);
struct Register
{
    Register(const std::string& name, Handler h) { register_handler(name, std::move(h)); }
};

std::string unhex(const std::string& s);
std::string hex(const void* p, size_t n);

// applies "prefix", "faults", "jitter", "nprocs" of a case to the shim
void setup_shim(const json& c);
std::vector<std::string> file_list(const std::string& root);
} // namespace worker
