// Sequences of log messages and level changes, from one or several threads.
#include "shim.hh"
#include "worker.hh"

#include "acquire.zarr.h"
#include "logger.hh"

#include <atomic>
#include <iomanip>
#include <iostream>
#include <thread>

namespace {
using worker::json;

void
step(const json& s, json& out)
{
    const auto op = s[0].get<std::string>();
    if (op == "msg") {
        const auto level = (LogLevel)s[1].get<int>();
        const auto text = s[2].get<std::string>(), file = s[3].get<std::string>(), func = s[5].get<std::string>();
        const int line = s[4].get<int>();
        switch (s[6].get<int>()) {
            case 0:
                Logger::log(level, file.c_str(), line, func.c_str(), text);
                break;
            case 1:
                Logger::log(level, file.c_str(), line, func.c_str(), text.c_str(), ' ', 42, " ", -7l);
                break;
            case 2:
                Logger::log(level, file.c_str(), line, func.c_str(), 1.5, std::string_view(text), true);
                break;
            case 4: // manipulators only change their own line
                Logger::log(level, file.c_str(), line, func.c_str(), text, std::hex, std::setfill('_'), std::setw(4), 255, std::fixed, std::setprecision(1), 2.25, std::boolalpha, true);
                break;
            default:
                Logger::log(level, file.c_str(), line, func.c_str(), text.substr(0, text.size() / 2), text.substr(text.size() / 2));
        }
    } else if (op == "api") {
        const int rc = (int)Zarr_set_log_level((ZarrLogLevel)s[1].get<int>());
        out.push_back({ rc, (int)Zarr_get_log_level() });
    } else if (op == "set") {
        bool ok = true;
        try {
            Logger::set_log_level((LogLevel)s[1].get<int>());
        } catch (const std::exception&) {
            ok = false;
        }
        out.push_back({ ok ? 0 : 1, (int)Logger::get_log_level() });
    } else if (op == "status") {
        const auto code = (ZarrStatusCode)s[1].get<int>();
        const char* a = Zarr_get_status_message(code);
        const char* b = Zarr_get_status_message(code);
        out.push_back({ a ? json(a) : json(nullptr), b ? json(b) : json(nullptr) });
    } else if (op == "version")
        out.push_back({ Zarr_get_api_version(), Zarr_get_api_version() });
}

void
logger(const json& c)
{
    if (c.contains("start"))
        Zarr_set_log_level((ZarrLogLevel)c["start"].get<int>());
    worker::setup_shim(c);
    json initial = (int)Zarr_get_log_level(), res = json::array();
    for (const auto& phase : c["phases"]) {
        std::vector<json> out(phase.size(), json::array());
        if (phase.size() == 1)
            for (const auto& s : phase[0])
                step(s, out[0]);
        else {
            std::vector<std::thread> ts;
            std::atomic<size_t> ready{ 0 };
            for (size_t t = 0; t < phase.size(); ++t)
                ts.emplace_back([&, t] {
                    ++ready;
                    while (ready < phase.size())
                        ;
                    for (const auto& s : phase[t])
                        step(s, out[t]);
                });
            for (auto& t : ts)
                t.join();
        }
        res.push_back(out);
    }
    std::cout.flush();
    std::cerr.flush();
    worker::emit({ { "initial", initial }, { "res", res } });
}
worker::Register r_logger("logger", logger);
} // namespace
