#pragma once
#include <chrono>
#include <spdlog/spdlog.h>
namespace spdlog {
class stopwatch {
    std::chrono::time_point<std::chrono::steady_clock> start_tp_;
public:
    stopwatch() : start_tp_{ std::chrono::steady_clock::now() } {}
    std::chrono::duration<double> elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - start_tp_); }
    std::chrono::milliseconds elapsed_ms() const { return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - start_tp_); }
    void reset() { start_tp_ = std::chrono::steady_clock::now(); }
};
}
