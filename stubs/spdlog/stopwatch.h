#pragma once
// The installed spdlog predates stopwatch::elapsed_ms(); same class with that member added.
#include <chrono>
#include <spdlog/fmt/fmt.h>
namespace spdlog {
class stopwatch {
    using clock = std::chrono::steady_clock;
    std::chrono::time_point<clock> start_tp_;
public:
    stopwatch() : start_tp_{ clock::now() } {}
    std::chrono::duration<double> elapsed() const { return std::chrono::duration<double>(clock::now() - start_tp_); }
    std::chrono::milliseconds elapsed_ms() const { return std::chrono::duration_cast<std::chrono::milliseconds>(clock::now() - start_tp_); }
    void reset() { start_tp_ = clock::now(); }
};
}
template<> struct fmt::formatter<spdlog::stopwatch> : fmt::formatter<double> {
    template<typename C> auto format(const spdlog::stopwatch& sw, C& ctx) const { return fmt::formatter<double>::format(sw.elapsed().count(), ctx); }
};
