#pragma once
// Analysis-only stand-in for spdlog: logging has no effect on slicing results.
#include <fmt/core.h>
#include <map>
#include <array>
#include <cassert>
#include <cstdint>
#include <initializer_list>
namespace spdlog {
namespace level { enum level_enum { trace, debug, info, warn, err, critical, off }; }
template<class... A> void trace(A&&...);
template<class... A> void debug(A&&...);
template<class... A> void info(A&&...);
template<class... A> void warn(A&&...);
template<class... A> void error(A&&...);
template<class... A> void critical(A&&...);
inline void set_level(level::level_enum) {}
namespace sinks { struct sink { virtual ~sink() = default; }; struct stdout_color_sink_mt : sink {}; struct dup_filter_sink_mt : sink { template<class D> explicit dup_filter_sink_mt(D) {} void add_sink(std::shared_ptr<sink>) {} }; }
struct logger { std::vector<std::shared_ptr<sinks::sink>> s; std::vector<std::shared_ptr<sinks::sink>>& sinks() { return s; } };
std::shared_ptr<logger> default_logger();
namespace details { namespace os { std::string getenv(const char*); } }
namespace cfg { namespace helpers { void load_levels(const std::string&); } }
}
