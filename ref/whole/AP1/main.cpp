// What the functions of this unit compute.
#include <iostream>
#include <signal.h>
#if defined(__linux__) || (defined(__APPLE__) && defined(__MACH__))
#include <sys/resource.h>
#endif
#ifdef SENTRY_URL
#ifdef _WIN32
#if ! defined(NOMINMAX)
#define NOMINMAX
#endif
#if ! defined(WIN32_LEAN_AND_MEAN)
#define WIN32_LEAN_AND_MEAN
#endif
#endif
#include <filesystem>
#include <semver.hpp>
#include <sentry.h>
#include <string>
#include <range/v3/algorithm/contains.hpp>
#include <range/v3/range/conversion.hpp>
#include <spdlog/details/os.h>
#include "utils/format/filesystem_path.h"
#endif
#include <cstdlib>
#include <spdlog/spdlog.h>
#include "Application.h"
namespace cura
{
void signal_FPE(int n)
{
    (void)n;
    spdlog::error("Arithmetic exception.");
    exit(1);
}
}
//= main
int main(int argc, char** argv)
{
#if defined(__linux__) || (defined(__APPLE__) && defined(__MACH__))
    setpriority(PRIO_PROCESS, 0, 10);
#endif
#ifndef DEBUG
    signal(SIGFPE, cura::signal_FPE);
#endif
    std::cerr << std::boolalpha;
#ifdef SENTRY_URL
    if (const auto use_sentry = spdlog::details::os::getenv("USE_SENTRY"); ! use_sentry.empty() && use_sentry == "1")
    {
        sentry_options_t* options = sentry_options_new();
        sentry_options_set_dsn(options, std::string(SENTRY_URL).c_str());
        spdlog::info("Sentry url: {}", std::string(SENTRY_URL).c_str());
#if defined(__linux__)
        const auto config_path = std::filesystem::path(fmt::format("{}/.local/share/cura/.sentry-native", std::getenv("HOME")));
#elif defined(__APPLE__) && defined(__MACH__)
        const auto config_path = std::filesystem::path(fmt::format("{}/Library/Application Support/cura/.sentry-native", std::getenv("HOME")));
#elif defined(_WIN64)
        const auto config_path = std::filesystem::path(fmt::format("{}\\cura\\.sentry-native", std::getenv("APPDATA")));
#endif
        spdlog::info("Sentry config path: {}", config_path);
        sentry_options_set_database_path(options, std::filesystem::absolute(config_path).generic_string().c_str());
#ifdef SENTRY_ENVIRONMENT
        sentry_options_set_environment(options, std::string(SENTRY_ENVIRONMENT).c_str());
#endif
        constexpr std::string_view cura_engine_version{ CURA_ENGINE_VERSION };
        sentry_options_set_release(options, fmt::format("curaengine@{}", cura_engine_version).c_str());
        spdlog::info("Starting sentry");
        sentry_init(options);
    }
#endif
    cura::Application::getInstance().run(argc, argv);
#ifdef SENTRY_URL
    if (const auto use_sentry = spdlog::details::os::getenv("USE_SENTRY"); ! use_sentry.empty() && use_sentry == "1")
    {
        spdlog::info("Closing sentry");
        sentry_close();
    }
#endif
    return 0;
}
//END
