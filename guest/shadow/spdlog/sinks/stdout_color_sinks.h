#pragma once
#include <spdlog/spdlog.h>
namespace spdlog {
namespace sinks { struct stdout_color_sink_mt : sink {}; typedef stdout_color_sink_mt stdout_color_sink_st; struct stderr_color_sink_mt : sink {}; }
inline std::shared_ptr<logger> stdout_color_mt(const std::string& n) { return std::make_shared<logger>(n); }
inline std::shared_ptr<logger> stderr_color_mt(const std::string& n) { return std::make_shared<logger>(n); }
}
