#pragma once
#include <spdlog/spdlog.h>
namespace spdlog {
namespace sinks { struct basic_file_sink_mt : sink { basic_file_sink_mt(const std::string&, bool = false) {} }; typedef basic_file_sink_mt basic_file_sink_st; }
inline std::shared_ptr<logger> basic_logger_mt(const std::string& n, const std::string&, bool = false) { return std::make_shared<logger>(n); }
}
