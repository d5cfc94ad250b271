// Stand-in for spdlog: log lines are not formatted; each is handed to env_log_line as (level, format, arguments).
#pragma once
#include <initializer_list>
#include <memory>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
struct EnvLogArg { int kind; /*0 int 1 str 2 double 3 other*/ long i; const char* s; double d; };
extern "C" void env_log_line(int level, const char* fmt, const EnvLogArg* a, int n);
extern "C" int env_log_on;
namespace spdlog {
namespace level { enum level_enum : int { trace = 0, debug = 1, info = 2, warn = 3, err = 4, critical = 5, off = 6 }; }
namespace vp {
template <class T> inline EnvLogArg mk(const T& v) {
    EnvLogArg r; r.kind = 3; r.i = 0; r.s = ""; r.d = 0;
    if constexpr (std::is_floating_point_v<T>) { r.kind = 2; r.d = v; }
    else if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) { r.kind = 0; r.i = (long)v; }
    else if constexpr (std::is_convertible_v<T, const char*>) { r.kind = 1; r.s = v; }
    else if constexpr (std::is_same_v<T, std::string>) { r.kind = 1; r.s = v.c_str(); }
    else if constexpr (std::is_same_v<T, std::string_view>) { r.kind = 1; r.s = v.data(); }
    return r;
}
inline const char* fs(const char* f) { return f; }
inline const char* fs(const std::string& f) { return f.c_str(); }
inline const char* fs(std::string_view f) { return f.data(); }
template <class F, class... A> inline void out(int lvl, const F& f, const A&... a) {
    if (!env_log_on) return;
    EnvLogArg v[sizeof...(A) + 1] = {mk(a)...};
    env_log_line(lvl, fs(f), v, sizeof...(A));
}
}
#define VP_LVL(nm, lv) template <class F, class... A> inline void nm(const F& f, const A&... a) { vp::out(lv, f, a...); }
VP_LVL(trace, 0) VP_LVL(debug, 1) VP_LVL(info, 2) VP_LVL(warn, 3) VP_LVL(error, 4) VP_LVL(critical, 5)
#undef VP_LVL
template <class F, class... A> inline void log(level::level_enum l, const F& f, const A&... a) { vp::out(l, f, a...); }
namespace sinks {
struct sink { virtual ~sink() {} void set_level(level::level_enum) {} void set_pattern(const std::string&) {} };
}
typedef std::shared_ptr<sinks::sink> sink_ptr;
struct logger {
    logger(const std::string&) {}
    logger(const std::string&, sink_ptr) {}
    logger(const std::string&, std::initializer_list<sink_ptr>) {}
    template <class It> logger(const std::string&, It, It) {}
    void set_level(level::level_enum) {}
    void flush_on(level::level_enum) {}
    void set_pattern(const std::string&) {}
    void flush() {}
#define VP_LVL(nm, lv) template <class F, class... A> void nm(const F& f, const A&... a) { vp::out(lv, f, a...); }
    VP_LVL(trace, 0) VP_LVL(debug, 1) VP_LVL(info, 2) VP_LVL(warn, 3) VP_LVL(error, 4) VP_LVL(critical, 5)
#undef VP_LVL
};
inline void set_default_logger(std::shared_ptr<logger>) {}
inline std::shared_ptr<logger> default_logger() { return std::make_shared<logger>("d"); }
inline std::shared_ptr<logger> get(const std::string& n) { return std::make_shared<logger>(n); }
inline void register_logger(std::shared_ptr<logger>) {}
inline void set_level(level::level_enum) {}
inline void flush_on(level::level_enum) {}
inline void set_pattern(const std::string&) {}
inline void shutdown() {}
inline bool should_log(level::level_enum) { return true; }
}
