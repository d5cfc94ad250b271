// Real toml11 value/find API; only the text parser is replaced: the harness supplies the parsed document.
#pragma once
#include_next <toml.hpp>
toml::value& env_toml_doc();
void vp_parsed(const char* file);
namespace toml { inline value vp_parse(const std::string& file) { vp_parsed(file.c_str()); return env_toml_doc(); } }
#define parse(...) vp_parse(__VA_ARGS__)
