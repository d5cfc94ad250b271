#include "env.h"
#include <string.h>
#include <toml.hpp>
#undef parse
void vp_parsed(const char* file) { strncpy(env_config_file, file, sizeof env_config_file - 1); }
toml::value& env_toml_doc() {
    static toml::value doc;
    EnvCfg& c = env_cfg;
    toml::table root, faults, cache, fs;
    faults["fifo_path"] = "f.fifo";
    if (c.completed) faults["fifo_path_completed"] = "f.done";
    if (c.simple) {
        toml::table s; s["custom_size"] = std::string(c.custom_size);
        if (c.bpp >= 0) s["blocks_per_page"] = c.bpp;
        cache["simple"] = s;
    } else {
        toml::table m;
        m["io_block_size"] = c.block; m["page_size"] = c.page; m["no_pages"] = c.npages;
        cache["manual"] = m;
    }
    if (c.eviction >= 0) cache["apply_eviction"] = c.eviction != 0;
    fs["log_all_operations"] = c.log_ops != 0;
    root["faults"] = faults; root["cache"] = cache; root["filesystem"] = fs;
    if (c.ninj) {
        toml::array inj;
        for (int i = 0; i < c.ninj; i++) {
            EnvInj& j = c.inj[i];
            toml::table t;
            if (j.type) t["type"] = std::string(j.type);
            if (j.file) t["file"] = std::string(j.file);
            if (j.op) t["op"] = std::string(j.op);
            if (j.timing) t["timing"] = std::string(j.timing);
            if (j.from) t["from"] = std::string(j.from);
            if (j.to) t["to"] = std::string(j.to);
            if (j.has_occurrence) t["occurrence"] = j.occurrence;
            if (j.has_crash) t["crash"] = sym_concretize(j.crash) != 0;
            if (j.has_persist) { toml::array a; for (int k = 0; k < j.npersist; k++) a.push_back(toml::value(j.persist[k])); t["persist"] = a; }
            if (j.has_parts) t["parts"] = j.parts;
            if (j.has_pb) { toml::array a; for (int k = 0; k < j.npb; k++) a.push_back(toml::value(j.pb[k])); t["parts_bytes"] = a; }
            inj.push_back(toml::value(t));
        }
        root["injection"] = inj;
    }
    doc = toml::value(root);
    return doc;
}
