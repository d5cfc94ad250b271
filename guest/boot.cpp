// Boots the real main() with a stand-in libfuse whose "session loop" is the harness body.
#include "env.h"
#include <string.h>
#include <stdlib.h>
extern int lazyfs_main(int, char**);
extern "C" {
EnvCfg env_cfg = {4, 4, 8, 0, 0, 0, 0, 0, -1, 0, {}};
const struct fuse_operations* ops;
int env_log_on;
int env_argc, env_fuse_argc; char** env_argv; char** env_fuse_argv; char env_config_file[128];
__attribute__((weak)) void env_log_line(int, const char*, const void*, int) {}
static void (*body_)(void);
static int trying_; static jmp_buf try_jmp_;
static struct fuse_context ctx_;
void env_fs_init(void);
void env_cmd_wait_ready(void);
struct fuse_context* vfs_fuse_get_context(void) { return &ctx_; }
int vfs_fuse_main_real(int argc, char** argv, const struct fuse_operations* op, size_t, void* priv) {
    ops = op; env_fuse_argc = argc; env_fuse_argv = argv;
    ctx_.private_data = priv;
    struct fuse_conn_info conn; memset(&conn, 0, sizeof conn);
    struct fuse_config cfg; memset(&cfg, 0, sizeof cfg);
    if (op->init) ctx_.private_data = op->init(&conn, &cfg);
    env_cmd_wait_ready();
    trying_ = 0;
    body_();
    sym_end();
    return 0;
}
// the process ends itself: expected only while a harness tries a configuration that must be refused
static void ended_(const char* what) { if (trying_) { trying_ = 0; longjmp(try_jmp_, 1); } sym_fail(what); }
void vfs___assert_fail(const char*, const char*, unsigned, const char*) { ended_("assertion-of-the-code-fails"); }
void vfs_abort(void) { ended_("process-aborts-itself"); }
void vfs_exit(int) { ended_("process-exits"); }
void vfs__exit(int) { ended_("process-exits"); }
static int main_() {
    static char a0[] = "lazyfs", a1[] = "/mnt", a2[] = "--config-path", a3[] = "cfg.toml";
    static char* av[] = {a0, a1, a2, a3, 0};
    return env_argc ? lazyfs_main(env_argc, env_argv) : lazyfs_main(4, av);
}
void env_run(void (*body)(void)) {
    body_ = body;
    env_fs_init();
    main_();
    sym_fail("mount-failed");
}
// as env_run, but returns when LazyFS refuses to start (exception, failed assertion, exit or error status)
void env_try_run(void (*body)(void)) {
    body_ = body;
    env_fs_init();
    if (setjmp(try_jmp_)) return;
    trying_ = 1;
    try { main_(); } catch (...) {}
    trying_ = 0;
}
void env_cmd(const char* s) {
    char b[512]; strcpy(b, s); strcat(b, "\n");
    env_cmd_raw(b, strlen(b));
}
}
