// Harness-side environment API: configuration, boot through the real main(), the FUSE operation table,
// control FIFO, direct access to the underlying (persistent) file system, crash capture.
#pragma once
#ifndef FUSE_USE_VERSION
#define FUSE_USE_VERSION 35
#endif
#include "sym.h"
#include <fuse3/fuse.h>
#include <setjmp.h>
#include <sys/stat.h>
typedef int64_t i64;
typedef uint64_t u64;
typedef uint8_t u8;
#ifndef VP_VCAP
#define VP_VCAP 32
#endif
enum { VCAP = VP_VCAP }; // bytes of data a file can hold; with a hole, offsets from hole_at + hole_len on come right after hole_at

struct EnvInj { // one [[injection]] table; has_* select which keys are present
    const char* type; const char* file; const char* op; const char* timing; const char* from; const char* to;
    int has_occurrence; i64 occurrence; int has_crash; i64 crash;
    int has_persist; int npersist; i64 persist[4]; int has_parts; i64 parts; int has_pb; int npb; i64 pb[4];
};
struct EnvCfg {
    i64 block, page, npages; int eviction; /* -1: key absent */ int completed; int log_ops;
    int simple; const char* custom_size; i64 bpp; /* -1 absent */
    int ninj; EnvInj inj[4];
};
extern "C" {
extern EnvCfg env_cfg;
extern const struct fuse_operations* ops;
extern int env_killed;     // signal the process sent to itself
extern int env_log_on;
extern i64 env_hole_at, env_hole_len; // [hole_at, hole_at + hole_len) of every file is never written (0: no hole)
extern jmp_buf env_jmp;
extern int env_jmp_on;
extern int env_fault_mask, env_fault_budget, env_fault_fired;
extern char env_done_buf[256];
extern int env_done_len;
extern void (*env_done_hook)(void); // called while a line is being written to the completion FIFO
extern int env_argc, env_fuse_argc; extern char** env_argv; extern char** env_fuse_argv; // command line given (0: the usual one), and what libfuse got of it
extern char env_config_file[128]; // the configuration file that was parsed
void env_run(void (*body)(void)); // does not return
void env_try_run(void (*body)(void)); // returns if LazyFS refuses to start
void env_log_line(int level, const char* fmt, const void* args, int n); // a harness may define it (with env_log_on)
const char* P_(const char* name); // path of a name below the underlying root
void env_put(const char* path, const void* data, u64 n); // n may be symbolic, <= VCAP
int env_exists(const char* path);
i64 env_size(const char* path);
void env_data(const char* path, void* out /* VCAP bytes, zero padded */);
u64 env_ino(const char* path);
void env_stat(const char* path, struct stat* st);
void env_cmd(const char* line); // one line into the control FIFO; returns when it has been processed
void env_cmd_raw(const char* bytes, int n);
int env_open_fds(void);
}
enum { F_OPEN = 0, F_PREAD, F_PWRITE, F_TRUNC, F_SHORT, F_FSYNC, F_RENAME, F_UNLINK, F_LINK, F_STAT, F_UTIME };
#define CRASHABLE(stmt) do { env_killed = 0; if (!setjmp(env_jmp)) { env_jmp_on = 1; stmt; } env_jmp_on = 0; } while (0)
