// Real-kernel environment for replays: LazyFS's file operations go straight to the kernel, below a scratch directory;
// only the control FIFO, process kill and libfuse are replaced.
#include "env.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dirent.h>
#include <unistd.h>
static char fifo_path[2][256]; static int nfifo, fifo_open[2];
static char fifo_buf[4096]; static int fifo_n;
static volatile int fifo_avail, fifo_idle;
static const char* root() { static const char* r = getenv("VP_DIR"); return r; }
extern "C" {
i64 env_hole_at, env_hole_len;
int env_fault_mask, env_fault_budget, env_fault_fired;
char env_done_buf[256]; int env_done_len;
void (*env_done_hook)(void);
jmp_buf env_jmp; int env_jmp_on; int env_killed;
int vfs_open(const char* p, int flags, mode_t mode) {
    for (int k = 0; k < nfifo; k++) if (!strcmp(p, fifo_path[k])) return 1000 + k;
    return open(p, flags, mode);
}
int vfs_open64(const char* p, int flags, mode_t mode) { return vfs_open(p, flags, mode); }
int vfs_close(int f) { if (f >= 1000) { if (f == 1000) fifo_idle = 1; return 0; } return close(f); }
ssize_t vfs_write(int f, const void* b, size_t n) {
    if (f < 1000) return write(f, b, n);
    for (size_t k = 0; k < n && env_done_len < 255; k++) env_done_buf[env_done_len++] = ((const char*)b)[k];
    env_done_buf[env_done_len] = 0;
    if (env_done_hook) env_done_hook();
    return n;
}
ssize_t vfs_read(int f, void* b, size_t n) {
    if (f < 1000) return read(f, b, n);
    if (!fifo_n) fifo_idle = 1;
    while (!fifo_n) sym_wait(&fifo_avail);
    size_t k = (size_t)fifo_n < n ? (size_t)fifo_n : n;
    memcpy(b, fifo_buf, k);
    memmove(fifo_buf, fifo_buf + k, fifo_n - k);
    fifo_n -= k;
    if (!fifo_n) fifo_avail = 0;
    return k;
}
int vfs_mkfifo(const char* p, mode_t) {
    for (int k = 0; k < nfifo; k++) if (!strcmp(fifo_path[k], p)) { errno = EEXIST; return -1; }
    strcpy(fifo_path[nfifo++], p);
    return 0;
}
pid_t vfs_getpid(void) { return 4242; }
int vfs_kill(pid_t, int s) { if (env_killed) return 0; env_killed = s; if (env_jmp_on) longjmp(env_jmp, 1); return 0; }
int vfs_raise(int s) { return vfs_kill(0, s); }
void env_fs_init(void) {}
const char* P_(const char* n) {
    static char b[8][256]; static int k;
    char* o = b[k++ & 7];
    strcpy(o, root());
    if (*n) { strcat(o, "/"); strcat(o, n); }
    return o;
}
void env_put(const char* p, const void* d, u64 n) { int f = open(p, O_CREAT | O_WRONLY | O_TRUNC, 0644); if (env_hole_len && (i64)n > env_hole_at) {
        if (pwrite(f, d, env_hole_at, 0)) {}
        i64 hi = env_hole_at + env_hole_len;
        if ((i64)n > hi) { if (pwrite(f, (const char*)d + env_hole_at, n - hi, hi)) {} }
        if (ftruncate(f, n)) {}
    } else if (pwrite(f, d, n, 0)) {}
    close(f); }
int env_exists(const char* p) { struct stat st; return lstat(p, &st) == 0; }
i64 env_size(const char* p) { struct stat st; return lstat(p, &st) ? -1 : st.st_size; }
u64 env_ino(const char* p) { struct stat st; return lstat(p, &st) ? 0 : st.st_ino; }
void env_data(const char* p, void* o) { memset(o, 0, VCAP); int f = open(p, O_RDONLY); if (f >= 0) { if (env_hole_len) { if (pread(f, o, env_hole_at, 0)) {} if (pread(f, (char*)o + env_hole_at, VCAP - env_hole_at, env_hole_at + env_hole_len)) {} } else if (pread(f, o, VCAP, 0)) {} close(f); } }
void env_stat(const char* p, struct stat* st) { memset(st, 0, sizeof *st); lstat(p, st); }
int env_open_fds(void) {
    int n = 0; char l[64], t[256]; size_t rl = strlen(root());
    for (int f = 3; f < 256; f++) { snprintf(l, 64, "/proc/self/fd/%d", f); ssize_t k = readlink(l, t, 255); if (k > 0) { t[k] = 0; if (!strncmp(t, root(), rl)) n++; } }
    return n;
}
void env_cmd_raw(const char* s, int n) { memcpy(fifo_buf + fifo_n, s, n); fifo_n += n; fifo_idle = 0; fifo_avail = 1; sym_wait(&fifo_idle); }
void env_cmd_wait_ready(void) { sym_wait(&fifo_idle); }
}
