// Model of the underlying POSIX file system (one in-memory tree), used by the engine and by model-FS replays.
#include "env.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
namespace {
enum { NINO = VP_VCAP == 16 ? 40 : 16, NENT = VP_VCAP == 16 ? 48 : 24, NFD = 64, PL = 64 }; // harnesses with files of 16 bytes get more of them
struct Ino { int used, nlink, opens; mode_t mode; i64 size; timespec a, m, c; u8 data[VCAP + 8]; char target[PL]; uid_t uid; gid_t gid; };
struct Ent { int used; char path[PL]; int ino; };
struct Fd { int used, ino, flags; i64 off; int fifo; };
Ino ino[NINO]; Ent ent[NENT]; Fd fd_[NFD];
struct Dir { int used; char path[PL]; int pos; struct dirent de; };
Dir dirs[4];
char fifo_path[2][PL]; int nfifo;
char fifo_buf[1024]; int fifo_n;
volatile int fifo_avail, fifo_idle;
const char ROOT[] = "/r";

timespec now() { timespec t; clock_gettime(CLOCK_REALTIME, &t); return t; }
int err(int e) { errno = e; return -1; }
bool inject(int cls) {
    if (!((env_fault_mask >> cls) & 1) || env_fault_budget <= 0) return false;
    if (!sym_choose("fault", 2)) return false;
    env_fault_budget--; env_fault_fired |= 1 << cls;
    return true;
}
int find(const char* p) {
    if (!p) return -1;
    for (int i = 0; i < NENT; i++) if (ent[i].used && !strcmp(ent[i].path, p)) return i;
    return -1;
}
void parent(const char* p, char* out) {
    strcpy(out, p);
    char* s = strrchr(out, '/');
    if (s) { if (s == out) s[1] = 0; else *s = 0; } else out[0] = 0;
}
// returns entry index after following a final symlink
int walk(const char* p, bool follow, char* final_) {
    char cur[PL];
    if (strlen(p) >= PL) { errno = ENAMETOOLONG; return -1; }
    strcpy(cur, p);
    size_t l = strlen(cur);
    if (l > 1 && cur[l - 1] == '/') cur[l - 1] = 0;
    for (int n = 0; n < 8; n++) {
        int e = find(cur);
        if (final_) strcpy(final_, cur);
        if (e < 0) {
            char par[PL]; parent(cur, par);
            int pe = find(par);
            errno = (pe >= 0 && !S_ISDIR(ino[ent[pe].ino].mode)) ? ENOTDIR : ENOENT;
            return -1;
        }
        Ino& I = ino[ent[e].ino];
        if (!follow || !S_ISLNK(I.mode)) return e;
        if (I.target[0] == '/') strcpy(cur, I.target);
        else { char par[PL]; parent(cur, par); strcpy(cur, par); strcat(cur, "/"); strcat(cur, I.target); }
    }
    errno = ELOOP;
    return -1;
}
int newino(mode_t mode) {
    for (int i = 1; i < NINO; i++) if (!ino[i].used) {
        memset(&ino[i], 0, sizeof(Ino));
        ino[i].used = 1; ino[i].mode = mode; ino[i].nlink = 1;
        ino[i].a = ino[i].m = ino[i].c = now();
        return i;
    }
    errno = ENOSPC;
    return -1;
}
int newent(const char* p, int i) {
    for (int k = 0; k < NENT; k++) if (!ent[k].used) { ent[k].used = 1; strcpy(ent[k].path, p); ent[k].ino = i; return k; }
    errno = ENOSPC;
    return -1;
}
void drop(int i) { if (ino[i].nlink <= 0 && ino[i].opens <= 0) ino[i].used = 0; }
bool parent_ok(const char* p) {
    char par[PL]; parent(p, par);
    int e = find(par);
    if (e < 0) { errno = ENOENT; return false; }
    if (!S_ISDIR(ino[ent[e].ino].mode)) { errno = ENOTDIR; return false; }
    return true;
}
void fill(int i, struct stat* st) {
    memset(st, 0, sizeof *st);
    Ino& I = ino[i];
    st->st_ino = 100 + i; st->st_mode = I.mode; st->st_nlink = I.nlink; st->st_size = I.size;
    st->st_atim = I.a; st->st_mtim = I.m; st->st_ctim = I.c; st->st_blksize = 4096; st->st_blocks = (I.size + 511) / 512;
    st->st_uid = I.uid; st->st_gid = I.gid; st->st_dev = 7;
}
i64 hi() { return env_hole_at + env_hole_len; }
i64 packed(i64 n) { // how many of the n first bytes are outside the hole
    if (!env_hole_len) return n;
    if (n <= env_hole_at) return n;
    return n <= hi() ? env_hole_at : n - env_hole_len;
}
void settrunc(int i, i64 n) {
    Ino& I = ino[i];
    i64 pn = packed(n);
    for (int k = 0; k < VCAP; k++) I.data[k] = (u8)sym_ite(k < pn, I.data[k], 0);
    I.size = n;
    I.m = I.c = now();
}
Fd* getfd(int f) { if (f < 3 || f >= NFD || !fd_[f].used) { errno = EBADF; return 0; } return &fd_[f]; }
u64 sel(int64_t c, u64 a, u64 b) { return sym_ite(c, a, b); }
ssize_t do_write(Fd* F, const void* b, u64 n, i64 off) {
    Ino& I = ino[F->ino];
    if (off < 0) return err(EINVAL);
    i64 o = off;
    if (env_hole_len) { if (off >= hi()) o = off - env_hole_len; else if (off + (i64)n > env_hole_at) return err(EFBIG); }
    if (o + (i64)n > VCAP || n > VCAP) return err(EFBIG);
    memcpy(I.data + o, b, n);
    i64 end = off + (i64)n;
    I.size = (i64)sel((end > I.size) & (n > 0), end, I.size);
    I.m = I.c = now();
    return n;
}
}
extern "C" {
i64 env_hole_at, env_hole_len;
int env_fault_mask, env_fault_budget, env_fault_fired;
char env_done_buf[256]; int env_done_len;
void (*env_done_hook)(void);
jmp_buf env_jmp; int env_jmp_on; int env_killed;

int vfs_open(const char* p, int flags, mode_t mode) {
    for (int k = 0; k < nfifo; k++) if (!strcmp(p, fifo_path[k])) {
        for (int f = 3; f < NFD; f++) if (!fd_[f].used) { fd_[f].used = 1; fd_[f].fifo = k + 1; fd_[f].flags = flags; return f; }
        return err(EMFILE);
    }
    if (inject(F_OPEN)) return err(EMFILE);
    char fin[PL];
    int e = walk(p, !(flags & O_NOFOLLOW), fin);
    int i;
    if (e < 0) {
        if (errno != ENOENT || !(flags & O_CREAT)) return -1;
        if (!parent_ok(fin)) return -1;
        i = newino(S_IFREG | (mode & 0777));
        if (i < 0) return -1;
        if (newent(fin, i) < 0) { ino[i].used = 0; return -1; }
    } else {
        i = ent[e].ino;
        if ((flags & O_CREAT) && (flags & O_EXCL)) return err(EEXIST);
        if (S_ISDIR(ino[i].mode) && (flags & O_ACCMODE) != O_RDONLY) return err(EISDIR);
        if ((flags & O_DIRECTORY) && !S_ISDIR(ino[i].mode)) return err(ENOTDIR);
        if ((flags & O_TRUNC) && S_ISREG(ino[i].mode)) settrunc(i, 0);
    }
    for (int f = 3; f < NFD; f++) if (!fd_[f].used) {
        fd_[f].used = 1; fd_[f].ino = i; fd_[f].flags = flags; fd_[f].off = 0; fd_[f].fifo = 0;
        ino[i].opens++;
        return f;
    }
    return err(EMFILE);
}
int vfs_open64(const char* p, int flags, mode_t mode) { return vfs_open(p, flags, mode); }
int vfs_creat(const char* p, mode_t mode) { return vfs_open(p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int vfs_openat(int, const char* p, int flags, mode_t mode) { return vfs_open(p, flags, mode); }
int vfs_close(int f) {
    Fd* F = getfd(f);
    if (!F) return -1;
    F->used = 0;
    if (F->fifo) { if (F->fifo == 1) fifo_idle = 1; return 0; }
    ino[F->ino].opens--;
    drop(F->ino);
    return 0;
}
ssize_t vfs_pread(int f, void* b, size_t n, off_t off) {
    Fd* F = getfd(f);
    if (!F) return -1;
    if ((F->flags & O_ACCMODE) == O_WRONLY) return err(EBADF);
    if (off < 0) return err(EINVAL);
    Ino& I = ino[F->ino];
    if (S_ISDIR(I.mode)) return err(EISDIR);
    if (inject(F_PREAD)) return err(EIO);
    i64 avail = (i64)sel(off < I.size, I.size - off, 0);
    u64 k = sel((u64)n < (u64)avail, n, avail);
    i64 po = off;
    if (env_hole_len) {
        if (off >= hi()) po = off - env_hole_len;
        else if (off + (i64)k > env_hole_at) { // runs into the hole: zeros there
            if (k > 4 * VCAP || off + (i64)k > hi()) return err(EIO);
            for (u64 q = 0; q < 4 * VCAP; q++) if (q < k) ((u8*)b)[q] = off + (i64)q < env_hole_at ? I.data[off + q] : 0;
            return k;
        }
    }
    u64 o = sel(po < VCAP, po, VCAP);
    memcpy(b, I.data + o, k);
    return k;
}
ssize_t vfs_pread64(int f, void* b, size_t n, off_t off) { return vfs_pread(f, b, n, off); }
ssize_t vfs_pwrite(int f, const void* b, size_t n, off_t off) {
    Fd* F = getfd(f);
    if (!F) return -1;
    if ((F->flags & O_ACCMODE) == O_RDONLY) return err(EBADF);
    if (inject(F_PWRITE)) return err(ENOSPC);
    if (inject(F_SHORT)) { u64 k = sym_u64("short", 0, VCAP); sym_assume(k < n); n = k; }
    if (F->flags & O_APPEND) off = ino[F->ino].size; // Linux: pwrite on O_APPEND appends
    return do_write(F, b, n, off);
}
ssize_t vfs_pwrite64(int f, const void* b, size_t n, off_t off) { return vfs_pwrite(f, b, n, off); }
ssize_t vfs_write(int f, const void* b, size_t n) {
    Fd* F = getfd(f);
    if (!F) return -1;
    if (F->fifo) {
        for (size_t k = 0; k < n && env_done_len < 255; k++) env_done_buf[env_done_len++] = ((const char*)b)[k];
        env_done_buf[env_done_len] = 0;
        if (env_done_hook) env_done_hook();
        return n;
    }
    ssize_t r = vfs_pwrite(f, b, n, F->off);
    if (r > 0) F->off += r;
    return r;
}
ssize_t vfs_read(int f, void* b, size_t n) {
    Fd* F = getfd(f);
    if (!F) return -1;
    if (F->fifo) {
        if (!fifo_n) { fifo_idle = 1; }
        while (!fifo_n) { sym_wait(&fifo_avail); }
        size_t k = (size_t)fifo_n < n ? (size_t)fifo_n : n;
        memcpy(b, fifo_buf, k);
        memmove(fifo_buf, fifo_buf + k, fifo_n - k);
        fifo_n -= k;
        if (!fifo_n) fifo_avail = 0;
        return k;
    }
    ssize_t r = vfs_pread(f, b, n, F->off);
    if (r > 0) F->off += r;
    return r;
}
ssize_t vfs_pwritev(int f, const struct iovec* v, int cnt, off_t off) {
    Fd* F = getfd(f);
    if (!F) return -1;
    if ((F->flags & O_ACCMODE) == O_RDONLY) return err(EBADF);
    if (inject(F_PWRITE)) return err(ENOSPC);
    u64 total = 0, lim = ~0ull;
    if (inject(F_SHORT)) {
        u64 all = 0;
        for (int k = 0; k < cnt; k++) all += v[k].iov_len;
        lim = sym_u64("short", 0, VCAP); sym_assume(lim < all);
    }
    if (F->flags & O_APPEND) off = ino[F->ino].size;
    for (int k = 0; k < cnt; k++) {
        u64 l = v[k].iov_len;
        l = sel(lim - total < l, lim - total, l);
        if (do_write(F, v[k].iov_base, l, off + total) < 0) return total ? (ssize_t)total : -1;
        total += l;
    }
    return total;
}
ssize_t vfs_pwritev64(int f, const struct iovec* v, int cnt, off_t off) { return vfs_pwritev(f, v, cnt, off); }
ssize_t vfs_preadv(int f, const struct iovec* v, int cnt, off_t off) {
    ssize_t t = 0;
    for (int k = 0; k < cnt; k++) { ssize_t r = vfs_pread(f, v[k].iov_base, v[k].iov_len, off + t); if (r < 0) return t ? t : -1; t += r; if ((u64)r < v[k].iov_len) break; }
    return t;
}
ssize_t vfs_preadv64(int f, const struct iovec* v, int cnt, off_t off) { return vfs_preadv(f, v, cnt, off); }
int vfs_ftruncate(int f, off_t n) {
    Fd* F = getfd(f);
    if (!F) return -1;
    if ((F->flags & O_ACCMODE) == O_RDONLY) return err(EINVAL);
    if (inject(F_TRUNC)) return err(EIO);
    if (n < 0) return err(EINVAL);
    if (packed(n) > VCAP) return err(EFBIG);
    settrunc(F->ino, n);
    return 0;
}
int vfs_ftruncate64(int f, off_t n) { return vfs_ftruncate(f, n); }
int vfs_truncate(const char* p, off_t n) {
    int e = walk(p, true, 0);
    if (e < 0) return -1;
    if (S_ISDIR(ino[ent[e].ino].mode)) return err(EISDIR);
    if (inject(F_TRUNC)) return err(EIO);
    if (n < 0) return err(EINVAL);
    if (packed(n) > VCAP) return err(EFBIG);
    settrunc(ent[e].ino, n);
    return 0;
}
int vfs_truncate64(const char* p, off_t n) { return vfs_truncate(p, n); }
int vfs_lstat(const char* p, struct stat* st) { int e = walk(p, false, 0); if (e < 0) return -1; if (inject(F_STAT)) return err(EIO); fill(ent[e].ino, st); return 0; }
int vfs_stat(const char* p, struct stat* st) { int e = walk(p, true, 0); if (e < 0) return -1; if (inject(F_STAT)) return err(EIO); fill(ent[e].ino, st); return 0; }
int vfs_fstat(int f, struct stat* st) { Fd* F = getfd(f); if (!F) return -1; fill(F->ino, st); return 0; }
int vfs_lstat64(const char* p, struct stat* st) { return vfs_lstat(p, st); }
int vfs_stat64(const char* p, struct stat* st) { return vfs_stat(p, st); }
int vfs_fstat64(int f, struct stat* st) { return vfs_fstat(f, st); }
int vfs_fsync(int f) { if (!getfd(f)) return -1; if (inject(F_FSYNC)) return err(EIO); return 0; }
int vfs_fdatasync(int f) { return vfs_fsync(f); }
int vfs_unlink(const char* p) {
    int e = walk(p, false, 0);
    if (e < 0) return -1;
    if (S_ISDIR(ino[ent[e].ino].mode)) return err(EISDIR);
    if (inject(F_UNLINK)) return err(EACCES);
    int i = ent[e].ino;
    ent[e].used = 0;
    ino[i].nlink--; ino[i].c = now();
    drop(i);
    return 0;
}
int vfs_remove(const char* p) { return vfs_unlink(p); }
static bool dir_empty(const char* p) {
    size_t l = strlen(p);
    for (int k = 0; k < NENT; k++) if (ent[k].used && !strncmp(ent[k].path, p, l) && ent[k].path[l] == '/') return false;
    return true;
}
int vfs_rename(const char* a, const char* b) {
    int ea = walk(a, false, 0);
    if (ea < 0) return -1;
    if (strlen(b) >= PL) return err(ENAMETOOLONG);
    if (!parent_ok(b)) return -1;
    bool ad = S_ISDIR(ino[ent[ea].ino].mode);
    size_t la = strlen(a);
    if (ad && !strncmp(b, a, la) && b[la] == '/') return err(EINVAL);
    if (inject(F_RENAME)) return err(EACCES);
    int eb = find(b);
    if (eb >= 0) {
        if (ent[eb].ino == ent[ea].ino) return 0;
        bool bd = S_ISDIR(ino[ent[eb].ino].mode);
        if (ad && !bd) return err(ENOTDIR);
        if (!ad && bd) return err(EISDIR);
        if (bd && !dir_empty(b)) return err(ENOTEMPTY);
        int i = ent[eb].ino;
        ent[eb].used = 0;
        ino[i].nlink--;
        drop(i);
    }
    if (ad)
        for (int k = 0; k < NENT; k++) if (ent[k].used && k != ea && !strncmp(ent[k].path, a, la) && ent[k].path[la] == '/') {
            char t[PL]; strcpy(t, b); strcat(t, ent[k].path + la); strcpy(ent[k].path, t);
        }
    strcpy(ent[ea].path, b);
    return 0;
}
int vfs_link(const char* a, const char* b) {
    int ea = walk(a, false, 0);
    if (ea < 0) return -1;
    if (find(b) >= 0) return err(EEXIST);
    if (!parent_ok(b)) return -1;
    if (S_ISDIR(ino[ent[ea].ino].mode)) return err(EPERM);
    if (inject(F_LINK)) return err(EACCES);
    if (newent(b, ent[ea].ino) < 0) return -1;
    ino[ent[ea].ino].nlink++; ino[ent[ea].ino].c = now();
    return 0;
}
int vfs_symlink(const char* t, const char* p) {
    if (find(p) >= 0) return err(EEXIST);
    if (!parent_ok(p)) return -1;
    int i = newino(S_IFLNK | 0777);
    if (i < 0) return -1;
    strcpy(ino[i].target, t); ino[i].size = strlen(t);
    return newent(p, i) < 0 ? -1 : 0;
}
ssize_t vfs_readlink(const char* p, char* b, size_t n) {
    int e = walk(p, false, 0);
    if (e < 0) return -1;
    Ino& I = ino[ent[e].ino];
    if (!S_ISLNK(I.mode)) return err(EINVAL);
    size_t l = strlen(I.target);
    if (l > n) l = n;
    memcpy(b, I.target, l);
    return l;
}
int vfs_mkdir(const char* p, mode_t m) {
    if (find(p) >= 0) return err(EEXIST);
    if (!parent_ok(p)) return -1;
    int i = newino(S_IFDIR | (m & 0777));
    if (i < 0) return -1;
    ino[i].nlink = 2;
    return newent(p, i) < 0 ? -1 : 0;
}
int vfs_rmdir(const char* p) {
    int e = walk(p, false, 0);
    if (e < 0) return -1;
    if (!S_ISDIR(ino[ent[e].ino].mode)) return err(ENOTDIR);
    if (!dir_empty(p)) return err(ENOTEMPTY);
    ino[ent[e].ino].used = 0;
    ent[e].used = 0;
    return 0;
}
int vfs_access(const char* p, int) { return walk(p, true, 0) < 0 ? -1 : 0; }
int vfs_chmod(const char* p, mode_t m) { int e = walk(p, true, 0); if (e < 0) return -1; Ino& I = ino[ent[e].ino]; I.mode = (I.mode & S_IFMT) | (m & 07777); I.c = now(); return 0; }
static int do_chown(const char* p, uid_t u, gid_t g, bool follow) { int e = walk(p, follow, 0); if (e < 0) return -1; Ino& I = ino[ent[e].ino]; if (u != (uid_t)-1) I.uid = u; if (g != (gid_t)-1) I.gid = g; I.c = now(); return 0; }
int vfs_lchown(const char* p, uid_t u, gid_t g) { return do_chown(p, u, g, false); }
int vfs_chown(const char* p, uid_t u, gid_t g) { return do_chown(p, u, g, true); }
static void sett(Ino& I, const timespec* t) {
    timespec n = now();
    if (!t) { I.a = I.m = n; }
    else {
        if (t[0].tv_nsec == UTIME_NOW) I.a = n; else if (t[0].tv_nsec != UTIME_OMIT) I.a = t[0];
        if (t[1].tv_nsec == UTIME_NOW) I.m = n; else if (t[1].tv_nsec != UTIME_OMIT) I.m = t[1];
    }
    I.c = n;
}
int vfs_utimensat(int, const char* p, const struct timespec t[2], int fl) {
    int e = walk(p, !(fl & AT_SYMLINK_NOFOLLOW), 0);
    if (e < 0) return -1;
    if (inject(F_UTIME)) return err(EACCES);
    sett(ino[ent[e].ino], t);
    return 0;
}
int vfs_futimens(int f, const struct timespec t[2]) { Fd* F = getfd(f); if (!F) return -1; sett(ino[F->ino], t); return 0; }
int vfs_utimes(const char* p, const struct timeval tv[2]) {
    int e = walk(p, true, 0);
    if (e < 0) return -1;
    if (inject(F_UTIME)) return err(EACCES);
    if (!tv) { sett(ino[ent[e].ino], 0); return 0; }
    timespec t[2] = {{tv[0].tv_sec, tv[0].tv_usec * 1000}, {tv[1].tv_sec, tv[1].tv_usec * 1000}};
    sett(ino[ent[e].ino], t);
    return 0;
}
off_t vfs_lseek(int f, off_t o, int wh) {
    Fd* F = getfd(f);
    if (!F) return -1;
    i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? F->off : wh == SEEK_END ? ino[F->ino].size : -1;
    if (b < 0) {
        if (wh == SEEK_DATA || wh == SEEK_HOLE) { if (o >= ino[F->ino].size || o < 0) return err(ENXIO); return F->off = wh == SEEK_DATA ? o : ino[F->ino].size; }
        return err(EINVAL);
    }
    if (b + o < 0) return err(EINVAL);
    return F->off = b + o;
}
off_t vfs_lseek64(int f, off_t o, int wh) { return vfs_lseek(f, o, wh); }
DIR* vfs_opendir(const char* p) {
    int e = walk(p, true, 0);
    if (e < 0) return 0;
    if (!S_ISDIR(ino[ent[e].ino].mode)) { errno = ENOTDIR; return 0; }
    for (int d = 0; d < 4; d++) if (!dirs[d].used) { dirs[d].used = 1; dirs[d].pos = -2; strcpy(dirs[d].path, ent[e].path); return (DIR*)&dirs[d]; }
    errno = EMFILE;
    return 0;
}
struct dirent* vfs_readdir(DIR* dp) {
    Dir* d = (Dir*)dp;
    memset(&d->de, 0, sizeof d->de);
    if (d->pos < 0) { strcpy(d->de.d_name, d->pos == -2 ? "." : ".."); d->de.d_type = DT_DIR; d->de.d_ino = 1; d->pos++; return &d->de; }
    size_t l = strlen(d->path);
    for (; d->pos < NENT; d->pos++) {
        Ent& E = ent[d->pos];
        if (!E.used || strncmp(E.path, d->path, l) || E.path[l] != '/' || strchr(E.path + l + 1, '/')) continue;
        strcpy(d->de.d_name, E.path + l + 1);
        mode_t m = ino[E.ino].mode;
        d->de.d_type = S_ISDIR(m) ? DT_DIR : S_ISLNK(m) ? DT_LNK : DT_REG;
        d->de.d_ino = 100 + E.ino;
        d->pos++;
        return &d->de;
    }
    return 0;
}
struct dirent* vfs_readdir64(DIR* dp) { return vfs_readdir(dp); }
int vfs_closedir(DIR* dp) { ((Dir*)dp)->used = 0; return 0; }
int vfs_mkfifo(const char* p, mode_t) {
    for (int k = 0; k < nfifo; k++) if (!strcmp(fifo_path[k], p)) return err(EEXIST);
    if (nfifo == 2) return err(ENOSPC);
    strcpy(fifo_path[nfifo++], p);
    return 0;
}
pid_t vfs_getpid(void) { return 4242; }
int vfs_kill(pid_t, int s) {
    if (env_killed) return 0;
    env_killed = s;
    if (env_jmp_on) longjmp(env_jmp, 1);
    return 0;
}
int vfs_raise(int s) { return vfs_kill(0, s); }
int vfs_flock(int, int) { return 0; }
unsigned vfs_sleep(unsigned) { return 0; }
int vfs_usleep(unsigned) { return 0; }

// ---- harness access
void env_fs_init(void) {
    if (ent[0].used) return;
    int i = newino(S_IFDIR | 0755);
    newent(ROOT, i);
}
const char* P_(const char* n) {
    static char b[8][PL]; static int k;
    char* o = b[k++ & 7];
    strcpy(o, ROOT);
    if (*n) { strcat(o, "/"); strcat(o, n); }
    return o;
}
void env_put(const char* p, const void* d, u64 n) {
    int e = find(p), i;
    if (e < 0) { i = newino(S_IFREG | 0644); newent(p, i); } else i = ent[e].ino;
    memset(ino[i].data, 0, VCAP);
    memcpy(ino[i].data, d, packed(n));
    ino[i].size = n;
}
int env_exists(const char* p) { return find(p) >= 0; }
i64 env_size(const char* p) { int e = find(p); return e < 0 ? -1 : ino[ent[e].ino].size; }
u64 env_ino(const char* p) { int e = find(p); return e < 0 ? 0 : 100 + ent[e].ino; }
void env_data(const char* p, void* o) { int e = find(p); if (e < 0) memset(o, 0, VCAP); else memcpy(o, ino[ent[e].ino].data, VCAP); }
void env_stat(const char* p, struct stat* st) { int e = find(p); memset(st, 0, sizeof *st); if (e >= 0) fill(ent[e].ino, st); }
int env_open_fds(void) { int n = 0; for (int f = 3; f < NFD; f++) n += fd_[f].used && !fd_[f].fifo; return n; }
void env_cmd_raw(const char* s, int n) {
    memcpy(fifo_buf + fifo_n, s, n);
    fifo_n += n;
    fifo_idle = 0; fifo_avail = 1;
    sym_wait(&fifo_idle);
}
void env_cmd_wait_ready(void) { sym_wait(&fifo_idle); }
}
