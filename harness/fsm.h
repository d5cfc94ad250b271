// Reference model of LazyFS as its user sees it: every regular file has a visible content (what reads return) and a
// persisted content (what the underlying file system holds).  All updates and comparisons are branch-free so that the
// model itself does not multiply paths.
#pragma once
#include "env.h"
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
struct MF { i64 vsz, dsz; u8 v[VCAP], d[VCAP]; i64 sh; }; // sh: offset of the model's byte 0 in the file
struct H { const char* path; struct fuse_file_info fi; MF* m; };
static MF mf[4];
static int BS = 4; // block size of the configuration under test
enum { A_VIS = 1, A_DISK = 2, A_ATTR = 4, A_RET = 8 };
static i64 SH;     // files under test start with this many bytes that nobody touches (large offsets)
static int AM = 15; // which assertions the current property makes, and how a history ends
enum { END_SYNC = 16, END_CHECKPOINT = 32, END_CLEAR = 64 };
#define CK(mask, c, label) do { if (AM & (mask)) sym_assert((c), label); } while (0)

static inline int pick(const char* n, int k) { return (int)sym_choose(n, k); }
static inline u64 mx(u64 a, u64 b) { return sym_ite(a > b, a, b); }
static inline u64 mn(u64 a, u64 b) { return sym_ite(a < b, a, b); }
static inline int eqn(const u8* a, const u8* b, int n) { u64 x = 0; for (int i = 0; i < n; i++) x |= (u64)(a[i] ^ b[i]); return x == 0; }
// first k bytes equal, k <= n symbolic
static inline int eqk(const u8* a, const u8* b, u64 k, int n) { u64 x = 0; for (int i = 0; i < n; i++) x |= sym_ite((u64)i < k, (u64)(a[i] ^ b[i]), 0); return x == 0; }

static inline void m_write(MF* m, const u8* buf, u64 len, u64 off) { memcpy(m->v + off, buf, len); m->vsz = mx(m->vsz, off + len); }
static inline void m_trunc(MF* m, u64 n) { for (int i = 0; i < VCAP; i++) m->v[i] = (u8)sym_ite((u64)i < n, m->v[i], 0); m->vsz = n; }
static inline void m_sync(MF* m) { memcpy(m->d, m->v, VCAP); m->dsz = m->vsz; }
static inline void m_clear(MF* m) { memcpy(m->v, m->d, VCAP); m->vsz = m->dsz; }

// initial persisted content: symbolic size in [lo,hi], symbolic bytes
// initial persisted content: up to nblk blocks, symbolic size, symbolic bytes
static inline u64 symsize(const char* n, int nblk);
static inline void m_init(MF* m, const char* path, int nblk) {
    memset(m, 0, sizeof *m);
    u8 b[VCAP]; memset(b, 0, VCAP);
    u64 n = symsize("size0", nblk);
    int hi = nblk * BS;
    sym_bytes(b, hi, "disk0");
    for (int i = 0; i < hi; i++) m->d[i] = (u8)sym_ite((u64)i < n, b[i], 0);
    m->dsz = n;
    memcpy(m->v, m->d, VCAP); m->vsz = n; m->sh = SH;
    env_put(path, m->d, n + SH);
}
static inline void m_put(MF* m, const char* path, const char* s) {
    memset(m, 0, sizeof *m); u64 n = strlen(s); memcpy(m->d, s, n); memcpy(m->v, s, n); m->vsz = m->dsz = n; m->sh = SH;
    env_put(path, m->d, n + SH);
}
static inline void shift(i64 n) { SH = n; env_hole_at = 0; env_hole_len = n; }
static const i64 SHIFTS[] = {0, 0x100000000LL - 8, 0x80000000LL - 4, 0x80000000LL};
static inline int stat_op(const char* p, struct stat* st) { memset(st, 0xa5, sizeof *st); return ops->getattr(p, st, 0); }
static inline int lookup(const char* p) { struct stat st; return stat_op(p, &st); }
// kernel-like open: a lookup (getattr) precedes it
static inline int h_open(H* h, const char* p, int flags, MF* m) {
    memset(h, 0, sizeof *h); h->path = p; h->m = m; h->fi.flags = flags;
    lookup(p);
    return ops->open(p, &h->fi);
}
static inline int h_create(H* h, const char* p, int flags, MF* m) {
    memset(h, 0, sizeof *h); h->path = p; h->m = m; h->fi.flags = flags | O_CREAT;
    lookup(p);
    int r = ops->create(p, 0644, &h->fi);
    if (r == 0) memset(m, 0, sizeof *m);
    return r;
}
static inline void h_write(H* h, const u8* b, u64 len, u64 off) {
    int r = ops->write(h->path, (const char*)b, len, off + h->m->sh, &h->fi);
    CK(A_RET, r == (int)len, "write-returns-length");
    m_write(h->m, b, len, off);
}
// a byte range: the blocks it starts and ends in are chosen per path, the bytes inside them stay symbolic
static inline void symrange(const char* n1, const char* n2, int nblk, int span, u64* off, u64* len) {
    int b = pick(n1, nblk), e = b + pick(n2, span < nblk - b ? span : nblk - b);
    u64 i = sym_u64("first", 0, BS - 1), j = sym_u64("last", 0, BS - 1);
    if (b == e) sym_assume(i <= j);
    *off = b * BS + i; *len = e * BS + j - *off + 1;
}
static inline u64 symsize(const char* n, int nblk) { int b = pick(n, nblk); return b * BS + sym_u64("rest", 0, BS - 1); }
static inline void h_wsym(H* h, int nblk, int span) {
    u8 b[VCAP]; u64 off, len;
    symrange("wblk", "wspan", nblk, span, &off, &len);
    sym_bytes(b, span * BS, "data");
    h_write(h, b, len, off);
}
static inline void h_trunc(H* h, u64 n, int byfd) {
    int r = ops->truncate(h->path, n + h->m->sh, byfd ? &h->fi : 0);
    CK(A_RET, r == 0, "truncate-returns-0");
    m_trunc(h->m, n);
}
static inline void h_fsync(H* h, int data) {
    int r = ops->fsync(h->path, data, &h->fi);
    CK(A_RET, r == 0, "fsync-returns-0");
    m_sync(h->m);
}
// read [off, off+len): exact count, exact bytes, nothing beyond the caller's buffer touched
static inline void h_read(H* h, u64 off, u64 len, const char* what) {
    u8 out[VCAP + 8], ex[VCAP + 8];
    memset(out, 0xEE, sizeof out);
    int r = ops->read(h->path, (char*)out, len, off + h->m->sh, &h->fi);
    u64 n = sym_ite((i64)off < h->m->vsz, mn(len, h->m->vsz - off), 0);
    memset(ex, 0, sizeof ex);
    memcpy(ex, h->m->v + off, VCAP - off);
    int ok = (r == (int)n) & eqk(out, ex, n, VCAP);
    u64 x = 0;
    for (int i = 0; i < VCAP + 8; i++) x |= sym_ite((u64)i >= len, (u64)(out[i] ^ 0xEE), 0);
    CK(A_VIS, ok & (x == 0), what);
}
static inline void h_readsym(H* h, int nblk, int span) {
    u64 off, len;
    symrange("rblk", "rspan", nblk, span, &off, &len);
    h_read(h, off, len, "read-returns-latest-data");
}
static inline void ck_attr(const char* p, MF* m) {
    struct stat st;
    int r = stat_op(p, &st);
    CK(A_ATTR, (r == 0) & ((i64)st.st_size == m->vsz + m->sh) & (S_ISREG(st.st_mode) != 0), "getattr-size-is-visible-size");
}
static inline void ck_disk(const char* p, MF* m, const char* what) {
    u8 d[VCAP];
    env_data(p, d);
    CK(A_DISK, (env_size(p) == m->dsz + m->sh) & eqn(d, m->d, VCAP), what);
}
static inline void h_release(H* h) { ops->release(h->path, &h->fi); }
static inline void cfg(i64 block, i64 page, i64 npages, int evict) { BS = block; env_cfg.block = block; env_cfg.page = page; env_cfg.npages = npages; env_cfg.eviction = evict; }
