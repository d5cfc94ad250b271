// Large files: offsets around 2^31 and 2^32.  The file has two windows, its first bytes and the bytes around a large
// offset; the hole in between is never written.  And files of more blocks than one pwritev can take.
#include "fsm.h"
static H h; static MF* m = &mf[0];
static const char* p;
static long K, OPS;
static i64 HA, HL;                 // the model counts in packed positions: [0,HA) as they are, the high window from HA on
static i64 U(i64 pos) { return pos < HA ? pos : pos + HL; }            // offset of a packed position
static i64 US(i64 n) { return sym_ite(n <= HA, n, n + HL); }           // size; HA means the end of the low window
static int high;                   // the visible size is in the high window
static void rd(int blk, int nb, const char* what) {
    u8 out[VCAP], ex[VCAP]; memset(out, 0xEE, sizeof out); memset(ex, 0, sizeof ex);
    u64 off = blk * BS, len = nb * BS;
    int r = ops->read(h.path, (char*)out, len, U(off), &h.fi);
    u64 vs = m->vsz; // packed visible size
    u64 n = sym_ite(off < vs, mn(len, vs - off), 0);
    if (off < (u64)HA && high) n = len;
    memcpy(ex, m->v + off, len);
    sym_assert((r == (int)n) & eqk(out, ex, n, len), what);
}
static void check() {
    struct stat st;
    sym_assert((stat_op(p, &st) == 0) & (st.st_size == US(m->vsz)), "getattr-size-is-visible-size");
    u8 d[VCAP]; env_data(p, d);
    sym_assert((env_size(p) == US(m->dsz)) & eqn(d, m->d, VCAP), "disk-holds-exactly-the-persisted-content");
}
static int NB; // blocks in the model: 2 low ones, then high ones
static void step() {
    int o = pick("op", __builtin_popcount(OPS)), k = -1;
    do { do k++; while (!(OPS >> k & 1)); } while (o-- > 0);
    switch (k) {
    case 0: { // write inside one window; never one that would have to fill the hole
        int b = high ? pick("wblk", NB - 1) : pick("wblk", 1 + (HA > BS)), e = b;
        if (high && b >= 2) e += pick("wspan", 2); else if (b == 0) e += pick("wspan", 2);
        u64 i = sym_u64("first", 0, BS - 1), j = sym_u64("last", 0, BS - 1);
        if (b == e) sym_assume(i <= j);
        u64 off = b * BS + i, len = e * BS + j - off + 1;
        u8 z[VCAP]; sym_bytes(z, 2 * BS, "data");
        int r = ops->write(p, (char*)z, len, b < 2 ? off : off + HL, &h.fi);
        sym_assert(r == (int)len, "write-returns-length");
        memcpy(m->v + off, z, len); m->vsz = mx(m->vsz, off + len);
        break; }
    case 1: { // truncate: down anywhere, up only within the window
        int b = pick("tblk", high ? NB : 2); u64 n = b * BS + sym_u64("rest", b == 2 ? 1 : 0, BS - 1);
        int r = ops->truncate(p, b < 2 ? n : n + HL, pick("byfd", 2) ? &h.fi : 0);
        sym_assert(r == 0, "truncate-returns-0");
        m_trunc(m, n); high = b >= 2;
        break; }
    case 2: h_fsync(&h, pick("data", 2)); break;
    case 3: env_cmd("lazyfs::clear-cache"); m_clear(m); high = sym_concretize(m->vsz > HA); break;
    case 4: env_cmd("lazyfs::cache-checkpoint"); m_sync(m); break;
    case 5: { int b = pick("rblk", NB - 1); rd(b, b == 1 ? 1 : 2, "read-returns-latest-data"); break; }
    }
    check();
}
static void big_body() {
    p = P_("a"); memset(m, 0, sizeof *m);
    NB = 5; // packed blocks 0 1 | 2 3 4
    int b = 1 + pick("size0", NB - 1); u64 n = b * BS + sym_u64("rest0", b == 2 ? 1 : 0, BS - 1);
    u8 z[VCAP]; sym_bytes(z, NB * BS, "disk0");
    for (int i = 0; i < NB * BS; i++) m->d[i] = (u8)sym_ite((u64)i < n, z[i], 0);
    m->dsz = n; memcpy(m->v, m->d, VCAP); m->vsz = n; high = b >= 2;
    env_put(p, m->d, b < 2 ? n : n + HL);
    sym_assert(h_open(&h, p, O_RDWR, m) == 0, "open");
    for (int s = 0; s < K; s++) step();
    rd(0, 2, "read-returns-latest-data"); rd(2, 3, "read-returns-latest-data");
    switch (pick("sync", 3)) {
    case 0: h_fsync(&h, 0); break;
    case 1: env_cmd("lazyfs::cache-checkpoint"); m_sync(m); break;
    case 2: env_cmd("lazyfs::clear-cache"); m_clear(m); high = sym_concretize(m->vsz > HA); break;
    }
    check();
    rd(1, 1, "read-returns-latest-data"); rd(3, 2, "read-returns-latest-data");
    sym_reach("end");
}
extern "C" void big(long k, long opmask, long where, long geo) {
    K = k; OPS = opmask; AM = 15;
    static const int G[][3] = {{4, 4, 8}, {4, 8, 5}};
    cfg(G[geo][0], G[geo][1], G[geo][2], 0);
    HA = 2 * BS;
    static const i64 H0[] = {0x80000000LL, 0x100000000LL, 0x7ffffffcLL, 0x140000000LL};
    HL = H0[where] - HA; // the high window starts at H0
    env_hole_at = HA; env_hole_len = HL;
    env_run(big_body);
}
