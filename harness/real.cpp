// VCAP 20480
// Block and page sizes as used in practice (4096, 512) and writes and reads of thousands of bytes.
#include "fsm.h"
static H h; static MF* m = &mf[0];
static const char* p;
static u8 buf[VCAP];
static int salt, WIDE;
static void fillbuf(u64 n) { // data: a pattern, symbolic bytes at both ends and in the middle
    salt += 31;
    for (u64 i = 0; i < n; i++) buf[i] = (u8)(i * 7 + (i >> 8) * 13 + salt);
    sym_bytes(buf, 1, "data"); if (n > 1) sym_bytes(buf + n - 1, 1, "data"); if (n > 8) sym_bytes(buf + n / 2, 2, "data");
}
static u64 of(const char* n, const int* v, int k) { return (u64)v[pick(n, k)]; }
static const int SZ[] = {0, 1, 4095, 4096, 5000, 8192, 12287};
static const int OFF[] = {0, 1, 4095, 4096, 6000, 8191};
static const int LEN[] = {1, 511, 4095, 4096, 4097, 8192, 10001};
static const int WOFF[] = {0, 4095};
static const int WLEN[] = {65536, 131073};
static void reads() {
    h_read(&h, 0, VCAP, "read-returns-latest-data");
    h_read(&h, 1, 4096, "read-returns-latest-data"); h_read(&h, 4095, 2, "read-returns-latest-data"); h_read(&h, 4097, 8000, "read-returns-latest-data");
    if (WIDE) { h_read(&h, 0, 131072, "read-returns-latest-data"); h_read(&h, 65535, 65537, "read-returns-latest-data"); }
    ck_attr(p, m);
    ck_disk(p, m, "disk-holds-exactly-the-persisted-content");
}
static void step(int ops_) {
    int o = pick("op", __builtin_popcount(ops_)), k = -1;
    do { do k++; while (!(ops_ >> k & 1)); } while (o-- > 0);
    switch (k) {
    case 0: { u64 off = WIDE ? of("off", WOFF, 2) : of("off", OFF, 6), n = WIDE ? of("len", WLEN, 2) : of("len", LEN, 7); fillbuf(n); h_write(&h, buf, n, off); break; }
    case 1: h_trunc(&h, WIDE ? of("tsize", WLEN, 2) : of("tsize", SZ, 7), pick("byfd", 2)); break;
    case 2: h_fsync(&h, 0); break;
    case 3: env_cmd("lazyfs::clear-cache"); m_clear(m); break;
    case 4: env_cmd("lazyfs::cache-checkpoint"); m_sync(m); break;
    }
}
static int K, OPS;
static void body() {
    p = P_("a"); memset(m, 0, sizeof *m); salt = 0;
    u64 n = WIDE ? of("size0", WLEN, 2) * pick("any", 2) : of("size0", SZ, 7); fillbuf(n);
    memcpy(m->d, buf, n); memcpy(m->v, buf, n); m->dsz = m->vsz = n; env_put(p, buf, n);
    sym_assert(h_open(&h, p, O_RDWR, m) == 0, "open");
    if (pick("cached", 2)) h_read(&h, 0, VCAP, "read-returns-latest-data");
    for (int i = 0; i < K; i++) step(i ? OPS >> 8 : OPS & 255);
    reads();
    switch (pick("end", 3)) {
    case 0: h_fsync(&h, 0); break;
    case 1: env_cmd("lazyfs::clear-cache"); m_clear(m); break;
    case 2: env_cmd("lazyfs::cache-checkpoint"); m_sync(m); env_cmd("lazyfs::clear-cache"); break;
    }
    reads();
    sym_reach("end");
}
// geo: 4096/4096, 4096/8192, 512/1024, 512/4096, 65536/65536; ops: first operation in the low byte, later ones above
extern "C" void real_(long k, long ops, long am, long geo) {
    static const int G[][3] = {{4096, 4096, 48}, {4096, 8192, 24}, {512, 1024, 300}, {512, 4096, 48}, {65536, 65536, 4}};
    K = k; OPS = ops; AM = am; WIDE = VCAP > 100000; cfg(G[geo][0], G[geo][1], G[geo][2], 0);
    env_run(body);
}
