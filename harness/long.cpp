// VCAP 2080
// Files of more contiguous dirty blocks than one vectored write can take (IOV_MAX = 1024): what fsync, checkpoint and
// reads do with long runs of blocks.
#include "fsm.h"
static H h; static MF* m = &mf[0];
static const char* p;
static int NBLK;
static u8 big[VCAP];
static void fillpat(int from, int to, int salt) { for (int i = from; i < to; i++) big[i] = (u8)(i * 7 + (i >> 8) * 13 + salt); }
static void long_body() {
    p = P_("a"); memset(m, 0, sizeof *m); env_put(p, "", 0);
    sym_assert(h_open(&h, p, O_RDWR, m) == 0, "open");
    u64 rest = sym_u64("rest", 1, BS), n = (u64)(NBLK - 1) * BS + rest;
    fillpat(0, NBLK * BS, 1);
    sym_bytes(big, 3, "data"); sym_bytes(big + 1020 * BS, 8 * BS, "data");
    h_write(&h, big, n, 0);
    int hole = pick("hole", 3); // one run of dirty blocks / a clean block in the middle / the run is rewritten piecewise after a sync
    if (hole == 1) { h_fsync(&h, 0); ck_disk(p, m, "long-file-is-complete-on-disk"); u8 z; sym_bytes(&z, 1, "again"); h_write(&h, &z, 1, 5 * BS); u64 o = (u64)(NBLK - 1) * BS; h_write(&h, &z, 1, o); }
    if (hole == 2) { h_trunc(&h, (u64)(NBLK - 4) * BS + 1, 1); u8 z[2]; sym_bytes(z, 2, "again"); h_write(&h, z, 2, m->vsz); }
    sym_assert(hole == 1 || env_size(p) == 0, "nothing-reaches-the-disk-before-the-sync");
    if (pick("sync", 2)) { env_cmd("lazyfs::cache-checkpoint"); m_sync(m); } else h_fsync(&h, 0);
    ck_disk(p, m, "long-file-is-complete-on-disk");
    h_read(&h, 0, VCAP, "read-returns-latest-data");
    env_cmd("lazyfs::clear-cache"); m_clear(m);
    h_read(&h, 1000 * BS, VCAP - 1000 * BS, "read-returns-latest-data");
    ck_attr(p, m);
    sym_reach("end");
}
// blocks of one or two bytes; around the limit
extern "C" void long_(long lo, long hi) {
    AM = 15; int b = 1 + pick("block", 2); NBLK = lo + pick("blocks", hi - lo + 1); cfg(b, b, NBLK, 0); // exactly as many blocks as the cache holds
    env_run(long_body);
}
