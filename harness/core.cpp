// C01-C05: one file, histories of write / truncate / fsync / checkpoint / clear-cache / reopen.
#include "fsm.h"
static int K, OPS, MASK;
static H h;
static const char* p;
static void step() {
    int o = pick("op", __builtin_popcount(OPS)), k = -1;
    do { do k++; while (!(OPS >> k & 1)); } while (o-- > 0);
    switch (k) {
    case 0: h_wsym(&h, BS == 1 && K < 3 ? 4 : 3, BS == 1 && K < 3 ? 4 : K == 1 ? 3 : 2); break;
    case 1: h_trunc(&h, symsize("tsize", 3), 1); break;
    case 2: h_trunc(&h, symsize("tsize", 3), 0); break;
    case 3: h_fsync(&h, 0); break;
    case 4: h_fsync(&h, 1); break;
    case 5: env_cmd("lazyfs::cache-checkpoint"); m_sync(h.m); break;
    case 6: env_cmd("lazyfs::clear-cache"); m_clear(h.m); break;
    case 7: h_release(&h); sym_assert(h_open(&h, p, O_RDWR | O_APPEND, h.m) == 0, "reopen"); break; // the kernel resolves appends to offsets
    case 8: h_release(&h); sym_assert(h_open(&h, p, O_RDWR | O_TRUNC, h.m) == 0, "reopen-trunc"); m_trunc(h.m, 0); break;
    case 9: h_readsym(&h, 3, 3); break;
    }
    ck_disk(p, h.m, "disk-holds-exactly-the-persisted-content");
    ck_attr(p, h.m);
}
static void body() {
    p = P_("a");
    m_init(&mf[0], p, 3);
    sym_assert(h_open(&h, p, O_RDWR, &mf[0]) == 0, "open");
    for (int i = 0; i < K; i++) step();
    h_read(&h, 0, 16, "read-returns-latest-data");
    ck_disk(p, h.m, "disk-holds-exactly-the-persisted-content");
    if (AM & END_SYNC) { h_fsync(&h, 0); ck_disk(p, h.m, "disk-holds-exactly-the-persisted-content"); }
    if (AM & END_CHECKPOINT) { env_cmd("lazyfs::cache-checkpoint"); m_sync(h.m); ck_disk(p, h.m, "disk-holds-exactly-the-persisted-content"); }
    if (AM & END_CLEAR) { env_cmd("lazyfs::clear-cache"); m_clear(h.m); }
    if (AM & (END_SYNC | END_CHECKPOINT | END_CLEAR)) { ck_attr(p, h.m); h_read(&h, 0, 16, "read-returns-latest-data"); ck_disk(p, h.m, "disk-holds-exactly-the-persisted-content"); }
    sym_reach("end");
}
// configurations: block size, page size, pages
static const int CF[][3] = {{4, 4, 8}, {4, 8, 5}, {2, 6, 6}, {1, 4, 6}, {4, 12, 3}};
extern "C" void seq(long k, long opsmask, long am, long c) {
    K = k; OPS = opsmask; AM = am; shift(SHIFTS[c / 10]); c %= 10; // tens: large offsets
    cfg(CF[c][0], CF[c][1], CF[c][2], 0);
    env_run(body);
}
