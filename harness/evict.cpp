// C11/C12: small caches.  With LRU eviction (evict=1) or without (evict=0, writes go through when the cache is full)
// every file must keep showing its latest data, and fsync must leave the disk equal to it.
#include "fsm.h"
static const char* N[2];
static MF F[2];
static H h[2];
static int K, OPS, NF_, EV;
static int dirty[2]; // model: may have unsynced data
static MF past[2][4]; static int np[2]; // what the file showed since it was last complete on disk
static void remember(int f) { if (dirty[f]) { if (np[f] < 4) past[f][np[f]++] = F[f]; } else np[f] = 0; }
// every byte on disk is what the last sync stored or what the file showed later; the file is not longer than it ever was
static void ck_ahead(int f) {
    u8 d[VCAP]; env_data(N[f], d); u64 n = env_size(N[f]) - F[f].sh, hi = F[f].dsz, bad = 0;
    for (int k = 0; k < np[f]; k++) hi = mx(hi, past[f][k].vsz);
    for (int i = 0; i < 16; i++) {
        u64 ok = ((u64)i >= n) | (((i64)i < F[f].dsz) & (d[i] == F[f].d[i])) | (((u64)i >= (u64)F[f].dsz) & (d[i] == 0));
        for (int k = 0; k < np[f]; k++) ok |= ((i64)i < past[f][k].vsz) & (d[i] == past[f][k].v[i]);
        bad |= !ok;
    }
    CK(A_DISK, (n <= hi) & !bad, "disk-ahead-only-with-data-of-the-file");
}
static void step() {
    int o = pick("op", __builtin_popcount(OPS)), k = -1;
    do { do k++; while (!(OPS >> k & 1)); } while (o-- > 0);
    int i = k == 6 || k == 7 ? 0 : pick("file", NF_);
    switch (k) {
    case 0: h_wsym(&h[i], 3, 2); dirty[i] = 1; break;
    case 1: h_trunc(&h[i], symsize("tsize", 3), 1); dirty[i] = 1; break;
    case 2: h_readsym(&h[i], 3, 3); break;
    case 3: h_fsync(&h[i], 0); dirty[i] = 0; break;
    case 4: { u8 b[4]; sym_bytes(b, 4, "data"); h_write(&h[i], b, BS, pick("blk", 3) * BS); dirty[i] = 1; break; }
    case 5: { u8 b[4]; sym_bytes(b, 2, "data"); h_write(&h[i], b, 1, pick("blk", 3) * BS + 1); dirty[i] = 1; break; }
    case 6: if (dirty[0] | dirty[1]) sym_end(); env_cmd("lazyfs::clear-cache"); break;
    case 7: env_cmd("lazyfs::cache-checkpoint"); for (int f = 0; f < NF_; f++) m_sync(&F[f]), dirty[f] = 0; break;
    case 8: { u8 b[8]; sym_bytes(b, 8, "data"); h_write(&h[i], b, 2 * BS, pick("blk", 2) * BS); dirty[i] = 1; break; }
    case 9: h_trunc(&h[i], 2 + BS * pick("tblk", 2), 1); dirty[i] = 1; break;
    case 10: h_read(&h[i], BS * pick("rblk", 3), BS, "read-returns-latest-data"); break;
    }
    for (int f = 0; f < NF_; f++) {
        ck_attr(N[f], &F[f]);
        remember(f);
        if (!dirty[f]) ck_disk(N[f], &F[f], "synced-file-is-complete-on-disk"); else ck_ahead(f);
    }
}
static void body() {
    N[0] = P_("a"); N[1] = P_("b");
    for (int f = 0; f < NF_; f++) {
        m_init(&F[f], N[f], f ? 1 : 2);
        sym_assert(h_open(&h[f], N[f], f ? O_RDWR | O_APPEND : O_RDWR, &F[f]) == 0, "open");
    }
    np[0] = np[1] = dirty[0] = dirty[1] = 0;
    for (int i = 0; i < K; i++) step();
    for (int f = 0; f < NF_; f++) h_read(&h[f], 0, 16, "read-returns-latest-data");
    for (int f = 0; f < NF_; f++) { h_fsync(&h[f], 0); ck_disk(N[f], &F[f], "synced-file-is-complete-on-disk"); }
    env_cmd("lazyfs::clear-cache");
    for (int f = 0; f < NF_; f++) { ck_attr(N[f], &F[f]); h_read(&h[f], 0, 16, "read-returns-latest-data"); }
    sym_reach("end");
}
static const int CF[][3] = {{4, 4, 2}, {4, 8, 1}, {4, 8, 2}, {4, 4, 1}, {2, 4, 2}};
extern "C" void small_(long k, long opsmask, long nf, long am, long c, long ev) {
    K = k; OPS = opsmask; NF_ = nf; AM = am; EV = ev; shift(SHIFTS[c / 10]); c %= 10;
    cfg(CF[c][0], CF[c][1], CF[c][2], ev);
    env_run(body);
}
