// C03/C11/C12: room in a full cache becomes free again (names removed or replaced, truncation, cache clears) and is filled
// again, over and over: what fits must stay in the cache every time, and every file shows its own data.
#include "fsm.h"
static const char* N[3];
static MF F[12]; static int nf, at[3];
static H h[3];
static int K, OPS, PG, PP, EV, n[2];
static void fill(int how) { // 0 everything, 1 one byte at the end of each page, 2 holes
    int per = PP * BS;
    if (how == 2) { for (int f = 0; f < 2; f++) { h_trunc(&h[f], 0, 1); h_trunc(&h[f], n[f] * per, 1); ck_disk(N[f], &F[at[f]], "what-fits-stays-in-the-cache"); } return; }
    if (how == 1) { for (int f = 0; f < 2; f++) for (int i = 0; i < n[f]; i++) { u8 z; sym_bytes(&z, 1, "data"); h_write(&h[f], &z, 1, (i + 1) * per - 1); ck_disk(N[f], &F[at[f]], "what-fits-stays-in-the-cache"); } return; }
    for (int f = 0; f < 2; f++) for (int i = 0; i < n[f]; i++) {
        u8 z[16]; sym_bytes(z, per, "data");
        h_write(&h[f], z, per, i * per);
        for (int g = 0; g < 2; g++) ck_disk(N[g], &F[at[g]], "what-fits-stays-in-the-cache");
    }
}
static void create(int f) { at[f] = nf; sym_assert(h_create(&h[f], N[f], O_RDWR, &F[nf++]) == 0, "create"); }
static void open_(int f, int fl) { sym_assert(h_open(&h[f], N[f], O_RDWR | fl, &F[at[f]]) == 0, "open"); }
static void step() {
    int o = pick("op", __builtin_popcount(OPS)), k = -1, f = 0;
    do { do k++; while (!(OPS >> k & 1)); } while (o-- > 0);
    if (k != 4 && k != 7) f = pick("file", 2);
    switch (k) {
    case 0: h_release(&h[f]); lookup(N[f]); sym_assert(ops->unlink(N[f]) == 0, "unlink"); create(f); break;
    case 1: h_release(&h[0]); h_release(&h[1]); lookup(N[!f]); lookup(N[f]); sym_assert(ops->rename(N[!f], N[f], 0) == 0, "rename"); at[f] = at[!f]; open_(f, 0); create(!f); { int t = n[0]; n[0] = n[1]; n[1] = t; } break;
    case 2: h_trunc(&h[f], 0, pick("byfd", 2)); break;
    case 3: h_release(&h[f]); open_(f, O_TRUNC); m_trunc(h[f].m, 0); break;
    case 4: env_cmd("lazyfs::clear-cache"); m_clear(h[0].m); m_clear(h[1].m); break;
    case 5: if (n[f] == 0) sym_end(); { // room is given out page by page: give back a whole page, or none
        int q = pick("keep", PP * BS); if (q > 0 && q <= (PP - 1) * BS) sym_end(); h_trunc(&h[f], (n[f] - 1) * PP * BS + q, 1); break; }
    case 6: h_fsync(&h[f], 0); break;
    case 7: env_cmd("lazyfs::cache-checkpoint"); m_sync(h[0].m); m_sync(h[1].m); break;
    case 8: { h_release(&h[f]); lookup(N[f]); const char* c = P_("c"); sym_assert(ops->link(N[f], c) == 0, "link"); lookup(N[f]); sym_assert(ops->unlink(N[f]) == 0, "unlink"); lookup(c); sym_assert(ops->unlink(c) == 0, "unlink"); create(f); break; }
    case 9: { // grow by a hole instead of writing
        h_trunc(&h[f], 0, 1); h_trunc(&h[f], n[f] * PP * BS, 1); break; }
    }
}
static void body() {
    N[0] = P_("a"); N[1] = P_("b"); N[2] = P_("e"); nf = 0;
    int s = pick("share", 3); n[0] = s == 0 ? PG : s == 1 ? PG - 1 : PG / 2; n[1] = PG - n[0];
    create(0); create(1);
    fill(0);
    for (int i = 0; i < K; i++) { step(); fill(i < K - 1 ? 0 : pick("fill", 3)); }
    int all = 2;
    if (EV && pick("pressure", 2)) { // a third file pushes pages out
        all = 3; create(2); int per = PP * BS;
        for (int i = 0; i < PG + 1; i++) { u8 z[16]; sym_bytes(z, per, "data"); h_write(&h[2], z, per, i * per); }
        h_read(&h[0], 0, VCAP, "read-returns-latest-data");
    }
    for (int g = 0; g < all; g++) { ck_attr(N[g], &F[at[g]]); h_read(&h[g], 0, VCAP, "read-returns-latest-data"); }
    for (int g = 0; g < all; g++) { h_fsync(&h[g], 0); ck_disk(N[g], &F[at[g]], "fsync-completes-the-file"); }
    sym_reach("end");
}
extern "C" void cycle(long k, long ops, long am, long block, long pp, long pages, long ev) {
    K = k; OPS = ops; AM = am; PG = pages; PP = pp; EV = ev; cfg(block, block * pp, pages, ev);
    env_run(body);
}
