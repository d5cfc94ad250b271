// C08/C09/C10: several names, hard links, rename, unlink and re-creation; every name must keep showing its own file.
#include "fsm.h"
static const char *N[5];
enum { NF = 5 };
static MF F[8]; static int nf;
static int name[NF];       // file index or -1
static H hh;
static int links(int f) { int n = 0; for (int i = 0; i < NF; i++) n += name[i] == f; return n; }
static int K, OPS, NN, STARTS;
static void wr(int i, int blk) {
    u8 b[4];
    sym_bytes(b, 3, "data");
    sym_assert(h_open(&hh, N[i], O_WRONLY, &F[name[i]]) == 0, "open");
    h_write(&hh, b, 3, blk * BS);
    h_release(&hh);
}
static void step(int n) {
    int o = pick("op", __builtin_popcount(OPS)), k = -1;
    do { do k++; while (!(OPS >> k & 1)); } while (o-- > 0);
    int i = -1, j = -1, r;
    if (k != 6 && k != 7) { i = pick("name", NN); if (k == 0 ? name[i] >= 0 : name[i] < 0) { sym_end(); } }
    if (k == 3 || k == 4) { j = pick("to", NN); if (i == j || (k == 4 && name[j] >= 0)) sym_end(); }
    switch (k) {
    case 0: F[nf] = MF(); r = h_create(&hh, N[i], O_RDWR, &F[nf]); sym_assert(r == 0, "create"); name[i] = nf++; h_release(&hh); lookup(N[i]); break;
    case 1: wr(i, pick("blk", 2)); break;
    case 2: lookup(N[i]); r = ops->unlink(N[i]); sym_assert(r == 0, "unlink"); name[i] = -1; break;
    case 3: lookup(N[i]); lookup(N[j]); r = ops->rename(N[i], N[j], 0); sym_assert(r == 0, "rename");
        if (name[i] != name[j]) { name[j] = name[i]; name[i] = -1; } break;
    case 4: lookup(N[i]); lookup(N[j]); r = ops->link(N[i], N[j]); sym_assert(r == 0, "link"); name[j] = name[i]; lookup(N[j]); break;
    case 5: sym_assert(h_open(&hh, N[i], O_RDONLY, &F[name[i]]) == 0, "open"); h_fsync(&hh, 0); h_release(&hh); break;
    case 6: env_cmd("lazyfs::clear-cache"); for (int f = 0; f < nf; f++) m_clear(&F[f]); break;
    case 7: env_cmd("lazyfs::cache-checkpoint"); for (int f = 0; f < nf; f++) if (links(f)) m_sync(&F[f]); break;
    case 8: lookup(N[i]); r = ops->truncate(N[i], 1, 0); sym_assert(r == 0, "truncate"); m_trunc(&F[name[i]], 1); break;
    }
}
static void show() {
    for (int i = 0; i < NN; i++) {
        struct stat st;
        int r = stat_op(N[i], &st);
        if (name[i] < 0) { CK(A_ATTR, r == -ENOENT, "removed-name-is-gone"); sym_assert(!env_exists(N[i]), "removed-name-is-gone-underneath"); continue; }
        MF* m = &F[name[i]];
        CK(A_ATTR, (r == 0) & ((i64)st.st_size == m->vsz), "getattr-size-is-visible-size");
        CK(A_ATTR, (int)st.st_nlink == links(name[i]), "getattr-link-count");
        ck_disk(N[i], m, "disk-holds-exactly-the-persisted-content");
        sym_assert(h_open(&hh, N[i], O_RDONLY, m) == 0, "open");
        h_read(&hh, 0, 12, "name-reads-its-own-latest-data");
        h_release(&hh);
    }
}
static void final_() {
    show();
    if (AM & END_SYNC) for (int i = 0; i < NN; i++) if (name[i] >= 0) { sym_assert(h_open(&hh, N[i], O_RDWR, &F[name[i]]) == 0, "open"); h_fsync(&hh, 0); h_release(&hh); ck_disk(N[i], &F[name[i]], "disk-holds-exactly-the-persisted-content"); }
    if (AM & END_CHECKPOINT) { env_cmd("lazyfs::cache-checkpoint"); for (int f = 0; f < nf; f++) if (links(f)) m_sync(&F[f]); }
    if (AM & END_CLEAR) { env_cmd("lazyfs::clear-cache"); for (int f = 0; f < nf; f++) m_clear(&F[f]); }
    if (AM & (END_SYNC | END_CHECKPOINT | END_CLEAR)) show();
    sym_reach("end");
}
static void body() {
    N[0] = P_("a"); N[1] = P_("b"); N[2] = P_("c"); N[3] = P_("d"); N[4] = P_("e");
    for (int i = 0; i < NF; i++) name[i] = -1;
    // one file / two files / a file with two names / that and another file under a third name
    int st = -1, ns = pick("start", __builtin_popcount(STARTS)); do { do st++; while (!(STARTS >> st & 1)); } while (ns-- > 0);
    m_init(&F[0], N[0], 2); name[0] = 0; nf = 1;
    if (st == 1) { u8 z[4]; sym_bytes(z, 4, "disk1"); memset(&F[1], 0, sizeof(MF)); memcpy(F[1].d, z, 4); memcpy(F[1].v, z, 4); F[1].vsz = F[1].dsz = 4; env_put(N[1], z, 4); name[1] = 1; nf = 2; }
    if (st == 3) { u8 z[4]; sym_bytes(z, 4, "disk1"); memset(&F[1], 0, sizeof(MF)); memcpy(F[1].d, z, 4); memcpy(F[1].v, z, 4); F[1].vsz = F[1].dsz = 4; env_put(N[2], z, 4); name[2] = 1; nf = 2; }
    if (st >= 2) { lookup(N[0]); sym_assert(ops->link(N[0], N[1]) == 0, "link"); name[1] = 0; }
    for (int i = 0; i < K; i++) step(i);
    final_();
}
extern "C" void names(long k, long opsmask, long nn, long am, long starts) { STARTS = starts; K = k; OPS = opsmask; NN = nn; AM = am; cfg(4, 4, 8, 0); env_run(body); }
