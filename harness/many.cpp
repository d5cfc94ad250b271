// VCAP 16
// Many files and many names: what one operation or command does to two dozen dirty files.
#include "fsm.h"
enum { NF = 24, NL = 6 };
static char N[NF + NL][256]; static MF F[NF]; static int of_[NF + NL], gone[NF + NL], nn;
static H h;
static int EV, OPS, K;
static int links(int f) { int n = 0; for (int i = 0; i < nn; i++) n += !gone[i] && of_[i] == f; return n; }
static int some(const char* n) { static const int S[] = {0, 1, 11, NF - 1, NF, NF + NL - 1}; int i = S[pick(n, 6)]; if (gone[i]) sym_end(); return i; }
static void wr(int i, int blk) { u8 b[4]; sym_bytes(b, 3, "data"); sym_assert(h_open(&h, N[i], O_RDWR, &F[of_[i]]) == 0, "open"); h_write(&h, b, 3, blk * BS); h_release(&h); }
static void step(int ops_) {
    int o = pick("op", __builtin_popcount(ops_)), k = -1, i, j;
    do { do k++; while (!(ops_ >> k & 1)); } while (o-- > 0);
    switch (k) {
    case 0: i = some("file"); sym_assert(h_open(&h, N[i], O_RDWR, &F[of_[i]]) == 0, "open"); h_fsync(&h, 0); h_release(&h); break;
    case 1: i = some("file"); lookup(N[i]); sym_assert(ops->unlink(N[i]) == 0, "unlink"); gone[i] = 1; break;
    case 2: i = some("file"); j = some("to"); lookup(N[i]); lookup(N[j]); sym_assert(ops->rename(N[i], N[j], 0) == 0, "rename"); if (of_[i] != of_[j]) { of_[j] = of_[i]; gone[i] = 1; } break;
    case 3: env_cmd("lazyfs::cache-checkpoint"); for (int f = 0; f < NF; f++) if (links(f)) m_sync(&F[f]); break;
    case 4: env_cmd("lazyfs::clear-cache"); for (int f = 0; f < NF; f++) m_clear(&F[f]); break;
    case 5: wr(some("file"), 1); break;
    case 6: { i = some("file"); lookup(N[i]); sym_assert(ops->truncate(N[i], 1, 0) == 0, "truncate"); m_trunc(&F[of_[i]], 1); break; }
    case 7: for (int f = 0; f < NF; f += 5) if (!gone[f]) { lookup(N[f]); sym_assert(ops->unlink(N[f]) == 0, "unlink"); gone[f] = 1; } break;
    }
}
static void check() {
    for (int i = 0; i < nn; i++) {
        struct stat st; int r = stat_op(N[i], &st);
        if (gone[i]) { sym_assert(r == -ENOENT && !env_exists(N[i]), "removed-name-is-gone"); continue; }
        MF* m = &F[of_[i]];
        CK(A_ATTR, (r == 0) & ((i64)st.st_size == m->vsz) & ((int)st.st_nlink == links(of_[i])), "getattr-size-is-visible-size");
        if (!EV) ck_disk(N[i], m, "disk-holds-exactly-the-persisted-content");
        sym_assert(h_open(&h, N[i], O_RDONLY, m) == 0, "open"); h_read(&h, 0, 12, "name-reads-its-own-latest-data"); h_release(&h);
    }
}
static void body() {
    nn = NF + NL;
    for (int i = 0; i < nn; i++) {
        char s[32]; snprintf(s, sizeof s, i < 12 ? "f%d" : "g-a somewhat longer name %d", i); strcpy(N[i], P_(s)); gone[i] = 0; of_[i] = i < NF ? i : 0;
        if (i < NF) { MF* m = &F[i]; memset(m, 0, sizeof *m); u8 z[4] = {}; sym_bytes(z, 2, "disk"); memcpy(m->d, z, 2); memcpy(m->v, z, 2); m->dsz = m->vsz = 2; env_put(N[i], z, 2); wr(i, i & 1); }
        else { lookup(N[0]); lookup(N[i]); sym_assert(ops->link(N[i > NF ? i - 1 : 0], N[i]) == 0, "link"); lookup(N[i]); }
    }
    for (int k = 0; k < K; k++) step(k ? OPS >> 8 : OPS & 255);
    check();
    if (pick("end", 2)) { env_cmd("lazyfs::cache-checkpoint"); for (int f = 0; f < NF; f++) if (links(f)) m_sync(&F[f]); }
    else for (int i = 0; i < nn; i++) if (!gone[i]) { sym_assert(h_open(&h, N[i], O_RDWR, &F[of_[i]]) == 0, "open"); h_fsync(&h, 0); h_release(&h); }
    EV = 0; env_cmd("lazyfs::clear-cache"); check();
    sym_assert(env_open_fds() == 0, "no-descriptor-left-open");
    sym_reach("end");
}
extern "C" void many(long k, long ops, long am, long ev) { K = k; OPS = ops; AM = am; EV = ev; cfg(4, 4, ev ? 6 : 60, ev); env_run(body); }
