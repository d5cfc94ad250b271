// C19: the unsynced data report names every file with unsynced data, covers all of it, and only that.
#include "fsm.h"
#include "logline.h"
static const char *pa, *pb, *pl, *pc;
static MF F[2]; static H h[2];
static u8 un[2][VCAP];  // bytes written and not synchronised since
static u8 may[2][VCAP]; // those and the zeros by which the file grew since
static int meta[2];     // anything at all changed since the last sync
static const char* nm[4]; static int nf[4]; // names and the files they show
static int forgot; // the cache was cleared: names not used since are unknown to LazyFS
// ---- what the last report said
struct G { int inreport; struct { i64 a, b; } r[8]; int n; int names; int file; };
static G g[4]; static int ng; static int all_synced, totals; static i64 total; static int other;
extern "C" void env_log_line(int, const char* f, const void* va, int n) {
    log_text(f, (const EnvLogArg*)va, n);
    const char* p;
    if (strstr(LT, "is not fully synced")) { if (ng < 4) { memset(&g[ng], 0, sizeof g[ng]); g[ng].file = -1; ng++; } }
    else if ((p = strstr(LT, "(block")) && ng) { // first block, last block, first index, last index
        G& x = g[ng - 1];
        i64 v[4]; sym_assert(log_numbers(p, v, 4) == 4, "ranges-have-blocks-and-indexes");
        if (x.n < 8) { x.r[x.n].a = v[0] * BS + v[2]; x.r[x.n].b = v[0] * BS + v[3]; x.n++; }
        else other = 1;
        sym_assert((v[0] <= v[1]) & (v[0] * BS + v[3] >= v[1] * BS) & (v[0] * BS + v[3] < (v[1] + 1) * BS), "reported-blocks-and-indexes-agree");
    } else if ((p = strstr(LT, "=> file")) && ng) {
        int k = -1; u64 longest = 0;
        for (int i = 0; i < 4; i++) if (nf[i] >= 0 && strstr(p, nm[i]) && strlen(nm[i]) > longest) { k = i; longest = strlen(nm[i]); }
        sym_assert(k >= 0, "reported-name-exists");
        G& x = g[ng - 1];
        sym_assert(x.file < 0 || x.file == nf[k], "reported-names-belong-together");
        x.file = nf[k]; x.names |= 1 << k;
    } else if (strstr(LT, "all data blocks are synced")) all_synced++;
    else if ((p = strstr(LT, "total number of bytes"))) { i64 v[1]; sym_assert(log_numbers(p, v, 1) == 1, "the-total-is-a-number"); totals++; total = v[0]; }
}
static void report() {
    ng = all_synced = totals = other = 0; total = 0;
    env_log_on = 1; env_cmd("lazyfs::unsynced-data-report"); env_log_on = 0;
    sym_assert(!other, "at-most-eight-ranges");
    i64 sum = 0, have = 0; int anyw = 0;
    for (int f = 0; f < 2; f++) {
        int x = -1; for (int i = 0; i < ng; i++) if (g[i].file == f) { sym_assert(x < 0, "a-file-is-reported-once"); x = i; }
        u64 bad = 0, dirty = 0;
        for (int i = 0; i < VCAP; i++) {
            u64 in = 0;
            if (x >= 0) for (int k = 0; k < g[x].n; k++) in |= (u64)((g[x].r[k].a <= i) & (i <= g[x].r[k].b));
            u64 u = un[f][i] & (i < F[f].vsz);
            bad |= u & !in; dirty |= u; if (nf[0] == f || nf[1] == f || nf[2] == f || nf[3] == f) have += u;
        }
        int live = 0; for (int i = 0; i < 4; i++) live |= nf[i] == f;
        if (!live) { sym_assert(x < 0, "removed-files-are-not-reported"); continue; }
        sym_assert(bad == 0, "every-unsynced-byte-is-reported");
        if (!meta[f]) sym_assert(x < 0, "synced-files-are-not-reported");
        if (x >= 0) {
            int want = 0; for (int i = 0; i < 4; i++) if (nf[i] == f) want |= 1 << i;
            sym_assert(forgot ? (g[x].names & want) != 0 : g[x].names == want, "all-names-of-the-file-are-reported");
            for (int k = 0; k < g[x].n; k++) {
                sym_assert((g[x].r[k].a >= 0) & (g[x].r[k].b < F[f].vsz), "reported-bytes-are-inside-the-file");
                sum += g[x].r[k].b - g[x].r[k].a + 1;
                // block granularity: every reported block holds an unsynced byte
                u64 miss = 0;
                for (int b = 0; b < VCAP / BS; b++) {
                    u64 rep = (g[x].r[k].a <= b * BS) & (g[x].r[k].b >= b * BS), any = 0;
                    for (int i = 0; i < BS; i++) any |= may[f][b * BS + i];
                    miss |= rep & !any;
                }
                sym_assert(miss == 0, "reported-blocks-are-unsynced");
            }
        }
        anyw |= meta[f];
        if (!all_synced) continue;
        sym_assert(dirty == 0, "not-reported-as-all-synced");
    }
    if (!anyw) sym_assert(all_synced == 1 && ng == 0, "all-synced-is-reported");
    if (!all_synced) { sym_assert(totals == 1, "total-is-reported"); sym_assert((total >= have) & (total <= sum), "total-matches-the-ranges"); }
}
static void sync_(int f) { m_sync(&F[f]); memset(un[f], 0, VCAP); memset(may[f], 0, VCAP); meta[f] = 0; }
static void grow(int f, u64 to) { for (int i = 0; i < VCAP; i++) may[f][i] |= (u8)((i >= F[f].vsz) & ((u64)i < to)); }
static void wr(int f, int nblk, int span) {
    u8 b[VCAP], one[VCAP]; u64 off, len; memset(one, 1, VCAP);
    symrange("wblk", "wspan", nblk, span, &off, &len);
    sym_bytes(b, span * BS, "data");
    grow(f, off + len);
    h_write(&h[f], b, len, off);
    memcpy(un[f] + off, one, len); memcpy(may[f] + off, one, len); meta[f] = 1;
}
static int K, OPS;
static void step() {
    int o = pick("op", __builtin_popcount(OPS)), k = -1;
    do { do k++; while (!(OPS >> k & 1)); } while (o-- > 0);
    switch (k) {
    case 0: wr(0, 3, 2); break;
    case 1: if (nf[1] < 0) sym_end(); wr(1, 2, 1); break;
    case 2: { u64 n = symsize("tsize", 3); grow(0, n); h_trunc(&h[0], n, 1); for (int i = 0; i < VCAP; i++) un[0][i] = (u8)sym_ite((u64)i < n, un[0][i], 0), may[0][i] = (u8)sym_ite((u64)i < n, may[0][i], 0); meta[0] = 1; break; }
    case 3: h_fsync(&h[0], pick("data", 2)); sync_(0); break;
    case 4: env_cmd("lazyfs::cache-checkpoint"); for (int f = 0; f < 2; f++) sync_(f); break;
    case 5: forgot = 1; env_cmd("lazyfs::clear-cache"); for (int f = 0; f < 2; f++) { m_clear(&F[f]); memset(un[f], 0, VCAP); memset(may[f], 0, VCAP); meta[f] = 0; } break;
    case 6: if (nf[2] >= 0) sym_end(); lookup(pl); sym_assert(ops->link(h[0].path, pl) == 0, "link"); lookup(pl); nf[2] = 0; break;
    case 7: if (nf[0] < 0 || nf[3] >= 0) sym_end(); lookup(pc); sym_assert(ops->rename(pa, pc, 0) == 0, "rename"); lookup(pc); nf[3] = 0; nf[0] = -1; h[0].path = pc; break;
    case 8: if (nf[1] < 0) sym_end(); h_release(&h[1]); sym_assert(ops->unlink(pb) == 0, "unlink"); nf[1] = -1; break;
    case 9: report(); break;
    case 10: { u8 b; sym_bytes(&b, 1, "data"); int i = pick("at", 6); grow(0, i * BS); may[0][i * BS] = 1; h_write(&h[0], &b, 1, i * BS); un[0][i * BS] = 1; meta[0] = 1; break; }
    }
}
static void body() {
    nm[0] = pa; nm[1] = pb; nm[2] = pl; nm[3] = pc; nf[0] = 0; nf[1] = 1; nf[2] = nf[3] = -1;
    m_init(&F[0], pa, 3); sym_assert(h_open(&h[0], pa, O_RDWR, &F[0]) == 0, "open");
    env_put(pb, "bbbbb", 5); memset(&F[1], 0, sizeof F[1]); memset(F[1].v, 'b', 5); memset(F[1].d, 'b', 5); F[1].vsz = F[1].dsz = 5;
    sym_assert(h_open(&h[1], pb, O_RDWR, &F[1]) == 0, "open");
    for (int i = 0; i < K; i++) step();
    report();
    h_read(&h[0], 0, 16, "report-leaves-contents-alone");
    ck_disk(h[0].path, &F[0], "report-persists-nothing");
    sym_reach("end");
}
extern "C" void report_(long k, long opsmask, long block, long page) {
    K = k; OPS = opsmask; pa = P_("a"); pb = P_("b"); pl = P_("l"); pc = P_("c");
    cfg(block, page, 12, 0);
    env_run(body);
}
