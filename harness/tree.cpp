// C08/C22/C07/C05/C04: files inside directories; renaming, moving, removing and making directories around cached data.
#include "fsm.h"
struct Node { int used, dir, par; char nm; int f; };
static Node T[8]; static int nt;
static MF F[6]; static int nf;
static char rootp[128];
static long K, OPS, OPS1, LINKED;
static H hh;
static void put(char* o, char c) { if (c == 'n') *o++ = 'd'; *o++ = c; *o = 0; } // n is called "dn": d is a prefix of it
static void path(int i, char* out) {
    if (i == 0) { strcpy(out, rootp); return; }
    path(T[i].par, out);
    size_t l = strlen(out); if (out[l - 1] != '/') out[l++] = '/';
    put(out + l, T[i].nm);
}
static void join(int p, char c, char* out) { path(p, out); size_t l = strlen(out); if (out[l - 1] != '/') out[l++] = '/'; put(out + l, c); }
static int at(int p, char c) { for (int i = 1; i < nt; i++) if (T[i].used && T[i].par == p && T[i].nm == c) return i; return -1; }
static int inside(int i, int a) { for (;; i = T[i].par) { if (i == a) return 1; if (i == 0) return 0; } }
static int empty(int d) { for (int i = 1; i < nt; i++) if (T[i].used && T[i].par == d) return 0; return 1; }
static int add(int p, char c, int dir, int f) { T[nt] = Node{1, dir, p, c, f}; return nt++; }
// the kernel looks every component up
static void look(const char* p) {
    char b[160]; size_t r = strlen(rootp);
    for (size_t k = r + 1; p[k]; k++) if (p[k] == '/') { memcpy(b, p, k); b[k] = 0; lookup(b); }
    lookup(p);
}
static void wr(int i, int blk) {
    char p[160]; path(i, p); look(p);
    u8 b[4]; sym_bytes(b, 3, "data");
    sym_assert(h_open(&hh, p, O_RDWR, &F[T[i].f]) == 0, "open");
    h_write(&hh, b, 3, blk * BS);
    h_release(&hh);
}
static int pickf(const char* n) { int c = 0, v[8]; for (int i = 1; i < nt; i++) if (T[i].used && !T[i].dir) v[c++] = i; if (!c) sym_end(); return v[pick(n, c)]; }
static int pickd(const char* n) { int c = 0, v[8]; for (int i = 0; i < nt; i++) if (i == 0 || (T[i].used && T[i].dir)) v[c++] = i; return v[pick(n, c)]; }
static int pickany(const char* n) { int c = 0, v[8]; for (int i = 1; i < nt; i++) if (T[i].used) v[c++] = i; if (!c) sym_end(); return v[pick(n, c)]; }
static void step(long OPS) {
    int o = pick("op", __builtin_popcount(OPS)), k = -1, r;
    do { do k++; while (!(OPS >> k & 1)); } while (o-- > 0);
    char p[160], q[160];
    switch (k) {
    case 0: { // rename
        int i = pickany("from"), d = pickd("into"); char c = "sxn"[pick("as", 3)];
        int t = at(d, c); path(i, p); join(d, c, q);
        if (T[i].dir && inside(d, i)) { if (d == i || t >= 0) sym_end(); look(p); look(q); r = ops->rename(p, q, 0); sym_assert(r < 0, "impossible-rename-fails"); break; }
        look(p); look(q); r = ops->rename(p, q, 0);
        if (t == i || (t >= 0 && !T[i].dir && !T[t].dir && T[t].f == T[i].f)) { sym_assert(r == 0, "rename-to-the-same-file-changes-nothing"); break; }
        if (t >= 0 && (T[t].dir != T[i].dir || (T[t].dir && !empty(t)))) { sym_assert(r < 0, "impossible-rename-fails"); break; }
        sym_assert(r == 0, "rename-returns-0");
        if (t >= 0) T[t].used = 0;
        T[i].par = d; T[i].nm = c; break; }
    case 1: wr(pickf("file"), 1); break;
    case 2: { int i = pickf("file"); path(i, p); look(p); sym_assert(h_open(&hh, p, O_RDWR, &F[T[i].f]) == 0, "open"); h_fsync(&hh, 0); h_release(&hh); break; }
    case 3: env_cmd("lazyfs::clear-cache"); for (int f = 0; f < nf; f++) m_clear(&F[f]); break;
    case 4: env_cmd("lazyfs::cache-checkpoint"); for (int f = 0; f < nf; f++) { int named = 0; for (int i = 1; i < nt; i++) named |= T[i].used && !T[i].dir && T[i].f == f; if (named) m_sync(&F[f]); } break;
    case 5: { int i = pickf("file"); path(i, p); look(p); sym_assert(ops->unlink(p) == 0, "unlink-returns-0"); T[i].used = 0; break; }
    case 6: { // create (in a directory that may have been renamed)
        int d = pickd("into"); char c = "xn"[pick("as", 2)]; if (at(d, c) >= 0 || nt >= 8) sym_end();
        join(d, c, p); look(p); sym_assert(h_create(&hh, p, O_RDWR, &F[nf]) == 0, "create-returns-0"); h_release(&hh); add(d, c, 0, nf++); break; }
    case 7: { int d = pickd("into"); if (at(d, 'n') >= 0 || nt >= 8) sym_end(); join(d, 'n', p); look(p); sym_assert(ops->mkdir(p, 0755) == 0, "mkdir-returns-0"); add(d, 'n', 1, -1); break; }
    case 8: { int d = pickd("dir"); if (!d) sym_end(); path(d, p); look(p); r = ops->rmdir(p); sym_assert(empty(d) ? r == 0 : r < 0, "rmdir-only-removes-empty-directories"); if (r == 0) T[d].used = 0; break; }
    case 9: { // link into another directory
        int i = pickf("file"), d = pickd("into"); if (at(d, 'n') >= 0 || nt >= 8) sym_end();
        path(i, p); join(d, 'n', q); look(p); look(q); sym_assert(ops->link(p, q) == 0, "link-returns-0"); add(d, 'n', 0, T[i].f); break; }
    }
}
static void check(const char* what) {
    static const char C[] = "sxydzn";
    char p[160];
    for (int d = 0; d < nt; d++) if (d == 0 || (T[d].used && T[d].dir)) for (int c = 0; c < 6; c++) {
        struct stat st; int i = at(d, C[c]); join(d, C[c], p);
        if (i < 0) { sym_assert(stat_op(p, &st) == -ENOENT && !env_exists(p), "no-other-names"); continue; }
        if (T[i].dir) { sym_assert(stat_op(p, &st) == 0 && S_ISDIR(st.st_mode), "directories-are-listed"); continue; }
        MF* m = &F[T[i].f]; int n = 0; for (int j = 1; j < nt; j++) n += T[j].used && !T[j].dir && T[j].f == T[i].f;
        CK(A_ATTR, (stat_op(p, &st) == 0) & ((i64)st.st_size == m->vsz) & ((int)st.st_nlink == n), "getattr-size-is-visible-size");
        ck_disk(p, m, "disk-holds-exactly-the-persisted-content");
        sym_assert(h_open(&hh, p, O_RDONLY, m) == 0, "open");
        h_read(&hh, 0, 12, what);
        h_release(&hh);
    }
}
static void body() {
    strcpy(rootp, P_("")); size_t l = strlen(rootp); if (l > 1 && rootp[l - 1] == '/') rootp[l - 1] = 0;
    T[0] = Node{1, 1, 0, '/', -1}; nt = 1; nf = 0;
    char p[160];
    int d = add(0, 'd', 1, -1); path(d, p); look(p); sym_assert(ops->mkdir(p, 0755) == 0, "mkdir");
    int s = add(d, 's', 1, -1); path(s, p); look(p); sym_assert(ops->mkdir(p, 0755) == 0, "mkdir");
    int dirty = pick("dirty", 2);
    for (int k = 0; k < 3; k++) {
        int i = add(k == 0 ? d : k == 1 ? s : 0, "xyz"[k], 0, nf++);
        path(i, p); u8 z[4]; sym_bytes(z, 3 + (k & 1), "disk");
        MF* m = &F[k]; memset(m, 0, sizeof *m); memcpy(m->d, z, 3 + (k & 1)); memcpy(m->v, z, 3 + (k & 1)); m->vsz = m->dsz = 3 + (k & 1);
        env_put(p, z, 3 + (k & 1));
        if (dirty) wr(i, k & 1);
    }
    if (LINKED) { // d/x is also called n
        char q[160]; int x = at(d, 'x'); path(x, p); join(0, 'n', q); look(p); look(q); sym_assert(ops->link(p, q) == 0, "link-returns-0"); add(0, 'n', 0, T[x].f);
        if (pick("again", 2)) wr(pick("through", 2) ? x : nt - 1, 0);
    }
    for (int k = 0; k < K; k++) step(k ? OPS : OPS1);
    check("file-shows-its-own-latest-data");
    sym_assert(env_open_fds() == 0, "no-descriptor-left-open");
    sym_reach("end");
}
// evict: 1 small cache with eviction; 2 or 3: one file has two names from the start; 5: three pages
extern "C" void tree(long k, long first, long later, long am, long evict) { K = k; OPS1 = first; OPS = later; AM = am; LINKED = evict >> 1 & 1; cfg(4, 4, evict & 1 ? evict & 4 ? 3 : 2 : 10, evict & 1); env_run(body); }
