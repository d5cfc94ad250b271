// C20 (attributes, directories, symbolic links) and C19 (times).
#include "fsm.h"
static H h;
static long K, OPS;
static const char *pf, *pD, *pDx, *pL, *pM, *pN;
static MF* m = &mf[0];
static int pickop(long mask, const char* n) { int o = pick(n, __builtin_popcount(mask)), k = -1; do { do k++; while (!(mask >> k & 1)); } while (o-- > 0); return k; }
// ---- pass-through operations
static char names_[12][32]; static int nn_;
static struct stat sts_[12]; static int has_[12], plus_[12];
static int fill(void*, const char* n, const struct stat* st, off_t, enum fuse_fill_dir_flags fl) { if (nn_ < 12) { strncpy(names_[nn_], n, 31); has_[nn_] = st != 0; if (st) sts_[nn_] = *st; plus_[nn_] = fl & FUSE_FILL_DIR_PLUS; nn_++; } return 0; }
// what a listing says about its entries: numbers and types, and, where it claims to know all attributes, those getattr reports
static void attrs(const char* d) {
    for (int i = 0; i < nn_; i++) {
        if (!has_[i] || !strcmp(names_[i], ".") || !strcmp(names_[i], "..")) continue;
        char p[300]; struct stat st; strcpy(p, d); strcat(p, "/"); strcat(p, names_[i]);
        const struct stat* l = &sts_[i];
        sym_assert(stat_op(p, &st) == 0 && l->st_ino == st.st_ino && (l->st_mode & S_IFMT) == (st.st_mode & S_IFMT), "readdir-reports-types-and-numbers");
        if (plus_[i]) sym_assert(l->st_size == st.st_size && l->st_mode == st.st_mode && l->st_nlink == st.st_nlink && l->st_uid == st.st_uid && l->st_gid == st.st_gid, "readdir-reports-no-wrong-attributes");
    }
}
static int listed(const char* n) { int c = 0; for (int i = 0; i < nn_; i++) c += !strcmp(names_[i], n); return c; }
static void pass_body() {
    m_init(m, pf, 2);
    lookup(pD); sym_assert(ops->mkdir(pD, 0755) == 0, "mkdir"); lookup(pD);
    H hx; MF* x = &mf[1];
    sym_assert(h_create(&hx, pDx, O_RDWR, x) == 0, "create"); h_release(&hx);
    lookup(pL); sym_assert(ops->symlink(pf, pL) == 0, "symlink"); lookup(pL);
    sym_assert(h_open(&h, pf, O_RDWR, m) == 0, "open");
    if (pick("dirty", 2)) h_wsym(&h, 2, 1);
    for (int s = 0; s < K; s++) {
        int k = pickop(OPS, "op"), r;
        struct stat st, un;
        switch (k) {
        case 0: { // chmod
            static const int MD[] = {0600, 0755, 0444}; int md = MD[pick("mode", 3)], d = pick("dir", 2);
            const char* p = d ? pD : pf;
            lookup(p); r = ops->chmod(p, md, 0);
            sym_assert(r == 0 && stat_op(p, &st) == 0, "chmod-ok"); env_stat(p, &un);
            sym_assert((st.st_mode & 07777) == md && (un.st_mode & 07777) == md, "chmod-takes-effect");
            sym_assert(ops->chmod(p, d ? 0755 : 0644, 0) == 0, "chmod-ok"); break; }
        case 1: { // chown to the current owner or -1
            env_stat(pf, &un); lookup(pf);
            int w = pick("who", 2);
            r = ops->chown(pf, w ? un.st_uid : (uid_t)-1, un.st_gid, 0); sym_assert(r == 0 && stat_op(pf, &st) == 0, "chown-ok");
            sym_assert(st.st_uid == un.st_uid && st.st_gid == un.st_gid, "chown-takes-effect"); break; }
        case 12: { // chown of a file, a directory, a symbolic link to somebody else: exactly the named object changes hands
            const char* P[3] = {pf, pD, pL}; int i = pick("obj", 3), w = pick("what", 3); // owner and group, owner, group
            struct stat b[3], a; for (int j = 0; j < 3; j++) env_stat(P[j], &b[j]);
            uid_t u = w == 2 ? (uid_t)-1 : 12345; gid_t g = w == 1 ? (gid_t)-1 : 23456;
            lookup(P[i]); r = ops->chown(P[i], u, g, 0);
            if (r == -EPERM) sym_end(); // (replays without the privilege)
            sym_assert(r == 0, "chown-ok");
            for (int j = 0; j < 3; j++) {
                uid_t eu = j == i && w != 2 ? u : b[j].st_uid; gid_t eg = j == i && w != 1 ? g : b[j].st_gid;
                env_stat(P[j], &un); sym_assert(un.st_uid == eu && un.st_gid == eg, "chown-changes-exactly-the-named-object");
                sym_assert(stat_op(P[j], &a) == 0 && a.st_uid == eu && a.st_gid == eg, "chown-takes-effect");
            }
            sym_assert(ops->chown(P[i], b[i].st_uid, b[i].st_gid, 0) == 0, "chown-ok"); break; }
        case 2: // mkdir, twice
            lookup(pN); r = ops->mkdir(pN, 0700); sym_assert(r == 0 && env_exists(pN) && stat_op(pN, &st) == 0 && S_ISDIR(st.st_mode), "mkdir-takes-effect");
            sym_assert(ops->mkdir(pN, 0700) == -EEXIST, "mkdir-reports-existing");
            sym_assert(ops->rmdir(pN) == 0 && !env_exists(pN), "rmdir-takes-effect"); break;
        case 3: r = ops->rmdir(pD); sym_assert(r == -ENOTEMPTY && env_exists(pD) && env_exists(pDx), "rmdir-of-a-non-empty-directory-fails"); break;
        case 4: { // readlink with different buffers
            char b[64]; memset(b, 0x5a, sizeof b);
            u64 n = 2 + pick("buf", 3) * 20; u64 tl = strlen(pf);
            r = ops->readlink(pL, b, n); sym_assert(r == 0, "readlink-ok");
            u64 e = n - 1 < tl ? n - 1 : tl;
            sym_assert(!memcmp(b, pf, e) && b[e] == 0 && b[n] == 0x5a, "readlink-returns-the-target"); break; }
        case 5: // getattr of a link, a directory
            sym_assert(stat_op(pL, &st) == 0 && S_ISLNK(st.st_mode) && (u64)st.st_size == strlen(pf), "getattr-of-a-symlink");
            sym_assert(stat_op(pD, &st) == 0 && S_ISDIR(st.st_mode), "getattr-of-a-directory"); break;
        case 6: sym_assert(ops->access(pf, 0) == 0 && ops->access(pf, R_OK) == 0 && ops->access(pM, 0) == -ENOENT, "access-answers-for-the-path"); break;
        case 7: { // readdir lists exactly the entries
            const char* root = P_("");
            char rb[256]; strcpy(rb, root); if (rb[strlen(rb) - 1] == '/') rb[strlen(rb) - 1] = 0;
            nn_ = 0; r = ops->readdir(rb, 0, fill, 0, 0, (enum fuse_readdir_flags)0);
            sym_assert(r == 0 && listed("f") == 1 && listed("D") == 1 && listed("L") == 1 && listed(".") == 1 && listed("..") == 1 && listed("x") == 0 && nn_ == 5, "readdir-lists-exactly-the-entries");
            attrs(rb);
            nn_ = 0; r = ops->readdir(pD, 0, fill, 0, 0, (enum fuse_readdir_flags)0);
            sym_assert(r == 0 && listed("x") == 1 && nn_ == 3, "readdir-lists-exactly-the-entries");
            attrs(pD);
            sym_assert(ops->readdir(pM, 0, fill, 0, 0, (enum fuse_readdir_flags)0) == -ENOENT, "missing-path-reported"); break; }
        case 8: { // operations on a missing path
            struct fuse_file_info fi; memset(&fi, 0, sizeof fi); char b[8]; struct timespec t[2] = {{1, 0}, {2, 0}};
            lookup(pM);
            static const int which = 11; int w = pick("missing", which);
            switch (w) {
            case 0: r = ops->getattr(pM, &st, 0); break;
            case 1: r = ops->open(pM, &fi); break;
            case 2: r = ops->unlink(pM); break;
            case 3: r = ops->rename(pM, pN, 0); break;
            case 4: r = ops->link(pM, pN); break;
            case 5: r = ops->truncate(pM, 1, 0); break;
            case 6: r = ops->chmod(pM, 0600, 0); break;
            case 7: r = ops->readlink(pM, b, 8); break;
            case 8: r = ops->rmdir(pM); break;
            case 9: r = ops->utimens(pM, t, 0); break;
            default: r = ops->chown(pM, -1, -1, 0); break;
            }
            sym_assert(r == -ENOENT, "missing-path-reported");
            sym_assert(!env_exists(pM) && !env_exists(pN), "failed-operation-changes-nothing"); break; }
        case 9: { // operations that must fail without effect
            int w = pick("bad", 5);
            if (w == 0) { struct fuse_file_info fi; memset(&fi, 0, sizeof fi); fi.flags = O_RDWR | O_CREAT | O_EXCL; r = ops->create(pf, 0644, &fi); sym_assert(r == -EEXIST, "create-excl-reports-existing"); }
            if (w == 1) { r = ops->link(pf, pDx); sym_assert(r == -EEXIST, "link-reports-existing"); }
            if (w == 2) { r = ops->symlink(pf, pDx); sym_assert(r == -EEXIST, "symlink-reports-existing"); }
            if (w == 3) { r = ops->rename(pf, pD, 0); sym_assert(r < 0, "rename-over-a-directory-fails"); }
            if (w == 4) { r = ops->unlink(pD); sym_assert(r < 0 && env_exists(pD), "unlink-of-a-directory-fails"); }
            sym_assert(env_exists(pf) && env_exists(pDx), "failed-operation-changes-nothing"); break; }
        case 10: { // unlink of the link keeps the file
            lookup(pL); r = ops->unlink(pL); sym_assert(r == 0 && !env_exists(pL) && env_exists(pf), "unlinking-a-symlink-keeps-its-target");
            sym_assert(ops->symlink(pf, pL) == 0, "symlink"); break; }
        case 11: { // rename with flags is refused
            r = ops->rename(pf, pM, 1); sym_assert(r == -EINVAL && env_exists(pf) && !env_exists(pM), "unsupported-rename-flags-are-refused"); break; }
        }
        ck_attr(pf, m);
        ck_disk(pf, m, "disk-unchanged");
    }
    h_read(&h, 0, 12, "content-unchanged");
    h_release(&h);
    sym_assert(env_open_fds() == 0, "no-descriptor-left-open");
    sym_reach("end");
}
extern "C" void pass(long k, long opmask) {
    K = k; OPS = opmask; pf = P_("f"); pD = P_("D"); pDx = P_("D/x"); pL = P_("L"); pM = P_("M"); pN = P_("N");
    cfg(4, 4, 8, 0);
    env_run(pass_body);
}
// ---- times
static int eqt(struct timespec a, struct timespec b) { return (a.tv_sec == b.tv_sec) & (a.tv_nsec == b.tv_nsec); }
static int after(struct timespec a, struct timespec b) { return (a.tv_sec > b.tv_sec) | ((a.tv_sec == b.tv_sec) & (a.tv_nsec > b.tv_nsec)); }
static int settime(struct timespec* vis) {
    struct timespec t[2]; int w = pick("which", 4); // both, only mtime, only atime, both "now"
    t[0].tv_sec = sym_u64("asec", 1, 100000); t[0].tv_nsec = sym_u64("ansec", 0, 999999999);
    t[1].tv_sec = sym_u64("msec", 1, 100000); t[1].tv_nsec = sym_u64("mnsec", 0, 999999999);
    struct timespec s[2] = {t[0], t[1]};
    if (w == 1) s[0].tv_nsec = UTIME_OMIT;
    if (w == 2) s[1].tv_nsec = UTIME_OMIT;
    struct stat b; stat_op(pf, &b);
    if (w == 3) { int r = ops->utimens(pf, 0, 0); sym_assert(r == 0, "utimens-ok"); struct stat st, un; stat_op(pf, &st); env_stat(pf, &un); sym_assert(eqt(st.st_mtim, un.st_mtim) & eqt(st.st_atim, un.st_atim) & !after(b.st_mtim, st.st_mtim), "utimens-now-takes-effect"); *vis = st.st_mtim; return 0; }
    int r = ops->utimens(pf, s, 0);
    sym_assert(r == 0, "utimens-ok");
    struct stat st; sym_assert(stat_op(pf, &st) == 0, "getattr-ok");
    sym_assert(eqt(st.st_atim, w == 1 ? b.st_atim : t[0]), "utimens-atime-is-visible");
    sym_assert(eqt(st.st_mtim, w == 2 ? b.st_mtim : t[1]), "utimens-mtime-is-visible");
    *vis = st.st_mtim;
    return 0;
}
static void times_body() {
    m_init(m, pf, 2);
    sym_assert(h_open(&h, pf, O_RDWR, m) == 0, "open");
    struct stat st, un;
    stat_op(pf, &st);
    struct timespec vis = st.st_mtim;
    for (int s = 0; s < K; s++) {
        int k = pickop(OPS, "op");
        switch (k) {
        case 0: settime(&vis); break;
        case 1: { u8 b[2]; sym_bytes(b, 2, "data"); struct timespec t0 = vis; h_write(&h, b, 2, pick("blk", 2) * 4 + 1); stat_op(pf, &st); sym_assert(after(st.st_mtim, t0), "write-moves-mtime-forward"); vis = st.st_mtim; break; }
        case 2: { struct timespec t0 = vis; h_trunc(&h, 1 + pick("tsize", 3) * 3, 1); stat_op(pf, &st); sym_assert(!after(t0, st.st_mtim), "truncate-does-not-move-mtime-back"); vis = st.st_mtim; break; }
        case 3: h_fsync(&h, 0); stat_op(pf, &st); env_stat(pf, &un); sym_assert(eqt(st.st_mtim, vis), "fsync-keeps-the-visible-mtime"); sym_assert(eqt(un.st_mtim, vis), "fsync-stores-the-visible-mtime"); break;
        case 4: env_cmd("lazyfs::clear-cache"); m_clear(m); stat_op(pf, &st); env_stat(pf, &un); sym_assert(eqt(st.st_mtim, un.st_mtim), "clear-cache-reverts-mtime"); vis = st.st_mtim; break;
        case 5: env_cmd("lazyfs::cache-checkpoint"); m_sync(m); stat_op(pf, &st); env_stat(pf, &un); sym_assert(eqt(st.st_mtim, vis), "checkpoint-keeps-the-visible-mtime"); sym_assert(eqt(un.st_mtim, vis), "checkpoint-stores-the-visible-mtime"); break;
        case 6: { H h2; sym_assert(h_open(&h2, pf, O_RDONLY, m) == 0, "open"); h_read(&h2, 0, 8, "read"); h_release(&h2); stat_op(pf, &st); sym_assert(eqt(st.st_mtim, vis), "reading-keeps-mtime"); break; }
        case 7: { int r = ops->chmod(pf, 0600, 0); sym_assert(r == 0, "chmod"); stat_op(pf, &st); sym_assert(eqt(st.st_mtim, vis), "chmod-keeps-mtime"); break; }
        case 8: { const char* to = pf == P_("f") ? pM : pM; (void)to; lookup(pM); sym_assert(ops->rename(pf, pM, 0) == 0, "rename"); lookup(pM); struct stat s2; stat_op(pM, &s2); sym_assert(eqt(s2.st_mtim, vis), "rename-keeps-mtime"); lookup(pf); sym_assert(ops->rename(pM, pf, 0) == 0, "rename"); lookup(pf); break; }
        }
        ck_attr(pf, m);
    }
    stat_op(pf, &st);
    sym_assert(eqt(st.st_mtim, vis), "mtime-is-the-last-one-set");
    sym_reach("end");
}
extern "C" void times(long k, long opmask) {
    K = k; OPS = opmask; pf = P_("f"); pM = P_("M");
    cfg(4, 4, 8, 0);
    env_run(times_body);
}
