// C18: the configuration file.  Sizes give the cache the capacity they say, impossible ones are refused, injections with
// missing or impossible keys are ignored without harm, valid ones next to them work.
#include "fsm.h"
#include "logline.h"
static H h; static MF* m = &mf[0];
static const char *pb, *pQ, *pV;
static int started;
static long expect, sure; // blocks that can be cached; blocks that must be (room is given out page by page, so the last page may stay partly unused)
static double usage; static int usages;
extern "C" void env_log_line(int, const char* f, const void* va, int n) {
    log_text(f, (const EnvLogArg*)va, n);
    if (!strstr(LT, "cache usage")) return;
    if (ln_ == 1) { usage = LD[0]; usages++; }
    else if (ln_ == 0) for (const char* p = LT; *p; p++) if (*p >= '0' && *p <= '9') { usage = strtod(p, 0); usages++; break; }
}
static void open_() { pb = P_("b"); memset(m, 0, sizeof *m); env_put(pb, "", 0); sym_assert(h_open(&h, pb, O_RDWR, m) == 0, "open"); }
// ---- manual geometry
static void manual_body() {
    sym_assert(expect > 0, "impossible-geometry-is-refused");
    open_();
    for (long i = 0; i <= expect; i++) { // fill the cache block by block: only what does not fit reaches the disk
        u8 z[8]; sym_bytes(z, BS, "data");
        h_write(&h, z, BS, i * BS);
        if (i < sure) sym_assert(env_size(pb) <= 0, "cache-holds-as-many-blocks-as-configured");
    }
    u8 d[VCAP]; env_data(pb, d);
    sym_assert((env_size(pb) > 0) & eqn(d + expect * BS, m->v + expect * BS, BS), "cache-holds-no-more-blocks-than-configured");
    h_read(&h, 0, VCAP, "read-returns-latest-data");
    h_fsync(&h, 0); ck_disk(pb, m, "fsync-completes-the-file");
    sym_reach("end");
}
extern "C" void manual(long maxblock, long maxpage, long maxn) {
    AM = 15;
    int b = pick("block", maxblock + 1), p = pick("page", maxpage + 1), n = pick("pages", maxn + 1);
    cfg(b, p, n, 0);
    int ok = b > 0 && p > 0 && n > 0 && p % b == 0;
    expect = ok ? (long)n * (p / b) : 0;
    sure = ok ? (long)(n - 1) * (p / b) + 1 : 0;
    if (ok && (expect + 1) * b > VCAP) sym_end();
    env_try_run(manual_body);
    sym_assert(!ok, "possible-geometry-is-accepted");
    sym_reach("refused");
}
// ---- a bigger cache filled page by page by two files: everything that fits stays in memory
static int roompages, roompp;
static void room_body() {
    open_();
    const char* pc = P_("c"); H g; MF* o = &mf[1]; memset(o, 0, sizeof *o); env_put(pc, "", 0); sym_assert(h_open(&g, pc, O_RDWR, o) == 0, "open");
    int split = pick("split", 3); // all in one file / every third page in the other / the second half in the other
    int n[2] = {0, 0}, per = roompp * BS;
    for (int i = 0; i < roompages; i++) {
        int w = split == 0 ? 0 : split == 1 ? i % 3 == 2 : i >= roompages / 2;
        u8 z[8]; sym_bytes(z, per, "data");
        h_write(w ? &g : &h, z, per, n[w] * per); n[w]++;
        sym_assert(env_size(pb) == 0 && env_size(pc) == 0, "what-fits-stays-in-the-cache");
    }
    h_read(&h, 0, VCAP, "read-returns-latest-data"); h_read(&g, 0, VCAP, "read-returns-latest-data");
    ck_attr(pb, m); ck_attr(pc, o);
    sym_assert(env_size(pb) == 0 && env_size(pc) == 0, "what-fits-stays-in-the-cache");
    h_fsync(&h, 0); ck_disk(pb, m, "fsync-completes-the-file");
    sym_assert(env_size(pc) == 0, "fsync-leaves-other-files-alone");
    sym_reach("end");
}
extern "C" void room(long maxpages) {
    AM = 15;
    static const int B[] = {1, 1, 2}, PG[] = {1, 2, 2};
    int c = pick("geometry", 3); roompages = c ? maxpages / 2 : maxpages; roompp = PG[c] / B[c];
    if (pick("small", 2)) roompages = roompages / 2;
    cfg(B[c], PG[c], roompages, pick("evict", 2));
    env_run(room_body);
}
// every impossible geometry is refused: sizes of nothing, pages that are not a whole number of blocks
static void refuse_body() { sym_fail("impossible-geometry-is-refused"); }
extern "C" void refuse(long hi) {
    int kind = pick("kind", 4);
    i64 b = sym_i64("block", kind == 0 ? 0 : 1, kind == 0 ? 0 : hi), p = sym_i64("page", kind == 1 ? 0 : 1, kind == 1 ? 0 : hi), n = sym_i64("pages", kind == 2 ? 0 : 1, kind == 2 ? 0 : hi);
    cfg(4, 4, 8, 0); env_cfg.block = b; env_cfg.page = p; env_cfg.npages = n;
    if (kind == 3) sym_assume((u64)p % (u64)b != 0);
    env_try_run(refuse_body);
    sym_reach("refused");
}
// ---- sizes
struct S { const char* s; long bytes; };
static const S SZ[] = {{"1Mb", 1048576}, {"1mb", 1048576}, {"1M", 1048576}, {"1m", 1048576}, {"0.5Mb", 524288}, {"1.5MB", 1572864}, {"64Kb", 65536}, {"64k", 65536}, {"100kb", 102400}, {"20480K", 20971520 / 1},
    {"0.001gb", 1073741}, {"0.0005G", 536870}, {"0.002Gb", 2147483}, {"2Mb", 2097152}, {"8kb", 8192}, {"12.5kb", 12800},
    {"", 0}, {"Mb", 0}, {"0Mb", 0}, {"0.0gb", 0}, {"10", 0}, {"10tb", 0}, {"4096b", 0}, {"abc", 0}, {"1kb", 0}, {"kb64", -1}, {"0.5", 0}, {"5 mb!", 0}, {"-", 0}};
static void simple_body() {
    sym_assert(expect > 0, "impossible-size-is-refused");
    open_();
    u8 z[2]; sym_bytes(z, 2, "data");
    usages = 0; env_log_on = 1; env_cmd("lazyfs::display-cache-usage"); env_log_on = 0;
    sym_assert(usages == 1 && usage == 0, "empty-cache-is-unused");
    h_write(&h, z, 2, 1);
    usages = 0; env_log_on = 1; env_cmd("lazyfs::display-cache-usage"); env_log_on = 0;
    double e = 100.0 / expect;
    sym_assert(usages == 1 && usage > e * 0.999999 && usage < e * 1.000001, "cache-has-the-configured-number-of-pages");
    sym_assert(env_size(pb) == 0, "write-stays-in-the-cache");
    h_read(&h, 0, 8, "read-returns-latest-data");
    sym_reach("end");
}
extern "C" void simple(long) {
    AM = 15;
    const S& s = SZ[pick("size", sizeof SZ / sizeof *SZ)];
    static const int BPP[] = {-1, 1, 2, 5, 0};
    int b = BPP[pick("bpp", 5)];
    cfg(4, 4, 8, 0); env_cfg.simple = 1; env_cfg.custom_size = s.s; env_cfg.bpp = b;
    int eff = b == -1 ? 1 : b;
    if (s.bytes < 0) sym_end();
    if (s.bytes > 0 && eff > 0 && s.bytes <= eff * 4096) sym_end(); // less than two pages: either is fine
    BS = 4096;
    expect = eff > 0 ? s.bytes / 4096 / eff : 0;
    env_try_run(simple_body);
    sym_assert(expect == 0, "possible-size-is-accepted");
    sym_reach("refused");
}
// ---- eviction flag
static void evict_body() {
    open_();
    u8 z[VCAP]; sym_bytes(z, 12, "data");
    for (int i = 0; i < 3; i++) h_write(&h, z + 4 * i, 4, 4 * i);
    u8 d[VCAP]; env_data(pb, d);
    if (env_cfg.eviction == 1) sym_assert((env_size(pb) == 4 && eqn(d, z, 4)) | (env_size(pb) == 8 && eqn(d + 4, z + 4, 4) && (d[0] | d[1] | d[2] | d[3]) == 0), "eviction-makes-room-when-configured");
    else sym_assert(env_size(pb) == 12 && eqn(d + 8, z + 8, 4) && !(d[0] | d[1] | d[2] | d[3] | d[4] | d[5] | d[6] | d[7]), "no-eviction-unless-configured");
    h_read(&h, 0, 16, "read-returns-latest-data");
    sym_reach("end");
}
static int nonzero(u8* z) { u64 r = 1; for (int i = 0; i < 12; i++) r &= z[i] != 0; return r; }
extern "C" void evictflag(long) { AM = 15; cfg(4, 4, 2, pick("flag", 3) - 1); env_cfg.log_ops = pick("log", 2); (void)nonzero; env_run(evict_body); }
// ---- injections
static void use(const char* p, int shielded) { // writes, syncs, renames: all the operations a fault could sit on
    struct fuse_file_info fi; memset(&fi, 0, sizeof fi); fi.flags = O_RDWR | O_CREAT;
    const char* q2 = P_("Q2");
    u8 b; sym_bytes(&b, 1, "dirty"); h_write(&h, &b, 1, 1);
    lookup(p); sym_assert(ops->create(p, 0644, &fi) == 0, "create");
    for (int i = 0; i < 3; i++) sym_assert(ops->write(p, "abc", 3, 0, &fi) == 3, "write");
    sym_assert(!env_killed && env_size(p) == 0, "impossible-injections-are-ignored");
    sym_assert(ops->truncate(p, 3, &fi) == 0, "truncate");
    lookup(q2); sym_assert(ops->rename(p, q2, 0) == 0, "rename"); lookup(q2);
    sym_assert(ops->fsync(q2, 0, &fi) == 0, "fsync");
    ops->release(q2, &fi);
    sym_assert(!env_killed && env_size(q2) == 3, "impossible-injections-are-ignored");
    sym_assert(ops->unlink(q2) == 0, "unlink");
    h_read(&h, 0, 8, "impossible-injections-are-ignored");
    ck_disk(pb, m, "impossible-injections-are-ignored");
    (void)shielded;
}
static int withvalid, firstwins;
static void inj_body() {
    open_();
    use(pQ, 0);
    if (withvalid) { // the valid torn-op next to it: first write to V leaves its second half and dies
        struct fuse_file_info fi; memset(&fi, 0, sizeof fi); fi.flags = O_RDWR | O_CREAT;
        lookup(pV); sym_assert(ops->create(pV, 0644, &fi) == 0, "create");
        u8 w[4]; sym_bytes(w, 4, "data");
        CRASHABLE(ops->write(pV, (char*)w, 4, 0, &fi));
        u8 d[VCAP]; env_data(pV, d);
        sym_assert(env_killed == 9 && env_size(pV) == 4 && (d[0] | d[1]) == 0, "valid-injections-next-to-it-work");
        sym_assert((d[2] == w[2]) & (d[3] == w[3]), "valid-injections-next-to-it-work");
    }
    sym_reach("end");
}
static EnvInj* add() { EnvInj* j = &env_cfg.inj[env_cfg.ninj++]; memset(j, 0, sizeof *j); return j; }
static void valid_op(EnvInj* j, const char* f) { j->type = "torn-op"; j->file = f; j->has_occurrence = 1; j->occurrence = 1; j->has_persist = 1; j->npersist = 1; j->persist[0] = 2; j->has_parts = 1; j->parts = 2; }
static i64 neg(const char* n) { return sym_i64(n, -2147483648LL, 0); }
static void bad_(int k) {
    EnvInj* j = add();
    if (k < 12) { // torn-op
        valid_op(j, pQ);
        switch (k) {
        case 0: j->file = 0; break; case 1: j->has_occurrence = 0; break; case 2: j->has_persist = 0; break; case 3: j->has_parts = 0; break;
        case 4: j->has_pb = 1; j->npb = 2; j->pb[0] = 1; j->pb[1] = 2; break;
        case 5: j->occurrence = neg("value"); break; case 6: j->persist[0] = sym_i64("part", 3, 2147483647); break; case 7: j->persist[0] = neg("value"); break; case 8: j->parts = neg("value"); break;
        case 9: j->has_parts = 0; j->has_pb = 1; j->npb = 2; j->pb[0] = neg("value"); j->pb[1] = 3; break;
        case 10: j->has_parts = 0; j->has_pb = 1; j->npb = 2; j->pb[0] = 1; j->pb[1] = 2; j->persist[0] = sym_i64("part", 3, 2147483647); break;
        case 11: j->npersist = 2; j->persist[0] = 1; j->persist[1] = sym_i64("part", 3, 2147483647); break;
        }
    } else if (k < 20) { // torn-seq
        j->type = "torn-seq"; j->file = pQ; j->op = "write"; j->has_occurrence = 1; j->occurrence = 1; j->has_persist = 1; j->npersist = 1; j->persist[0] = 1;
        switch (k - 12) {
        case 0: j->file = 0; break; case 1: j->op = 0; break; case 2: j->has_occurrence = 0; break; case 3: j->has_persist = 0; break;
        case 4: j->op = pick("op", 2) ? "read" : ""; break; case 5: j->occurrence = neg("value"); break; case 6: j->persist[0] = neg("value"); break;
        case 7: j->npersist = 2; j->persist[1] = neg("value"); break;
        }
    } else if (k < 32) { // clear-cache (with crash, which nobody can miss)
        j->type = "clear-cache"; j->op = "write"; j->timing = "after"; j->from = pQ; j->has_occurrence = 1; j->occurrence = 1; j->has_crash = 1; j->crash = pick("crash", 2);
        switch (k - 20) {
        case 0: j->op = 0; break; case 1: j->timing = 0; break; case 2: j->from = 0; break; case 3: j->has_occurrence = 0; break; case 4: j->has_crash = 0; break;
        case 5: j->op = "frobnicate"; break; case 6: j->op = ""; break; case 7: j->timing = pick("timing", 2) ? "during" : ""; break; case 8: j->to = pV; break;
        case 9: j->occurrence = neg("value"); break; case 10: j->op = "rename"; break; case 11: j->op = "rename"; j->from = 0; j->to = P_("Q2"); break;
        }
    } else { valid_op(j, pQ); j->type = "meteor-strike"; }
}
enum { NBAD = 33 };
extern "C" void inj(long) {
    AM = 15; cfg(4, 4, 16, 0); pQ = P_("Q"); pV = P_("V");
    int k = pick("bad", NBAD), pos = pick("valid", 3); // alone, valid one before, valid one after
    withvalid = pos > 0;
    if (pos == 1) valid_op(add(), pV);
    bad_(k);
    if (pos == 2) valid_op(add(), pV);
    env_run(inj_body);
}
// two faults of the same kind for one file: the first one stays, the second one is rejected
static void dup_body() {
    open_();
    if (firstwins) use(pQ, 0);
    struct fuse_file_info fi; memset(&fi, 0, sizeof fi); fi.flags = O_RDWR | O_CREAT;
    lookup(pV); sym_assert(ops->create(pV, 0644, &fi) == 0, "create");
    u8 w[4]; sym_bytes(w, 4, "data");
    CRASHABLE(ops->write(pV, (char*)w, 4, 0, &fi));
    u8 d[VCAP]; env_data(pV, d);
    sym_assert(env_killed == 9 && env_size(pV) == 4 && (d[0] | d[1]) == 0, "the-first-of-two-injections-stays");
    sym_assert((d[2] == w[2]) & (d[3] == w[3]), "the-first-of-two-injections-stays");
    sym_reach("end");
}
extern "C" void dup(long) {
    AM = 15; cfg(4, 4, 16, 0); pQ = P_("Q"); pV = P_("V"); firstwins = pick("use", 2);
    int other = pick("other", 4);
    valid_op(add(), pV);
    EnvInj* j = add();
    if (other == 0) { valid_op(j, pV); j->persist[0] = 1; }
    if (other == 1) { j->type = "torn-seq"; j->file = pV; j->op = "write"; j->has_occurrence = 1; j->occurrence = 3; j->has_persist = 1; j->npersist = 1; j->persist[0] = 1; }
    if (other == 2) { j->type = "clear-cache"; j->op = "fsync"; j->timing = "after"; j->from = pV; j->has_occurrence = 1; j->occurrence = 1; j->has_crash = 1; j->crash = 1; }
    if (other == 3) { EnvInj t = env_cfg.inj[0]; memset(j, 0, sizeof *j); *j = t; env_cfg.inj[0].type = "clear-cache"; EnvInj* c = &env_cfg.inj[0]; memset(c, 0, sizeof *c); c->type = "clear-cache"; c->op = "truncate"; c->timing = "before"; c->from = pV; c->has_occurrence = 1; c->occurrence = 2; c->has_crash = 1; c->crash = 1; }
    env_run(dup_body);
}
// ---- command line: the configuration file named by --config-path (wherever it stands) or the default one is read, and everything else is libfuse's
static char AB[12][32]; static char* AV[13]; static int an; static const char* wantcfg; static int skip0, skip1;
static void arg(const char* s) { strcpy(AB[an], s); AV[an] = AB[an]; an++; }
static void args_body() {
    sym_assert(!strcmp(env_config_file, wantcfg), "the-given-configuration-file-is-read");
    int n = 0;
    for (int i = 0; i < an; i++) if (i < skip0 || i >= skip1) { sym_assert(n < env_fuse_argc && !strcmp(env_fuse_argv[n], AB[i]), "other-arguments-go-to-libfuse"); n++; }
    sym_assert(n == env_fuse_argc, "other-arguments-go-to-libfuse");
    open_();
    u8 z[2]; sym_bytes(z, 2, "data"); h_write(&h, z, 2, 1);
    h_read(&h, 0, 8, "read-returns-latest-data");
    sym_reach("end");
}
extern "C" void args(long) {
    static const char* BASE_[] = {"lazyfs", "/mnt", "-o", "allow_other", "-o", "modules=subdir", "-o", "subdir=/root", "-f"};
    static const char* CFG_[] = {"my-o.toml", "/etc/x.toml", "o"};
    static const int AT[] = {1, 2, 4, 6, 8, 9};
    AM = 15; cfg(4, 4, 8, 0);
    int how = pick("how", 3), at = how == 0 ? AT[pick("at", 6)] : 99, n = 9;
    wantcfg = "config/default.toml"; skip0 = skip1 = 99;
    if (how == 0) wantcfg = CFG_[pick("file", 3)];
    for (int i = 0; i <= n; i++) {
        if (i == at) { skip0 = an; arg("--config-path"); arg(wantcfg); skip1 = an; }
        if (i < n) arg(BASE_[i]);
    }
    if (how == 1) { skip0 = an; skip1 = an + 1; arg("--config-path"); }
    AV[an] = 0; env_argc = an; env_argv = AV;
    env_run(args_body);
}
