// C13-C16: injected faults (torn-op, torn-seq, configured clear-cache, crash command).
#include "fsm.h"
static H h, h2;
static MF ref;
static const char *pa, *pb;
static long A1, A2, A3, A4;
static char cmdbuf[512];
static void put_s(const char* s) { strcat(cmdbuf, s); }
static void put_n(long n) { char b[16]; int k = 0; if (!n) b[k++] = '0'; while (n) b[k++] = '0' + n % 10, n /= 10; int l = strlen(cmdbuf); while (k) cmdbuf[l++] = b[--k]; cmdbuf[l] = 0; }
static void put_list(const i64* v, int n) { for (int i = 0; i < n; i++) { if (i) put_s(","); put_n(v[i]); } }

// ---- torn-op: the occurrence-th write to the file leaves exactly its selected parts on disk and LazyFS dies
static EnvInj inj;
static void persist_part(MF* m, const u8* b, u64 off, u64 from, u64 len) {
    for (int i = 0; i < VCAP; i++) { // branch-free: disk[off+from .. +len) = b[from..]
        u64 rel = (u64)i - off;
        u64 in = (rel >= from) & (rel < from + len);
        u8 src = 0;
        for (int k = 0; k < 12; k++) src = (u8)sym_ite(rel == (u64)k, b[k], src);
        m->d[i] = (u8)sym_ite(in, src, m->d[i]);
    }
    m->dsz = sym_ite(len > 0, mx(m->dsz, off + from + len), m->dsz);
}
static int occ, nper, parts; static i64 per[3], pbv[3];
static void tornop_body() {
    MF* m = &mf[0];
    m_init(m, pa, 2);
    if (A1 >= 2) { // through the FIFO
        cmdbuf[0] = 0;
        put_s("lazyfs::torn-op::file="); put_s(pa); put_s("::persist="); put_list(per, nper);
        if (A1 == 2) { put_s("::parts="); put_n(parts); } else { put_s("::parts_bytes="); put_list(pbv, parts); }
        if (occ != 1 || pick("occ-given", 2)) { put_s("::occurrence="); put_n(occ); }
        env_cmd(cmdbuf);
    }
    sym_assert(h_open(&h, pa, O_RDWR, m) == 0, "open");
    MF* o = &mf[1]; m_put(o, pb, "zz");
    sym_assert(h_open(&h2, pb, O_RDWR, o) == 0, "open");
    for (int w = 1; w <= occ; w++) {
        u8 b[VCAP]; u64 off, len;
        if (A2 & 1) { u8 z[2]; sym_bytes(z, 2, "other"); h_write(&h2, z, 2, 1); } // writes to other files do not count
        if ((A2 & 2) && w == occ) { h_trunc(&h, m->vsz + 1, 1); }                 // nor do truncates
        sym_bytes(b, 2 * BS, "data");
        if (w < occ) { off = BS * pick("w0", 2); len = 3; h_write(&h, b, len, off); sym_assert(!env_killed, "no-crash-before-the-configured-write"); ck_disk(pa, m, "nothing-persisted-before-the-configured-write"); continue; }
        symrange("wblk", "wspan", 3, 2, &off, &len);
        CRASHABLE(ops->write(h.path, (const char*)b, len, off + m->sh, &h.fi));
        u64 from[3], ln[3]; int fits = 1;
        if (A1 & 1) { u64 s = 0; for (int i = 0; i < parts; i++) from[i] = s, ln[i] = pbv[i], s += pbv[i]; fits = s == len; }
        else for (int i = 0; i < parts; i++) from[i] = i * (len / parts), ln[i] = i == parts - 1 ? len - from[i] : len / parts;
        if (fits) {
            sym_assert(env_killed == 9, "lazyfs-dies-at-the-configured-write");
            for (int i = 0; i < nper; i++) persist_part(m, b, off, from[per[i] - 1], ln[per[i] - 1]);
            ck_disk(pa, m, "exactly-the-selected-parts-are-on-disk");
            sym_reach("torn");
        } else {
            sym_assert(env_killed == 0, "no-crash-when-the-parts-do-not-fit-the-write");
            ck_disk(pa, m, "nothing-persisted-when-the-parts-do-not-fit");
            sym_reach("misfit");
            if (nper == 1 && per[0] == parts) { // the configured write is past: later ones are ordinary, whatever their size
                m_write(m, b, len, off);
                u8 x[4]; sym_bytes(x, 3, "later");
                for (int l = 1; l <= 3 && !env_killed; l++) CRASHABLE({ int r = ops->write(h.path, (char*)x, l, m->sh, &h.fi); sym_assert(r == l, "write-returns-length"); m_write(m, x, l, 0); });
                sym_assert(env_killed == 0, "no-crash-after-the-configured-write");
                ck_disk(pa, m, "nothing-persisted-after-the-configured-write");
                h_fsync(&h, 0); ck_disk(pa, m, "fsync-completes-the-file");
            }
        }
        ck_disk(pb, o, "other-files-untouched");
    }
    sym_reach("end");
}
// mode: 0 config parts, 1 config parts_bytes, 2 FIFO parts, 3 FIFO parts_bytes; flags: 1 interleave another file, 2 truncate
extern "C" void tornop(long mode, long flags, long maxocc, long maxparts) {
    A1 = mode; A2 = flags & 3; pa = P_("a"); pb = P_("b"); shift(SHIFTS[flags / 4]); // flags also 4, 8: large offsets
    cfg(4, 4, 8, 0);
    occ = 1 + pick("occ", maxocc); parts = 1 + pick("parts", maxparts);
    int sel = 1 + pick("persist", (1 << parts) - 1);
    nper = 0; for (int i = 0; i < parts; i++) if (sel >> i & 1) per[nper++] = i + 1;
    if (nper > 1 && pick("order", 2)) { i64 t = per[0]; per[0] = per[nper - 1]; per[nper - 1] = t; }
    if (mode & 1) for (int i = 0; i < parts; i++) pbv[i] = 1 + pick("pb", 3);
    if (mode < 2) {
        env_cfg.ninj = 1; EnvInj& j = env_cfg.inj[0]; memset(&j, 0, sizeof j);
        j.type = "torn-op"; j.file = pa; j.has_occurrence = 1; j.occurrence = occ; j.has_persist = 1; j.npersist = nper;
        for (int i = 0; i < nper; i++) j.persist[i] = per[i];
        if (mode & 1) { j.has_pb = 1; j.npb = parts; for (int i = 0; i < parts; i++) j.pb[i] = pbv[i]; } else { j.has_parts = 1; j.parts = parts; }
    }
    env_run(tornop_body);
}
// ---- torn-seq: in the occurrence-th group of consecutive writes (no fsync in between), exactly the selected writes
// reach the disk, and LazyFS dies after the last of them.
static int K;
static struct { u8 b[VCAP]; u64 off, len; } W[6];
static void tornseq_body() {
    MF* m = &mf[0]; MF* o = &mf[1];
    m_init(m, pa, 1);
    m_put(o, pb, "z");
    if (A1 == 1) {
        for (int f = 0; f < (A2 & 1 ? 2 : 1); f++) {
            cmdbuf[0] = 0;
            put_s("lazyfs::torn-seq::op=write::file="); put_s(f ? pb : pa); put_s("::persist="); put_list(per, nper);
            if (occ != 1 || pick("occ-given", 2)) { put_s("::occurrence="); put_n(occ); }
            env_cmd(cmdbuf);
        }
    }
    sym_assert(h_open(&h, pa, O_RDWR, m) == 0, "open");
    sym_assert(h_open(&h2, pb, O_RDWR, o) == 0, "open");
    int group = 0, n = 0, last = 0, bn = 0, bg = 0;
    for (int i = 0; i < nper; i++) if (per[i] > last) last = per[i];
    if (last == 1) last = 2; // a lone first write only counts once a second one follows
    for (int k = 0; k < K; k++) {
        int op = pick("op", A2 ? 3 : 2);
        if (op == 1) { h_fsync(&h, pick("data", 2)); n = 0; }
        else if (op == 2) { // the other file, with its own fault: the second write of its group kills too
            u8 z[2]; sym_bytes(z, 1, "other");
            int kills = 0;
            if (A2 & 1) { bn++; if (bn == 2) bg++; if (bn >= 2 && bg == occ) { sym_end(); } }
            (void)kills;
            h_write(&h2, z, 1, 0);
            sym_assert(!env_killed, "other-file-does-not-crash");
        } else {
            n++; if (n == 2) group++;
            if (n > 4) sym_end();
            W[n].off = pick("off", 2) * 3; W[n].len = 2 + pick("len", 2); sym_bytes(W[n].b, 4, "data");
            int hit = n >= 2 && group == occ;
            CRASHABLE({ int r = ops->write(h.path, (const char*)W[n].b, W[n].len, W[n].off + m->sh, &h.fi); sym_assert(r == (int)W[n].len, "write-returns-length"); });
            m_write(m, W[n].b, W[n].len, W[n].off);
            if (hit) for (int q = 0; q < nper; q++) if (per[q] == n || (per[q] == 1 && n == 2)) {} 
            if (hit) { // persisted in issue order: the first write together with the second
                for (int pass = (n == 2 ? 1 : n); pass <= n; pass++)
                    for (int q = 0; q < nper; q++) if (per[q] == pass) { memcpy(m->d + W[pass].off, W[pass].b, W[pass].len); m->dsz = mx(m->dsz, W[pass].off + W[pass].len); }
            }
            int die = hit && n == last;
            sym_assert(env_killed == (die ? 9 : 0), "lazyfs-dies-exactly-after-the-last-selected-write");
            ck_disk(pa, m, "exactly-the-selected-writes-are-on-disk");
            ck_disk(pb, o, "other-files-untouched");
            if (die) { sym_reach("torn"); return; }
        }
        ck_disk(pa, m, "exactly-the-selected-writes-are-on-disk");
        ck_disk(pb, o, "other-files-untouched");
    }
    sym_reach("end");
}
// mode 0 config, 1 FIFO; flags 1: a second file with the same fault is written in between, 2: a second file without fault
extern "C" void tornseq(long mode, long flags, long k, long maxocc) {
    A1 = mode; A2 = flags & 3; shift(SHIFTS[flags / 4]); K = k; pa = P_("a"); pb = P_("b");
    cfg(4, 4, 8, 0);
    occ = 1 + pick("occ", maxocc);
    int sel = 1 + pick("persist", 7);
    nper = 0; for (int i = 0; i < 3; i++) if (sel >> i & 1) per[nper++] = i + 1;
    if (nper > 1 && pick("order", 2)) { i64 t = per[0]; per[0] = per[nper - 1]; per[nper - 1] = t; }
    if (mode == 0) {
        env_cfg.ninj = flags & 1 ? 2 : 1;
        for (int f = 0; f < env_cfg.ninj; f++) {
            EnvInj& j = env_cfg.inj[f]; memset(&j, 0, sizeof j);
            j.type = "torn-seq"; j.op = "write"; j.file = f ? pb : pa; j.has_occurrence = 1; j.occurrence = occ; j.has_persist = 1; j.npersist = nper;
            for (int i = 0; i < nper; i++) j.persist[i] = per[i];
        }
    }
    env_run(tornseq_body);
}
// ---- operations by name, each prepared so that it succeeds
static const char* OPN[] = {"unlink", "truncate", "fsync", "write", "create", "access", "open", "read", "rename", "link", "symlink"};
enum { FO_UNLINK, FO_TRUNCATE, FO_FSYNC, FO_WRITE, FO_CREATE, FO_ACCESS, FO_OPEN, FO_READ, FO_RENAME, FO_LINK, FO_SYMLINK, FO_N };
static int fop, ftiming, fcrash;
static const char* pt; // second path of rename/link/symlink
static char rb[VCAP];
static struct fuse_file_info ofi;
static void prep(int op, const char* p, const char* to) {
    if (op == FO_CREATE) { if (env_exists(p)) { lookup(p); sym_assert(ops->unlink(p) == 0, "prep-unlink"); } }
    else if (!env_exists(p) && fop == FO_CREATE) env_put(p, "c", 1); // preparation never uses the configured operation
    else if (!env_exists(p)) {
        struct fuse_file_info fi; memset(&fi, 0, sizeof fi); fi.flags = O_RDWR | O_CREAT;
        sym_assert(ops->create(p, 0644, &fi) == 0, "prep-create");
        ops->release(p, &fi);
    }
    if (op >= FO_RENAME && env_exists(to)) { lookup(to); sym_assert(ops->unlink(to) == 0, "prep-unlink"); }
    lookup(p);
    if (op >= FO_RENAME) lookup(to);
    memset(&ofi, 0, sizeof ofi); ofi.flags = O_RDWR;
    if (op == FO_FSYNC || op == FO_WRITE || op == FO_READ) sym_assert(ops->open(p, &ofi) == 0, "prep-open");
}
static int perform(int op, const char* p, const char* to) {
    switch (op) {
    case FO_UNLINK: return ops->unlink(p);
    case FO_TRUNCATE: return ops->truncate(p, 1, 0);
    case FO_FSYNC: return ops->fsync(p, 0, &ofi);
    case FO_WRITE: return ops->write(p, "w", 1, 0, &ofi) == 1 ? 0 : -1;
    case FO_CREATE: ofi.flags = O_RDWR | O_CREAT; return ops->create(p, 0644, &ofi);
    case FO_ACCESS: return ops->access(p, 0);
    case FO_OPEN: return ops->open(p, &ofi);
    case FO_READ: return ops->read(p, rb, 2, 0, &ofi) < 0 ? -1 : 0;
    case FO_RENAME: return ops->rename(p, to, 0);
    case FO_LINK: return ops->link(p, to);
    case FO_SYMLINK: return ops->symlink(p, to);
    }
    return -1;
}
static void fini(int op, const char* p) { if (op == FO_FSYNC || op == FO_WRITE || op == FO_CREATE || op == FO_OPEN || op == FO_READ) ops->release(p, &ofi); }
// did the operation reach the underlying file system?
static int effect(int op, const char* p, const char* to) {
    switch (op) {
    case FO_UNLINK: return !env_exists(p);
    case FO_CREATE: return env_exists(p);
    case FO_RENAME: return !env_exists(p) && env_exists(to);
    case FO_LINK: case FO_SYMLINK: return env_exists(to);
    }
    return -1;
}
// a dirty byte in an unrelated file tells whether the cache was cleared
static u8 dirty0, dirty1;
static void dirty() {
    u8 b; sym_bytes(&b, 1, "dirty");
    h_write(&h2, &b, 1, 0);
    dirty1 = b;
}
static int is_cleared() { h_read(&h2, 0, 4, "bystander-content"); return 0; }
static void clearf_body() {
    MF* o = &mf[1];
    m_init(o, pb, 1);
    sym_assert(h_open(&h2, pb, O_RDWR, o) == 0, "open");
    int count = 0;
    for (int k = 0; k < K; k++) {
        int which = A2 ? pick("which", 3) : 0; // 0 the configured operation and path, 1 same operation elsewhere, 2 another operation
        int op = fop; const char *p = pa, *to = pt;
        if (which == 1) { p = P_("other"); }
        if (which == 2) op = fop == FO_ACCESS ? FO_TRUNCATE : FO_ACCESS;
        // preparation may itself use operations: it must not be the configured one on the configured path
        if (op == FO_UNLINK ? 0 : op >= FO_RENAME && fop == FO_UNLINK) sym_end();
        prep(op, p, to);
        dirty();
        if (which == 0) count++;
        int hit = which == 0 && count == occ;
        int r = 0;
        int e0 = effect(op, p, to);
        CRASHABLE(r = perform(op, p, to));
        if (hit && fcrash) {
            sym_assert(env_killed == 9, "lazyfs-dies-at-the-configured-occurrence");
            int e = effect(op, p, to);
            if (e >= 0) sym_assert(e == ftiming, ftiming ? "operation-took-effect-before-the-crash" : "operation-had-no-effect-before-the-crash");
            ck_disk(pb, o, "unsynced-data-does-not-survive-the-crash");
            sym_reach("crashed");
            return;
        }
        sym_assert(!env_killed, "no-crash-otherwise");
        sym_assert(r == 0, "operation-succeeds");
        (void)e0;
        if (effect(op, p, to) >= 0) sym_assert(effect(op, p, to) == 1, "operation-took-effect");
        if (hit) { m_clear(o); sym_reach("cleared"); }
        h_read(&h2, 0, 8, hit ? "cache-cleared-at-the-configured-occurrence" : "cache-kept-otherwise");
        fini(op, p);
        // the configured operation's own data: written before the fault is lost, after it is kept
        if (which == 0 && fop == FO_WRITE && hit) {
            MF t; memset(&t, 0, sizeof t);
            struct stat st; stat_op(pa, &st);
            sym_assert((st.st_size > 0) == (ftiming == 0), "write-lost-exactly-when-cleared-after-it");
        }
    }
    sym_reach("end");
}
extern "C" void clearf(long opmask, long k, long noise, long maxocc) {
    K = k; A2 = noise; pa = P_("Q"); pb = P_("d"); pt = P_("Z");
    cfg(4, 4, 16, 0);
    AM = A_VIS | A_DISK | A_RET;
    int o = pick("fop", __builtin_popcount(opmask)); fop = -1;
    do { do fop++; while (!(opmask >> fop & 1)); } while (o-- > 0);
    ftiming = pick("timing", 2); fcrash = pick("crash", 2); occ = 1 + pick("occ", maxocc);
    env_cfg.ninj = 1; EnvInj& j = env_cfg.inj[0]; memset(&j, 0, sizeof j);
    j.type = "clear-cache"; j.op = OPN[fop]; j.timing = ftiming ? "after" : "before"; j.from = pa; if (fop >= FO_RENAME) j.to = pt;
    j.has_occurrence = 1; j.occurrence = occ; j.has_crash = 1; j.crash = fcrash;
    env_run(clearf_body);
}
// ---- crash command: dies at the first matching operation, at the given moment, and only then
static int has(const char* path, const char* lit) { // '.' matches any character
    for (const char* s = path; *s; s++) { int i = 0; while (lit[i] && s[i] && (lit[i] == '.' || lit[i] == s[i])) i++; if (!lit[i]) return 1; }
    return 0;
}
static const char* RX[] = {"Q", "QZ", "Q.Z", "none", ""};
static const char *frx, *trx;
static void crash_body() {
    MF* o = &mf[1];
    m_init(o, pb, 1);
    sym_assert(h_open(&h2, pb, O_RDWR, o) == 0, "open");
    dirty();
    cmdbuf[0] = 0;
    put_s("lazyfs::crash::timing="); put_s(ftiming ? "after" : "before"); put_s("::op="); put_s(OPN[fop]);
    if (frx) { put_s("::from_rgx="); put_s(frx); }
    if (trx) { put_s("::to_rgx="); put_s(trx); }
    env_cmd(cmdbuf);
    int multi = fop >= FO_RENAME;
    static const char* NM[] = {"Q", "QZ", "QxZ", "Z"};
    for (int k = 0; k < K; k++) {
        int op = fop;
        if (A2 && pick("other-op", 2)) op = fop == FO_ACCESS ? FO_READ : FO_ACCESS;
        const char* p = P_(NM[pick("path", 4)]);
        const char* to = multi ? P_(pick("to", 2) ? "tQ" : "tZ") : pt;
        int valid = multi ? (frx || trx) : (frx && !trx);
        int hit = valid && op == fop && (!frx || has(p, frx)) && (!multi || !trx || has(to, trx));
        // preparation must not hit the fault
        if (fop == FO_CREATE || fop == FO_UNLINK) { if (k) sym_end(); if (op == FO_CREATE) { lookup(p); memset(&ofi, 0, sizeof ofi); } else { env_put(p, "u", 1); lookup(p); } }
        else if (fop == FO_OPEN) { if (op != fop) sym_end(); env_put(p, "u", 1); lookup(p); memset(&ofi, 0, sizeof ofi); ofi.flags = O_RDWR; }
        else { if (!env_exists(p)) env_put(p, "u", 1); prep(op, p, to); }
        if (op == FO_READ && fop != FO_READ && fop == FO_OPEN) sym_end();
        CRASHABLE({ int r = perform(op, p, to); sym_assert(r == 0, "operation-succeeds"); });
        sym_assert(env_killed == (hit ? 9 : 0), hit ? "lazyfs-dies-at-the-matching-operation" : "lazyfs-survives-other-operations");
        if (hit) {
            int e = effect(op, p, to);
            if (e >= 0) sym_assert(e == ftiming, ftiming ? "operation-took-effect-before-the-crash" : "operation-had-no-effect-before-the-crash");
            ck_disk(pb, o, "unsynced-data-does-not-survive-the-crash");
            sym_reach("crashed");
            return;
        }
        fini(op, p);
        ck_disk(pb, o, "unsynced-data-stays-off-the-disk");
    }
    h_read(&h2, 0, 8, "data-kept-without-a-crash");
    sym_reach("survived");
}
extern "C" void crashcmd(long opmask, long k, long noise, long rxs) {
    K = k; A2 = noise; pb = P_("d"); pt = P_("Z");
    cfg(4, 4, 16, 0);
    int o = pick("fop", __builtin_popcount(opmask)); fop = -1;
    do { do fop++; while (!(opmask >> fop & 1)); } while (o-- > 0);
    ftiming = pick("timing", 2);
    int i = pick("from", rxs + 1), j = fop >= FO_RENAME ? pick("to", rxs + 1) : 0;
    frx = i ? RX[i - 1] : 0; trx = j ? RX[j - 1] : 0;
    env_run(crash_body);
}
