// C06: the underlying file system fails one call (EIO, short transfers, ...) at a solver-chosen point.
// Whatever LazyFS answers must be the truth: an operation that reports success has its full effect, one that
// reports failure has not destroyed data that was already visible or already durable, and nothing crashes.
#include "fsm.h"
static H h;
static const char *p, *q;
static int K, OPS, MASK, BUD;
static u8 w[VCAP];
// after a failed write of [off,off+len) every byte holds the old or the new value; the rest is untouched
static void body() {
    p = P_("a"); q = P_("b");
    MF* m = &mf[0];
    m_init(m, p, 2);
    sym_assert(h_open(&h, p, O_RDWR, m) == 0, "open");
    u8 pre[4]; sym_bytes(pre, 3, "pre");
    int before = pick("dirty-before", 4); // nothing, a write, a truncation, both
    if (before & 1) h_write(&h, pre, 3, pick("preblk", 2) * BS);
    if (before & 2) h_trunc(&h, 2 + BS * pick("pretrunc", 3), 1);
    H o2; MF* m2 = &mf[1];
    MF old;
    int o = pick("op", __builtin_popcount(OPS)), k = -1;
    do { do k++; while (!(OPS >> k & 1)); } while (o-- > 0);
    if (k == 12) { // a second file with unsynced data is replaced
        u8 z[4]; sym_bytes(z, 3, "other"); memset(m2, 0, sizeof *m2); memcpy(m2->d, z, 2); memcpy(m2->v, z, 2); m2->vsz = m2->dsz = 2; env_put(q, z, 2);
        sym_assert(h_open(&o2, q, O_RDWR, m2) == 0, "open"); h_write(&o2, z + 2, 1, 1);
    }
    env_fault_mask = MASK; env_fault_budget = BUD;
    u64 off = 0, len = 0; int r = 0; u8 out[VCAP]; struct stat st;
    memset(out, 0xEE, sizeof out);
    old = *m;
    switch (k) {
    case 0: off = BS * pick("wblk", 3) + 1; len = 2 + BS * pick("wspan", 2); sym_bytes(w, len, "data"); r = ops->write(p, (char*)w, len, off, &h.fi); break;
    case 1: off = BS * pick("rblk", 2); len = 2 * BS; r = ops->read(p, (char*)out, len, off, &h.fi); break;
    case 2: r = ops->fsync(p, pick("data", 2), &h.fi); break;
    case 3: off = pick("tsize", 3) * BS + 2; r = ops->truncate(p, off, pick("byfd", 2) ? &h.fi : 0); break;
    case 4: r = ops->rename(p, q, 0); break;
    case 5: r = ops->unlink(p); break;
    case 6: r = ops->link(p, q); break;
    case 7: r = stat_op(p, &st); break;
    case 8: { struct fuse_file_info f2; memset(&f2, 0, sizeof f2); f2.flags = O_RDWR | (pick("trunc", 2) ? O_TRUNC : 0); r = ops->open(p, &f2); off = f2.flags & O_TRUNC; if (r == 0) ops->release(p, &f2); break; }
    case 9: { struct timespec t[2] = {{5, 0}, {6, 0}}; r = ops->utimens(p, t, 0); break; }
    case 10: env_cmd("lazyfs::cache-checkpoint"); break;
    case 11: { struct fuse_file_info f2; memset(&f2, 0, sizeof f2); f2.flags = O_RDWR | O_CREAT; r = ops->create(q, 0644, &f2); if (r == 0) ops->release(q, &f2); break; }
    case 12: r = ops->rename(p, q, 0); break;
    }
    env_fault_mask = 0;
    int fired = env_fault_fired;
    if (!fired) sym_assert(r >= 0, "succeeds-without-a-fault");
    u8 d[VCAP]; 
    switch (k) {
    case 0:
        if (r >= 0) { sym_assert(r <= (int)len && (r > 0), "write-result-in-range"); m_write(m, w, r, off); h_read(&h, 0, 16, "successful-write-is-visible"); ck_attr(p, m); h_fsync(&h, 0); ck_disk(p, m, "successful-write-survives-fsync"); }
        else { // failed: bytes outside the range keep their value
            int n = ops->read(p, (char*)out, 16, 0, &h.fi);
            sym_assert(n >= (int)0, "file-readable-after-failed-write");
            u64 bad = 0;
            for (int i = 0; i < 16; i++) bad |= sym_ite(((u64)i < (u64)old.vsz) & ((i < (int)off) | (i >= (int)(off + len))), (u64)((i < n ? out[i] : 0) ^ old.v[i]) | (i >= n), 0);
            sym_assert(bad == 0, "failed-write-keeps-other-bytes");
            sym_reach("write-failed");
        }
        break;
    case 1:
        if (r >= 0) { u64 n = sym_ite((i64)off < old.vsz, mn(len, old.vsz - off), 0); sym_assert((r == (int)n) & eqk(out, old.v + off, n, 2 * BS), "successful-read-is-correct"); }
        else sym_reach("read-failed");
        h_read(&h, 0, 16, "content-intact-after-read");
        break;
    case 2:
        if (r == 0) { m_sync(m); ck_disk(p, m, "successful-fsync-is-durable"); }
        else {
            sym_reach("fsync-failed");
            h_read(&h, 0, 16, "content-visible-after-failed-fsync");
            h_fsync(&h, 0); ck_disk(p, m, "retried-fsync-is-durable");
        }
        break;
    case 3:
        if (r == 0) { m_trunc(m, off); }
        else { sym_reach("truncate-failed"); }
        if (r == 0) { h_read(&h, 0, 16, "truncate-result-tells-the-truth"); ck_attr(p, m); h_fsync(&h, 0); ck_disk(p, m, "successful-truncate-survives-fsync"); }
        break;
    case 4: case 5: case 6: {
        int gone = k != 6 && r == 0;
        if (!gone) sym_assert(stat_op(p, &st) == 0 && (int)st.st_nlink == (k == 6 && r == 0 ? 2 : 1), "link-count-as-reported");
        sym_assert(env_exists(p) == !gone, "source-name-as-reported");
        if (k != 5) sym_assert(env_exists(q) == (r == 0), "target-name-as-reported");
        if (r != 0) { sym_reach("namespace-op-failed"); h_read(&h, 0, 16, "content-intact-after-failed-namespace-op"); ck_attr(p, m); h_fsync(&h, 0); ck_disk(p, m, "content-intact-after-failed-namespace-op"); }
        else if (k != 5) { lookup(q); H h3; sym_assert(h_open(&h3, q, O_RDWR, m) == 0, "open"); h_read(&h3, 0, 16, "content-follows-the-name"); h_fsync(&h3, 0); ck_disk(q, m, "content-follows-the-name"); }
        break; }
    case 7: if (r == 0) sym_assert((i64)st.st_size == m->vsz, "successful-getattr-is-correct"); else sym_reach("getattr-failed"); break;
    case 8: if (r == 0 && off) m_trunc(m, 0); if (r == 0) { h_read(&h, 0, 16, "content-after-open"); } else { sym_reach("open-failed"); if (!off) h_read(&h, 0, 16, "content-after-failed-open"); } break;
    case 9: h_read(&h, 0, 16, "content-after-utimens"); break;
    case 10: h_read(&h, 0, 16, "content-visible-after-failed-checkpoint"); ck_attr(p, m); if (!fired) { m_sync(m); ck_disk(p, m, "checkpoint-is-durable"); } else { h_fsync(&h, 0); ck_disk(p, m, "retried-fsync-is-durable"); } break;
    case 11: if (r == 0) { sym_assert(env_exists(q) && stat_op(q, &st) == 0 && st.st_size == 0, "created-name-as-reported"); } else sym_reach("create-failed"); break;
    case 12: // failed: both files as they were; otherwise the name shows the first file
        sym_assert(env_exists(p) == (r != 0) && env_exists(q), "source-name-as-reported");
        if (r != 0) { sym_reach("namespace-op-failed"); h_read(&h, 0, 16, "content-intact-after-failed-namespace-op"); h_read(&o2, 0, 16, "content-intact-after-failed-namespace-op"); h_fsync(&h, 0); h_fsync(&o2, 0); ck_disk(p, m, "content-intact-after-failed-namespace-op"); ck_disk(q, m2, "content-intact-after-failed-namespace-op"); }
        else { lookup(q); H h3; sym_assert(h_open(&h3, q, O_RDWR, m) == 0, "open"); h_read(&h3, 0, 16, "content-follows-the-name"); h_fsync(&h3, 0); ck_disk(q, m, "content-follows-the-name"); }
        break;
    }
    (void)d;
    sym_reach("end");
}
extern "C" void onefault(long opmask, long faultmask, long budget, long evict) {
    OPS = opmask; MASK = faultmask; BUD = budget;
    cfg(4, 4, evict == 2 ? 1 : 8, evict != 0);
    env_run(body);
}
