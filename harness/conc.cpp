// C21: two operations run at the same time (any interleaving at lock acquisitions, bounded preemptions).  Results and
// final state must equal those of one of the two sequential orders, and nothing may deadlock.
#include "fsm.h"
enum { OA_WRITE, OA_EXT, OA_TRUNC, OA_FSYNC, OA_READ, OA_GETATTR, OA_RENAME, OA_UNLINK, OA_OPENTR, OA_LINK, OA_GROW, OA_N,
       OB_WRITE = 20, OB_EXT, OB_FSYNC, OB_READ, OB_UNLINK, OB_RENAME, OB_CREATE,
       OC_READA = 40, OC_GETA, OC_OPENA,
       OX_CLEAR = 60, OX_CKPT, OX_REPORT, OX_USAGE, OX_CRASH, OX_TORN, OX_SEQ };
static const int BOPS[] = {OB_WRITE, OB_EXT, OB_FSYNC, OB_READ, OB_UNLINK, OB_RENAME, OB_CREATE, OC_READA, OC_GETA, OC_OPENA, OX_CLEAR, OX_CKPT, OX_REPORT, OX_USAGE, OX_CRASH, OX_TORN, OX_SEQ};
struct S { MF a, b; int an, bn, lk, cr; };              // an: 0 named a, 1 renamed, 2 gone
struct R { int r; i64 sz; u8 out[8]; };
static const char *pa, *pb, *pc, *pd, *pe, *pl;
static H ha, hb, hr;
static u8 wa[4], wb[4];
static int opA, opB, EVI;
static R ra, rb_;
static volatile int doneA;
static void m_read(MF* m, R* r) { r->r = sym_ite(m->vsz < 8, m->vsz, 8); for (int i = 0; i < 8; i++) r->out[i] = (u8)sym_ite(i < m->vsz, m->v[i], 0); }
static void apply(S* s, int op, R* r) {
    memset(r, 0, sizeof *r);
    switch (op) {
    case OA_WRITE: m_write(&s->a, wa, 3, 2); r->r = 3; break;
    case OA_EXT: m_write(&s->a, wa, 3, 9); r->r = 3; break;
    case OA_TRUNC: m_trunc(&s->a, 2); break;
    case OA_GROW: m_trunc(&s->a, 11); break;
    case OA_FSYNC: m_sync(&s->a); break;
    case OA_READ: case OC_READA: m_read(&s->a, r); break;
    case OA_GETATTR: case OC_GETA: r->sz = s->a.vsz; break;
    case OA_RENAME: s->an = 1; break;
    case OA_UNLINK: s->an = 2; break;
    case OA_OPENTR: m_trunc(&s->a, 0); break;
    case OA_LINK: s->lk = 1; break;
    case OB_WRITE: m_write(&s->b, wb, 2, 1); r->r = 2; break;
    case OB_EXT: m_write(&s->b, wb, 2, 9); r->r = 2; break;
    case OB_FSYNC: m_sync(&s->b); break;
    case OB_READ: m_read(&s->b, r); break;
    case OB_UNLINK: s->bn = 2; break;
    case OB_RENAME: s->bn = 1; break;
    case OB_CREATE: s->cr = 1; break;
    case OX_CLEAR: m_clear(&s->a); m_clear(&s->b); break;
    case OX_CKPT: if (s->an < 2) m_sync(&s->a); if (s->bn < 2) m_sync(&s->b); break;
    }
}
static void real(int op, R* r) {
    memset(r, 0, sizeof *r);
    struct fuse_file_info fi; memset(&fi, 0, sizeof fi);
    struct stat st; memset(&st, 0, sizeof st);
    char cb[120];
    switch (op) {
    case OA_WRITE: r->r = ops->write(pa, (char*)wa, 3, 2, &ha.fi); break;
    case OA_EXT: r->r = ops->write(pa, (char*)wa, 3, 9, &ha.fi); break;
    case OA_TRUNC: r->r = ops->truncate(pa, 2, &ha.fi); break;
    case OA_GROW: r->r = ops->truncate(pa, 11, &ha.fi); break;
    case OA_FSYNC: r->r = ops->fsync(pa, 0, &ha.fi); break;
    case OA_READ: case OC_READA: r->r = ops->read(pa, (char*)r->out, 8, 0, &hr.fi); break;
    case OA_GETATTR: case OC_GETA: r->r = ops->getattr(pa, &st, 0); r->sz = st.st_size; break;
    case OA_RENAME: r->r = ops->rename(pa, pc, 0); break;
    case OA_UNLINK: r->r = ops->unlink(pa); break;
    case OA_OPENTR: fi.flags = O_RDWR | O_TRUNC; r->r = ops->open(pa, &fi); break;
    case OC_OPENA: fi.flags = O_RDONLY; r->r = ops->open(pa, &fi); break;
    case OA_LINK: r->r = ops->link(pa, pl); break;
    case OB_WRITE: r->r = ops->write(pb, (char*)wb, 2, 1, &hb.fi); break;
    case OB_EXT: r->r = ops->write(pb, (char*)wb, 2, 9, &hb.fi); break;
    case OB_FSYNC: r->r = ops->fsync(pb, 0, &hb.fi); break;
    case OB_READ: r->r = ops->read(pb, (char*)r->out, 8, 0, &hb.fi); break;
    case OB_UNLINK: r->r = ops->unlink(pb); break;
    case OB_RENAME: r->r = ops->rename(pb, pd, 0); break;
    case OB_CREATE: fi.flags = O_RDWR | O_CREAT; r->r = ops->create(pe, 0644, &fi); break;
    case OX_CLEAR: env_cmd("lazyfs::clear-cache"); break;
    case OX_CKPT: env_cmd("lazyfs::cache-checkpoint"); break;
    case OX_REPORT: env_cmd("lazyfs::unsynced-data-report"); break;
    case OX_USAGE: env_cmd("lazyfs::display-cache-usage"); break;
    case OX_CRASH: env_cmd("lazyfs::crash::timing=before::op=write::from_rgx=nomatch"); break;
    case OX_TORN: strcpy(cb, "lazyfs::torn-op::file="); strcat(cb, pd); strcat(cb, "::parts=2::persist=1"); env_cmd(cb); break;
    case OX_SEQ: strcpy(cb, "lazyfs::torn-seq::op=write::file="); strcat(cb, pd); strcat(cb, "::persist=1"); env_cmd(cb); break;
    }
}
static void* thA(void*) { real(opA, &ra); return 0; }
static int obs_file(const char* p, int n, MF* m, int disk) { // real state of a named file equals the model's
    u8 out[16]; memset(out, 0, sizeof out);
    struct stat st; int g = stat_op(p, &st);
    (void)n;
    int ok = (g == 0) & ((i64)st.st_size == m->vsz);
    struct fuse_file_info fi; memset(&fi, 0, sizeof fi); fi.flags = O_RDONLY;
    if (ops->open(p, &fi)) return 0;
    int r = ops->read(p, (char*)out, 16, 0, &fi);
    ops->release(p, &fi);
    ok &= (r == (int)m->vsz) & eqn(out, m->v, 16);
    if (disk) { u8 d[VCAP]; env_data(p, d); ok &= (env_size(p) == m->dsz) & eqn(d, m->d, VCAP); }
    return ok;
}
static int same(R* x, R* y, int op) { return op == OA_READ || op == OC_READA || op == OB_READ ? (x->r == y->r) & eqn(x->out, y->out, 8) : op == OA_GETATTR || op == OC_GETA ? (x->r == 0) & (x->sz == y->sz) : x->r == y->r; }
static int NOIN = 0, BOUND;
static void body() {
    S s; memset(&s, 0, sizeof s);
    u8 d[8]; sym_bytes(d, 8, "disk0"); sym_bytes(wa, 3, "data"); sym_bytes(wb, 2, "data");
    memcpy(s.a.d, d, 6); memcpy(s.a.v, d, 6); s.a.vsz = s.a.dsz = 6; env_put(pa, d, 6);
    memcpy(s.b.d, d, 5); memcpy(s.b.v, d, 5); s.b.vsz = s.b.dsz = 5; env_put(pb, d, 5);
    sym_assert(h_open(&ha, pa, O_RDWR, &s.a) == 0 && h_open(&hb, pb, O_RDWR, &s.b) == 0 && h_open(&hr, pa, O_RDONLY, &s.a) == 0, "open");
    int pre = pick("dirty", 2);
    if (pre) { u8 z[2]; sym_bytes(z, 2, "pre"); h_write(&ha, z, 2, 3); h_write(&hb, z, 2, 3); }
    lookup(pc); lookup(pd); lookup(pe); lookup(pl);
    sym_preempt(BOUND);
    int t = sym_spawn(thA, 0);
    real(opB, &rb_);
    sym_join(t);
    sym_preempt(0);
    sym_assert(!env_killed, "no-crash");
    S o1 = s, o2 = s; R e1a, e1b, e2a, e2b;
    apply(&o1, opA, &e1a); apply(&o1, opB, &e1b);
    apply(&o2, opB, &e2b); apply(&o2, opA, &e2a);
    if (opB == OC_READA && opA != OA_FSYNC && opA != OA_READ && opA != OA_GETATTR) {
        // a read racing a change of the same bytes: byte by byte old or new (bytes being cut off: anything)
        u64 lo = mn(e1b.r, e2b.r), hi = mx(e1b.r, e2b.r), bad = ((u64)(i64)rb_.r < lo) | ((u64)(i64)rb_.r > hi);
        for (u64 i = 0; i < 8; i++) bad |= sym_ite((i < lo) & (rb_.out[i] != e1b.out[i]) & (rb_.out[i] != e2b.out[i]), 1, 0);
        sym_assert(bad == 0, "racing-read-returns-old-or-new-bytes");
        rb_ = e1b; e2b = e1b;
    }
    int okr1 = same(&ra, &e1a, opA) & same(&rb_, &e1b, opB), okr2 = same(&ra, &e2a, opA) & same(&rb_, &e2b, opB);
    int disk = !EVI;
    int f1 = 1, f2 = 1;
    const char* A = opA == OA_RENAME ? pc : pa;
    const char* Bn = opB == OB_RENAME ? pd : opB == OB_UNLINK ? 0 : pb;
    if (opA == OA_UNLINK) { A = 0; sym_assert(!env_exists(pa) && lookup(pa) == -ENOENT, "unlinked-name-gone"); }
    if (opA == OA_RENAME) sym_assert(!env_exists(pa) && lookup(pa) == -ENOENT, "renamed-name-gone");
    if (opB == OB_UNLINK) sym_assert(!env_exists(pb) && lookup(pb) == -ENOENT, "unlinked-name-gone");
    if (opB == OB_RENAME) sym_assert(!env_exists(pb) && lookup(pb) == -ENOENT, "renamed-name-gone");
    if (opA == OA_LINK) { f1 &= obs_file(pl, 0, &o1.a, 0); f2 &= obs_file(pl, 0, &o2.a, 0); }
    if (opB == OB_CREATE) { MF z; memset(&z, 0, sizeof z); sym_assert(obs_file(pe, 0, &z, 0), "created-file-is-empty"); }
    if (A) { f1 &= obs_file(A, 0, &o1.a, disk); f2 &= obs_file(A, 0, &o2.a, disk); }
    if (Bn) { f1 &= obs_file(Bn, 0, &o1.b, disk); f2 &= obs_file(Bn, 0, &o2.b, disk); }
    sym_assert((okr1 & f1) | (okr2 & f2), "outcome-of-some-sequential-order");
    // and the file system still works: no lock left held
    u8 z = 7;
    if (A) { sym_assert(ops->write(A, (char*)&z, 1, 0, &ha.fi) == 1 && ops->fsync(A, 0, &ha.fi) == 0, "operations-continue"); }
    if (Bn) { sym_assert(ops->write(Bn, (char*)&z, 1, 0, &hb.fi) == 1 && ops->fsync(Bn, 0, &hb.fi) == 0, "operations-continue"); u8 q[VCAP]; env_data(Bn, q); sym_assert(q[0] == 7, "operations-continue"); }
    env_cmd("lazyfs::cache-checkpoint");
    sym_reach("end");
}
// masks select operations of the first and the second thread; evict: 0 roomy cache, 1 tiny cache with eviction
extern "C" void pair(long amask, long bmask, long bound, long evict) {
    pa = P_("a"); pb = P_("b"); pc = P_("c"); pd = P_("d"); pe = P_("e"); pl = P_("l");
    EVI = evict; BOUND = bound;
    cfg(4, 4, evict ? 2 : 16, evict);
    int o = pick("opA", __builtin_popcount(amask)), k = -1;
    do { do k++; while (!(amask >> k & 1)); } while (o-- > 0);
    opA = k;
    o = pick("opB", __builtin_popcount(bmask)); k = -1;
    do { do k++; while (!(bmask >> k & 1)); } while (o-- > 0);
    opB = BOPS[k];
    if ((opA == OA_RENAME || opA == OA_UNLINK) && opB >= OC_READA && opB <= OC_OPENA) sym_end(); // the kernel resolves names first
    if (opA == OA_LINK && opB == OX_CLEAR) {}
    env_run(body);
}
