// C17: the command FIFO.  Commands are lines however they are cut into chunks, unknown or malformed ones change nothing
// and stop nothing, valid ones keep working afterwards, and cleared caches are announced.
#include "fsm.h"
static H h; static MF* m = &mf[0];
static const char *pQ, *pb;
static char rep[512]; static const char* Qn;
static void dirty() { u8 b; sym_bytes(&b, 1, "dirty"); h_write(&h, &b, 1, 1); }
static void ck(const char* w) { h_read(&h, 0, 8, w); ck_disk(pb, m, w); ck_attr(pb, m); }
// replaces @ by the path of Q
static const char* sub(const char* s) { char* o = rep; for (; *s; s++) if (*s == '@') { strcpy(o, pQ); o += strlen(pQ); } else *o++ = *s; *o = 0; return rep; }
static const char* BAD[] = {
    "", "lazyfs", "lazyfs::", "::", "lazyfs::clear-cach", "clear-cache", "LAZYFS::CLEAR-CACHE", "lazyfs::cache-checkpoin", "lazyfs:clear-cache", "=", "lazyfs::unknown::x=1",
    "lazyfs::crash", "lazyfs::crash::", "lazyfs::crash::timing=before", "lazyfs::crash::op=write::from_rgx=@", "lazyfs::crash::timing=::op=write::from_rgx=@",
    "lazyfs::crash::timing=sometimes::op=write::from_rgx=@", "lazyfs::crash::timing=before::op=frobnicate::from_rgx=@", "lazyfs::crash::timing=before::op=::from_rgx=@",
    "lazyfs::crash::timing=before::op=write", "lazyfs::crash::timing=after::op=write::from_rgx=[", "lazyfs::crash::timing=after::op=write::from_rgx=@(", "lazyfs::crash::timing=before::op=rename",
    "lazyfs::crash::timing=before::op=write::to_rgx=@", "lazyfs::crash::timing=before::op=write::from_rgx=@::to_rgx=@", "lazyfs::crash::timing=before::op=rename::to_rgx=*", "lazyfs::crash::timing=after::op=write::from_rgx=",
    "lazyfs::crashes::timing=before::op=write::from_rgx=@", "lazyfs::crash-op::timing=after::op=create::from_rgx=@", "lazyfs::crash::timing=before::op=write::from_rgx=@::color=red", "lazyfs::crash::timing=before::op=rename::from_rgx=@::torgx=nowhere",
    "lazyfs::crash::timing=before::op=unlink::from_rgx=@::to=x", " lazyfs::crash::timing=before::op=write::from_rgx=@", "lazyfs::crash::timing=before::op=writes::from_rgx=@", "lazyfs::crash::timing=befor::op=write::from_rgx=@", "lazyfs::crash::Timing=before::op=write::from_rgx=@",
    "lazyfs::clear-cache ", " lazyfs::clear-cache", "lazyfs::clear-cache\r", "lazyfs::clear-cache::now", "lazyfs::clear-caches", "lazyfs::cache-checkpoints", "lazyfs::cache-checkpoint::", "lazyfs::clear-cachelazyfs::cache-checkpoint",
    "lazyfs::torn-ops::file=@::persist=1::parts=2", "lazyfs::torn-opx", "lazyfs::torn-sequence::op=write::file=@::persist=1", "lazyfs::torn::file=@::persist=1::parts=2", "lazyfs::torn-op::file=@::persist=-1::parts=2", "lazyfs::torn-op::file=@::persist=1 ::parts=2", "lazyfs::torn-op::file=@::persist=1::parts=2 ", "lazyfs::torn-seq::op=writes::file=@::persist=1", "lazyfs::torn-seq::op=write::file=@::persist=1;2",
    "lazyfs::torn-op", "lazyfs::torn-op::", "lazyfs::torn-op::file=@", "lazyfs::torn-op::persist=1::parts=2", "lazyfs::torn-op::file=@::persist=1", "lazyfs::torn-op::file=@::parts=2",
    "lazyfs::torn-op::file=::persist=1::parts=2", "lazyfs::torn-op::file=@::persist=::parts=2", "lazyfs::torn-op::file=@::persist=a::parts=2", "lazyfs::torn-op::file=@::persist=1,::parts=2", "lazyfs::torn-op::file=@::persist=,1::parts=2",
    "lazyfs::torn-op::file=@::persist=3::parts=2", "lazyfs::torn-op::file=@::persist=0::parts=2", "lazyfs::torn-op::file=@::persist=1::parts=0", "lazyfs::torn-op::file=@::persist=1::parts=x", "lazyfs::torn-op::file=@::persist=1::parts=-1",
    "lazyfs::torn-op::file=@::persist=1::parts=2::parts_bytes=1,1", "lazyfs::torn-op::file=@::persist=1::parts_bytes=", "lazyfs::torn-op::file=@::persist=3::parts_bytes=1,1", "lazyfs::torn-op::file=@::persist=1::parts_bytes=0,1",
    "lazyfs::torn-op::file=@::persist=1::parts=2::occurrence=0", "lazyfs::torn-op::file=@::persist=1::parts=2::occurrence=x", "lazyfs::torn-op::file=@::persist=1::parts=2::color=red",
    "lazyfs::torn-op::file=@::persist=1::parts=99999999999999999999", "lazyfs::torn-op::file=@::persist=99999999999999999999::parts=2", "lazyfs::torn-op::file=@::persist=1::parts=2::occurrence=99999999999999999999", "lazyfs::torn-op::file=@::persist=1::parts_bytes=99999999999999999999",
    "lazyfs::torn-seq", "lazyfs::torn-seq::file=@", "lazyfs::torn-seq::op=write::persist=1", "lazyfs::torn-seq::op=write::file=@", "lazyfs::torn-seq::file=@::persist=1", "lazyfs::torn-seq::op=read::file=@::persist=1",
    "lazyfs::torn-seq::op=::file=@::persist=1", "lazyfs::torn-seq::op=write::file=::persist=1", "lazyfs::torn-seq::op=write::file=@::persist=", "lazyfs::torn-seq::op=write::file=@::persist=x", "lazyfs::torn-seq::op=write::file=@::persist=0",
    "lazyfs::torn-seq::op=write::file=@::persist=1::occurrence=0", "lazyfs::torn-seq::op=write::file=@::persist=1::occurrence=", "lazyfs::torn-seq::op=write::file=@::persist=1::occurrence=99999999999999999999", "lazyfs::torn-seq::op=write::file=@::persist=99999999999999999999",
    "lazyfs::torn-seq::op=write::file=@::persist=1::parts=2",
    "lazyfs::help", "lazyfs::display-cache-usage", "lazyfs::unsynced-data-report"};
enum { NB = sizeof BAD / sizeof *BAD };
static int K;
// operations on Q, each of which a fault accepted by mistake would hit
static void use() {
    struct fuse_file_info fi; memset(&fi, 0, sizeof fi); fi.flags = O_RDWR | O_CREAT;
    const char* q2 = P_("Q2");
    lookup(pQ); sym_assert(ops->create(pQ, 0644, &fi) == 0, "create");
    for (int i = 0; i < 2; i++) sym_assert(ops->write(pQ, "abc", 3, 0, &fi) == 3, "write");
    sym_assert(!env_killed, "malformed-commands-inject-nothing");
    sym_assert(env_size(pQ) == 0, "malformed-commands-inject-nothing");
    lookup(q2); sym_assert(ops->rename(pQ, q2, 0) == 0, "rename"); lookup(q2);
    sym_assert(ops->fsync(q2, 0, &fi) == 0, "fsync");
    ops->release(q2, &fi);
    sym_assert(env_size(q2) == 3, "fsync");
    sym_assert(ops->unlink(q2) == 0, "unlink");
    sym_assert(!env_killed, "malformed-commands-inject-nothing");
}
static void boot_() { pQ = P_("Q"); pb = P_("b"); m_init(m, pb, 1); sym_assert(h_open(&h, pb, O_RDWR, m) == 0, "open"); dirty(); }
static void announced() { struct stat st; if (env_done_buf[env_done_len - 1] == '\n') sym_assert(stat_op(pb, &st) == 0 && st.st_size == m->dsz, "announced-only-when-cleared"); }
// afterwards the valid commands still do their work
static void alive() {
    int done = env_done_len;
    dirty(); env_cmd("lazyfs::cache-checkpoint"); m_sync(m); ck("commands-still-work");
    u8 b; sym_bytes(&b, 1, "dirty"); h_write(&h, &b, 1, 5);
    env_done_hook = announced; env_cmd("lazyfs::clear-cache"); env_done_hook = 0;
    m_clear(m); ck("commands-still-work");
    if (env_cfg.completed) sym_assert(env_done_len == done + 22 && !strcmp(env_done_buf + done, "finished::clear-cache\n"), "cleared-cache-is-announced");
    else sym_assert(env_done_len == 0, "nothing-announced-when-not-configured");
    cfg(4, 4, 8, 0);
}
static void bad_body() {
    boot_();
    for (int i = 0; i < K; i++) { env_cmd(sub(BAD[pick("line", NB)])); ck("malformed-commands-change-nothing"); sym_assert(env_done_len == 0, "malformed-commands-announce-nothing"); }
    use(); alive();
    sym_reach("end");
}
extern "C" void bad(long k) { K = k; cfg(4, 4, 8, 0); env_cfg.completed = pick("completed", 2); AM = 15; env_run(bad_body); }
// one byte of a valid command replaced by any byte: it works exactly when it is the original one
static int which;
static void byte_body() {
    boot_();
    static const char* C[] = {"lazyfs::clear-cache", "lazyfs::cache-checkpoint"};
    char b[64]; strcpy(b, C[which]);
    int n = strlen(b), at = pick("at", n);
    u8 c; sym_bytes(&c, 1, "byte");
    int same = c == (u8)b[at];
    b[at] = c; b[n] = '\n';
    env_cmd_raw(b, n + 1);
    if (same) { if (which) m_sync(m); else m_clear(m); }
    ck("exactly-the-command-is-recognised");
    sym_assert(!env_killed, "malformed-commands-inject-nothing");
    alive();
    sym_reach("end");
}
extern "C" void byte_(long) { cfg(4, 4, 8, 0); which = pick("command", 2); env_run(byte_body); }
// a valid fault command with one character of its fixed text replaced, missing or doubled is not a command
static void mutate_body() {
    boot_();
    static const char* C[] = {"lazyfs::crash::timing=before::op=write::from_rgx=@", "lazyfs::torn-op::file=@::persist=1::parts=2", "lazyfs::torn-seq::op=write::file=@::persist=1"};
    const char* c = C[pick("command", 3)];
    int at[64], k = 0;
    for (int i = 0; c[i]; i++) if (c[i] != '@' && !(c[i] >= '0' && c[i] <= '9')) at[k++] = i;
    char b[96]; int p = at[pick("at", k)], n = p, how = pick("how", 3);
    memcpy(b, c, p);
    if (how == 0) b[n++] = '#';
    if (how == 2) { b[n++] = c[p]; b[n++] = c[p]; }
    strcpy(b + n, c + p + 1);
    env_cmd(sub(b)); ck("malformed-commands-change-nothing");
    use(); alive();
    sym_reach("end");
}
extern "C" void mutate(long) { cfg(4, 4, 8, 0); AM = 15; env_run(mutate_body); }
// commands cut into chunks at any places, or several in one chunk, padded to any length around the read buffer
static void chunk_body() {
    boot_();
    char b[512]; b[0] = 0;
    int kind = pick("kind", 4), pad = 0;
    if (kind == 0) { strcpy(b, "lazyfs::clear-cache\n"); }
    if (kind == 1) { strcpy(b, "lazyfs::help\nlazyfs::cache-checkpoint\nlazyfs::nonsense\nlazyfs::clear-cache\n"); }
    if (kind >= 2) { // a long line of unknown kind, then a command
        pad = kind == 2 ? 93 + pick("len", 12) : 193 + pick("len", 12);
        memset(b, 'x', pad); memcpy(b, "lazyfs::crash", 13); strcpy(b + pad, "\nlazyfs::clear-cache\n");
    }
    int n = strlen(b);
    int c1 = kind < 2 ? pick("cut", n) : pad - 2 + pick("cut", 6), c2 = c1 + pick("cut2", 3) * 7;
    if (c2 > n) sym_end();
    if (c1) env_cmd_raw(b, c1);
    if (c2 > c1) env_cmd_raw(b + c1, c2 - c1);
    if (n > c2) env_cmd_raw(b + c2, n - c2);
    if (kind == 1) m_sync(m);
    m_clear(m);
    ck("commands-are-lines");
    sym_assert(env_done_len == 22 && !strcmp(env_done_buf, "finished::clear-cache\n"), "cleared-cache-is-announced");
    alive();
    sym_reach("end");
}
extern "C" void chunk(long) { cfg(4, 4, 8, 0); env_cfg.completed = 1; env_run(chunk_body); }
// a long valid crash command, cut anywhere, is the same crash command
static void longcrash_body() {
    boot_();
    char b[512]; strcpy(b, "lazyfs::crash::timing=before::op=unlink::from_rgx=");
    int n = strlen(b), k = 22 + 9 * pick("len", 5);
    memset(b + n, 'z', k); b[n + k] = '|'; strcpy(b + n + k + 1, pb); strcat(b, "\n");
    n = strlen(b);
    int cut = pick("cut", n);
    if (cut) env_cmd_raw(b, cut);
    env_cmd_raw(b + cut, n - cut);
    lookup(pb);
    int r = 0;
    CRASHABLE(r = ops->unlink(pb)); (void)r;
    sym_assert(env_killed == 9 && env_exists(pb), "long-commands-are-complete");
    sym_reach("end");
}
extern "C" void longcrash(long) { cfg(4, 4, 8, 0); env_run(longcrash_body); }
