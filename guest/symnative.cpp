// Native implementation of the sym_* API: replays one assignment of the symbolic inputs against the natively
// compiled code.  Threads run one at a time under the same scheduling rules as the engine.
#include "sym.h"
#include <dlfcn.h>
#include <map>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <unistd.h>
#include <vector>
struct In { std::string n; long v; };
static std::vector<In> in; static size_t pos;
static FILE* out;
static void done(const char* what, const char* label, int code) { fprintf(out, "%s %s\n", what, label); fflush(out); fflush(stdout); _exit(code); }
static long next(const char* n) {
    while (pos < in.size() && in[pos].n == "uninit") pos++;
    if (pos >= in.size()) { done("DIVERGED", n, 77); }
    if (in[pos].n != n) { char b[200]; snprintf(b, 200, "want %s have %s at %zu", n, in[pos].n.c_str(), pos); done("DIVERGED", b, 77); }
    return in[pos++].v;
}
// ---- threads: a baton is passed explicitly; tables mirror the engine's
struct Lk { int writer = -1; std::map<int, int> rd; int depth = 0; };
struct Th { int id; bool done = false; void* wl = 0; int wm = 0; int wj = -1; volatile int* wp = 0; pthread_t t; void* (*fn)(void*); void* arg; };
static std::vector<Th*> th; static std::map<void*, Lk> lk; static int cur, pre, prebound;
static pthread_mutex_t G = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t C = PTHREAD_COND_INITIALIZER;
static __thread int self_;
static bool othr(Lk& l) { for (auto& r : l.rd) if (r.second > 0) return true; return false; }
static bool runnable(Th* t) {
    if (t->done) return false;
    if (t->wp) return *t->wp != 0;
    if (t->wj >= 0) return th[t->wj]->done;
    if (t->wl) { Lk& l = lk[t->wl]; return t->wm == 1 ? l.writer < 0 : l.writer < 0 && !othr(l); }
    return true;
}
static void passto(int id) { // caller holds G
    cur = id;
    pthread_cond_broadcast(&C);
    while (cur != self_) pthread_cond_wait(&C, &G);
}
static int choose(std::vector<Th*>& v) { return v.size() == 1 ? v[0]->id : v[next("sched") % v.size()]->id; }
static bool sched_point() {
    if (th.size() < 2 || pre >= prebound) return false;
    std::vector<Th*> v;
    Th* me = th[self_];
    if (runnable(me)) v.push_back(me);
    for (auto* t : th) if (t != me && runnable(t)) v.push_back(t);
    if (v.size() < 2) return false;
    int n = choose(v);
    if (n == self_) return false;
    pre++; passto(n);
    return true;
}
static void block(bool leave = false) {
    std::vector<Th*> v;
    Th* me = th[self_];
    if (runnable(me)) v.push_back(me);
    for (auto* t : th) if (t != me && runnable(t)) v.push_back(t);
    if (v.empty()) done("DEADLOCK", "all threads blocked", 98);
    int n = choose(v);
    if (leave) { cur = n; pthread_cond_broadcast(&C); return; }
    if (n != self_) passto(n);
}
static int lockit(void* a, int mode, bool rw) {
    pthread_mutex_lock(&G);
    while (sched_point()) {}
    Th* me = th[self_];
    for (;;) {
        Lk& l = lk[a];
        me->wl = 0;
        if (rw && l.writer == self_) { pthread_mutex_unlock(&G); return 35; }
        bool ok = mode == 1 ? l.writer < 0 : l.writer < 0 && !othr(l);
        if (ok) { if (mode == 1) l.rd[self_]++; else { l.writer = self_; l.depth = 1; } break; }
        me->wl = a; me->wm = mode;
        block();
    }
    pthread_mutex_unlock(&G);
    return 0;
}
static int tryit(void* a, int mode) {
    pthread_mutex_lock(&G);
    Lk& l = lk[a];
    bool ok = mode == 1 ? l.writer < 0 : l.writer < 0 && !othr(l);
    if (ok) { if (mode == 1) l.rd[self_]++; else { l.writer = self_; l.depth = 1; } }
    pthread_mutex_unlock(&G);
    return ok ? 0 : 16;
}
static int unlockit(void* a) {
    pthread_mutex_lock(&G);
    Lk& l = lk[a];
    if (l.writer == self_) { if (--l.depth <= 0) l.writer = -1; }
    else if (l.rd[self_] > 0) l.rd[self_]--;
    else done("ASSERT-FAIL", "unlock-not-held", 99);
    pthread_mutex_unlock(&G);
    return 0;
}
static void* tmain(void* p) {
    Th* t = (Th*)p;
    self_ = t->id;
    pthread_mutex_lock(&G);
    while (cur != self_) pthread_cond_wait(&C, &G);
    pthread_mutex_unlock(&G);
    t->fn(t->arg);
    pthread_mutex_lock(&G);
    t->done = true;
    block(true);
    pthread_mutex_unlock(&G);
    return 0;
}
extern "C" {
int vfs_pthread_rwlock_rdlock(void* a) { return lockit(a, 1, true); }
int vfs_pthread_rwlock_wrlock(void* a) { return lockit(a, 2, true); }
int vfs_pthread_rwlock_tryrdlock(void* a) { return tryit(a, 1); }
int vfs_pthread_rwlock_trywrlock(void* a) { return tryit(a, 2); }
int vfs_pthread_rwlock_unlock(void* a) { return unlockit(a); }
int vfs_pthread_mutex_lock(void* a) { return lockit(a, 2, false); }
int vfs_pthread_mutex_trylock(void* a) { return tryit(a, 2); }
int vfs_pthread_mutex_unlock(void* a) { return unlockit(a); }
int sym_spawn(void* (*fn)(void*), void* arg) {
    pthread_mutex_lock(&G);
    Th* t = new Th(); t->id = th.size(); t->fn = fn; t->arg = arg; th.push_back(t);
    pthread_create(&t->t, 0, tmain, t);
    pthread_mutex_unlock(&G);
    return t->id;
}
int sym_join(int id) {
    pthread_mutex_lock(&G);
    th[self_]->wj = id;
    while (!th[id]->done) block();
    th[self_]->wj = -1;
    pthread_mutex_unlock(&G);
    return 0;
}
void sym_wait(volatile int* f) {
    pthread_mutex_lock(&G);
    th[self_]->wp = f;
    while (!*f) block();
    th[self_]->wp = 0;
    pthread_mutex_unlock(&G);
}
void sym_yield(void) { pthread_mutex_lock(&G); sched_point(); pthread_mutex_unlock(&G); }
void sym_preempt(int b) { prebound = b; pre = 0; }
int sym_self(void) { return self_; }
void sym_check_uninit(int) {}
uint64_t sym_u64(const char* n, uint64_t lo, uint64_t hi) { uint64_t v = next(n); if (v < lo || v > hi) done("DIVERGED", n, 77); return v; }
int64_t sym_i64(const char* n, int64_t lo, int64_t hi) { int64_t v = next(n); if (v < lo || v > hi) done("DIVERGED", n, 77); return v; }
uint64_t sym_choose(const char* n, uint64_t k) { if (k <= 1) { uint64_t v = next(n); return v; } uint64_t v = next(n); if (v >= k) done("DIVERGED", n, 77); return v; }
void sym_bytes(void* p, size_t n, const char* nm) { for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = next(nm); }
void sym_assume(int64_t c) { if (!c) done("ASSUME", "", 0); }
void sym_assert(int64_t c, const char* l) { if (!c) done("ASSERT-FAIL", l, 99); }
void sym_fail(const char* l) { done("ASSERT-FAIL", l, 99); }
void sym_reach(const char* l) { fprintf(out, "REACH %s\n", l); }
uint64_t sym_ite(int64_t c, uint64_t a, uint64_t b) { return c ? a : b; }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_observe(const char* n, uint64_t v) { fprintf(out, "OBS %s %ld\n", n, (long)v); }
void sym_end(void) { done("END", "", 0); }
void sym_dbg(const char* n, uint64_t v) { fprintf(stderr, "[dbg] %s = %ld\n", n, (long)v); }
}
typedef void (*Entry)(long, long, long, long, long, long, long, long);
int main(int argc, char** argv) { // replay ENTRY INPUTS OUT args...
    FILE* f = fopen(argv[2], "r");
    char nm[100]; long v;
    while (f && fscanf(f, "%99s %ld", nm, &v) == 2) in.push_back({nm, v});
    if (f) fclose(f);
    out = fopen(argv[3], "w");
    Th* t = new Th(); t->id = 0; th.push_back(t);
    long a[8] = {};
    for (int i = 4; i < argc && i < 12; i++) a[i - 4] = atol(argv[i]);
    Entry e = (Entry)dlsym(RTLD_DEFAULT, argv[1]);
    if (!e) done("NOENTRY", argv[1], 78);
    e(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
    done("END", "", 0);
}
