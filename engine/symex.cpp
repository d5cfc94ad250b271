// symex: a fork-based concolic/symbolic executor for LLVM 18 bitcode, deciding with Z3.
// Every value is (concrete value under the current model, optional symbolic expression).
// Paths are explored exhaustively by fork() at every branch whose other side is feasible.
#include <sys/prctl.h>
#include "expr.h"
#include <algorithm>
#include <atomic>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <exception>
#include <fcntl.h>
#include <ffi.h>
#include <functional>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>

#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DerivedTypes.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>

using namespace llvm;
extern Z3_context Z;

struct Reg { u64 c; Expr* e; };

// ------------------------------------------------------------------ shared state
struct Shared {
    std::atomic<int> tokens, live;
    std::atomic<u64> paths, forks, insns, queries, sat, unsat, unknown, cachehits, solver_ns, asserts_checked, asserts_sym,
        assumes, infeasible, violations, errors, incomplete, symbytes, nativecalls, maxpc, concretised, peakprocs;
    std::atomic<int> stop;
    std::atomic<int> reached[256];
    char reachname[256][64];
    std::atomic<int> nreach;
    std::atomic<int> vcount[256];
    char vlabel[256][96];
    std::atomic<int> nv;
    std::atomic<int> lock;
    struct { u32 fn, line; std::atomic<u32> n; } fork[4096];
    struct { u32 fn, line; std::atomic<u32> n; std::atomic<u64> ns; } qs[4096];
    u8 fnhit[1 << 17];
    u8 nathit[1 << 14];
    u8 blkhit[1 << 21];
};
static Shared* S;
static void slock() { int z = 0; while (!S->lock.compare_exchange_weak(z, 1)) { z = 0; usleep(50); } }
static void sunlock() { S->lock = 0; }

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double t_start, deadline = 0;
static std::string outdir = ".";
static bool ownsToken = true;
static u64 max_insns = 60000000;
static int sample_every = 1, max_witness = 64, max_viol_per_label = 3;
static int preempt_bound = 0;
static bool check_uninit = true;
static bool verbose = false;
static u64 z3_timeout_ms = 120000;

// ------------------------------------------------------------------ memory
static const u64 ABASE = 0x100000000000ull, ASIZE = 6ull << 30;
static const u64 SHOFF = 0x010000000000ull;
static const u8 PAT = 0xAA;
enum { SH_NONE = 0, SH_INIT = 1, SH_UNINIT = 2, SH_SYM = 3, SH_FREED = 4, SH_RO = 5 };
static const u64 GLOB_OFF = 0, GLOB_SZ = 64ull << 20, STK_OFF = 64ull << 20, STK_SZ = 512ull << 20, HEAP_OFF = 576ull << 20;
static u64 glob_top, heap_top;
struct SymByte { Expr* e; int idx; };
static std::unordered_map<u64, SymByte> symmem;
struct HeapObj { u64 size; u8 kind; };
static std::unordered_map<u64, HeapObj> heapobjs;
static std::multimap<u64, u64> bigfree;

static inline bool inArena(u64 a) { return a - ABASE < ASIZE; }
static inline u8* sh(u64 a) { return (u8*)(a + SHOFF); }

static void mem_init() {
    void* p = mmap((void*)ABASE, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void* q = mmap((void*)(ABASE + SHOFF), ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED || q == MAP_FAILED) { perror("mmap"); exit(70); }
    glob_top = ABASE + GLOB_OFF + 4096;
    heap_top = ABASE + HEAP_OFF + 4096;
}
static u64 heap_alloc(u64 n, bool zero, u8 kind, u64 align = 16) {
    if (n > (512ull << 20)) return 0;
    u64 cap = (n + 15) & ~15ull;
    u64 a = 0;
    if (cap >= 65536 && align <= 16) {
        auto it = bigfree.find(cap);
        if (it != bigfree.end()) { a = it->second; bigfree.erase(it); }
    }
    if (!a) {
        if (align < 16) align = 16;
        a = (heap_top + align - 1) & ~(align - 1);
        heap_top = a + cap + 32;
        if (heap_top > ABASE + ASIZE) { fprintf(stderr, "ENGINE-ERROR heap exhausted\n"); return 0; }
    }
    memset(sh(a), zero ? SH_INIT : SH_UNINIT, n);
    if (cap > n) memset(sh(a + n), SH_NONE, cap - n);
    memset((void*)a, zero ? 0 : PAT, n);
    heapobjs[a] = {n, kind};
    return a;
}
static void symdrop(u64 a, u64 n) {
    u8* s = sh(a);
    u8* end = s + n;
    while (s < end) {
        s = (u8*)memchr(s, SH_SYM, end - s);
        if (!s) break;
        symmem.erase((u64)s - SHOFF);
        s++;
    }
}

// ------------------------------------------------------------------ bytecode
enum Op : uint16_t {
    I_NOP, I_ADD, I_SUB, I_MUL, I_UDIV, I_SDIV, I_UREM, I_SREM, I_AND, I_OR, I_XOR, I_SHL, I_LSHR, I_ASHR,
    I_ICMP, I_FCMP, I_FBIN, I_FNEG, I_TRUNC, I_ZEXT, I_SEXT, I_MOVE, I_MOVEN,
    I_SITOFP, I_UITOFP, I_FPTOSI, I_FPTOUI, I_FPEXT, I_FPTRUNC,
    I_ALLOCA, I_LOAD, I_STORE, I_LOADAGG, I_STOREAGG, I_GEP, I_SELECT, I_BR, I_CONDBR, I_SWITCH, I_RET, I_CALL, I_UNREACH,
    I_RESUME, I_LPAD, I_CMPXCHG, I_RMW, I_UNSUP
};
struct FlatElt { u32 off; u8 w; bool fp; };
struct Insn {
    uint16_t op; u8 w; u8 sub; int dst, a, b, c; u64 imm; u32 extra; u32 line;
};
struct Move { int dst, src; };
struct Edge { u32 pc; u32 blk; std::vector<Move> mv; };
struct FnRec;
struct CallInfo {
    FnRec* callee = nullptr; int fslot = 0; std::vector<int> args; std::vector<u8> argw; std::vector<u8> argfp; std::vector<u32> byval;
    std::vector<FlatElt> ret; bool isvoid = true, invoke = false, vararg = false; unsigned nfixed = 0; int normal = -1, unwind = -1;
    bool nounwind = false;
};
struct Clause { bool isCatch; u64 ti; bool filter; };
struct LPad { bool cleanup; std::vector<Clause> cl; int dst; };
struct SwitchInfo { std::vector<std::pair<u64, int>> cases; int def; };
struct GepInfo { std::vector<std::pair<int, i64>> idx; std::vector<u8> w; };
struct CallCtx;
typedef void (*Handler)(CallCtx&);
struct FnRec {
    std::string name; u32 idx; Function* F = nullptr; bool body = false;
    std::vector<Insn> code; std::vector<Reg> consts; int nregs = 0, nparams = 0;
    std::vector<Edge> edges; std::vector<CallInfo> calls; std::vector<LPad> lpads; std::vector<SwitchInfo> sws; std::vector<GepInfo> geps;
    std::vector<std::vector<FlatElt>> aggs;
    std::vector<u32> parambyval; std::vector<u8> paramw, paramfp;
    std::vector<FlatElt> ret; bool isvoid = true;
    Handler h = nullptr; void* native = nullptr; bool natresolved = false;
    void* addr = nullptr; // code address for function pointers
    std::string file; u32 blk0 = 0; std::vector<std::string> unsup;
    std::vector<std::string> patharg;
};
static std::vector<FnRec*> fns;
static std::unordered_map<std::string, FnRec*> fnByName;
static std::unordered_map<u64, FnRec*> fnByAddr;
static std::vector<std::pair<std::string, u32>> blkinfo; // file:line per block
static u32 nblk = 1;

struct Frame { FnRec* fn; u32 pc; u64 base; u64 sp; int dstcall; Insn* callI; };
struct GuestExc { u64 obj; const std::type_info* ti; u64 dtor; u64 adj; bool native; };
struct Thread {
    std::vector<Frame> fr; Reg* regs; u64 rtop = 0; u64 sp, splimit; std::vector<GuestExc> caught; int id;
    bool done = false, joined = false; u64 waitlock = 0; int waitmode = 0; int waitjoin = -1; u64 waitptr = 0;
    GuestExc inflight; u64 startfn = 0; bool started = false;
};
static std::vector<Thread*> threads;
static Thread* T;
static int nestDepth = 0;
static u64 guest_errno;
static u64 icount = 0;

struct Input { std::string name; Expr* e; u64 off; };
static std::vector<Input> inputs;
struct Obs { std::string name; Reg r; };
static std::vector<Obs> observed;

static void finish(const char* why) __attribute__((noreturn));
static std::string dem(const std::string& n) {
    int st; char* d = abi::__cxa_demangle(n.c_str(), 0, 0, &st);
    if (st != 0 || !d) return n;
    std::string r(d); free(d); return r;
}
static std::string trace(int maxd = 12) {
    std::string s;
    int n = 0;
    for (int i = (int)T->fr.size() - 1; i >= 0 && n < maxd; i--) {
        Frame& f = T->fr[i];
        std::string d = dem(f.fn->name);
        if (d.size() > 70) d = d.substr(0, 70) + "..";
        std::string fl = f.fn->file; size_t p = fl.rfind('/');
        if (p != std::string::npos) fl = fl.substr(p + 1);
        s += d + "@" + fl + ":" + std::to_string(f.pc < f.fn->code.size() ? f.fn->code[f.pc].line : 0) + " < ";
        n++;
    }
    return s;
}
static std::string jesc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
static void appendLine(const std::string& file, const std::string& l) {
    int fd = open((outdir + "/" + file).c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (fd < 0) return;
    std::string x = l + "\n";
    if (write(fd, x.data(), x.size()) < 0) {}
    close(fd);
}
static std::string inputsJson(const Model& m) {
    std::string s = "[";
    P.evm = nullptr;
    for (size_t i = 0; i < inputs.size(); i++) {
        u64 v = inputs[i].e ? P.evalModel(m, inputs[i].e) + inputs[i].off : inputs[i].off;
        if (i) s += ",";
        s += "[\"" + jesc(inputs[i].name) + "\"," + std::to_string((i64)v) + "]";
    }
    P.evm = nullptr;
    return s + "]";
}
[[noreturn]] static void engine_error(const std::string& m) {
    fprintf(stderr, "ENGINE-ERROR %s | %s\n", m.c_str(), T ? trace().c_str() : "");
    appendLine("errors.txt", m + " | " + (T ? trace() : ""));
    S->errors++;
    finish("error");
}
static void violation(const std::string& label, const std::string& kind, const Model& m) {
    slock();
    int n = S->nv, i;
    for (i = 0; i < n; i++) if (!strncmp(S->vlabel[i], label.c_str(), 95)) break;
    if (i == n && n < 256) { strncpy(S->vlabel[i], label.c_str(), 95); S->nv = n + 1; }
    int cnt = i < 256 ? (int)S->vcount[i]++ : 999;
    sunlock();
    S->violations++;
    if (cnt < max_viol_per_label)
        appendLine("violations.jsonl", "{\"label\":\"" + jesc(label) + "\",\"kind\":\"" + kind + "\",\"where\":\"" + jesc(trace()) +
                                           "\",\"inputs\":" + inputsJson(m) + "}");
}

// ------------------------------------------------------------------ path condition / solving
static Z3_solver zs;
static std::vector<Expr*> pc;
static size_t pcSent = 0;
static std::unordered_map<Expr*, bool> pcknown;
static std::vector<Model> mcache;
static size_t varSent = 0;

static void addPC(Expr* e) {
    if (e->op == E_CONST) { if (!e->k) engine_error("asserting false"); return; }
    if (e->op == E_AND && e->w == 1) { addPC(e->a); addPC(e->b); return; }
    pc.push_back(e);
    pcknown[e] = true;
    pcknown[P.lnot(e)] = false;
    for (size_t i = 0; i < mcache.size();) {
        P.evm = nullptr;
        if (!P.evalModel(mcache[i], e)) { mcache[i] = mcache.back(); mcache.pop_back(); }
        else i++;
    }
    P.evm = nullptr;
    if (pc.size() > S->maxpc) S->maxpc = pc.size();
}
static void flushPC() {
    for (; varSent < P.vars.size(); varSent++) {
        VarInfo& v = P.vars[varSent];
        if (v.lo == 0 && v.hi == maskw(v.w)) continue;
        Expr* e = P.raw(E_VAR, v.w, varSent, 0, 0, 0, v.lo, v.hi, v.uninit);
        // build range constraints without interval folding
        Z3_ast x = z3bv(e);
        Z3_solver_assert(Z, zs, Z3_mk_bvule(Z, x, Z3_mk_unsigned_int64(Z, v.hi, Z3_get_sort(Z, x))));
        if (v.lo) Z3_solver_assert(Z, zs, Z3_mk_bvuge(Z, x, Z3_mk_unsigned_int64(Z, v.lo, Z3_get_sort(Z, x))));
    }
    for (; pcSent < pc.size(); pcSent++) Z3_solver_assert(Z, zs, z3b(pc[pcSent]));
}
static bool past_deadline() { return deadline > 0 && now() > deadline; }
// is PC && q satisfiable?  1 sat (model in m), 0 unsat, -1 unknown
static int solve(Expr* q, Model& m) {
    if (q->op == E_CONST) { if (!q->k) return 0; m = P.cur; return 1; }
    auto it = pcknown.find(q);
    if (it != pcknown.end()) { if (!it->second) return 0; m = P.cur; return 1; }
    P.evm = nullptr;
    for (auto& mm : mcache) {
        P.evm = nullptr;
        if (P.evalModel(mm, q)) { m = mm; m.v.resize(P.vars.size()); 
            for (size_t i = mm.v.size(); i < m.v.size(); i++) m.v[i] = P.vars[i].init;
            P.evm = nullptr; S->cachehits++; return 1; }
    }
    P.evm = nullptr;
    if (S->stop || past_deadline()) { S->incomplete++; finish("deadline"); }
    double t0 = now();
    flushPC();
    Z3_solver_push(Z, zs);
    Z3_solver_assert(Z, zs, z3b(q));
    Z3_lbool r = Z3_solver_check(Z, zs);
    S->queries++;
    int res;
    if (r == Z3_L_TRUE) {
        Z3_model zm = Z3_solver_get_model(Z, zs);
        Z3_model_inc_ref(Z, zm);
        m.v.assign(P.vars.size(), 0);
        for (size_t i = 0; i < P.vars.size(); i++) {
            VarInfo& v = P.vars[i];
            Expr* e = P.raw(E_VAR, v.w, i, 0, 0, 0, v.lo, v.hi, v.uninit);
            Z3_ast val = Z3_model_get_const_interp(Z, zm, Z3_get_app_decl(Z, Z3_to_app(Z, z3bv(e))));
            u64 x = 0;
            if (val) Z3_get_numeral_uint64(Z, val, &x);
            else x = v.init;
            m.v[i] = x;
        }
        Z3_model_dec_ref(Z, zm);
        S->sat++;
        res = 1;
        // a "don't care" kept from the current model can only matter if the interp was partial; verify
        P.evm = nullptr;
        if (!P.evalModel(m, q)) { fprintf(stderr, "ENGINE-ERROR model does not satisfy query\n"); S->errors++; }
        P.evm = nullptr;
        if (mcache.size() < 12) mcache.push_back(m); else mcache[S->sat % 12] = m;
    } else if (r == Z3_L_FALSE) { S->unsat++; res = 0; }
    else { S->unknown++; S->incomplete++; res = -1; }
    Z3_solver_pop(Z, zs, 1);
    S->solver_ns += (u64)((now() - t0) * 1e9);
    if (T && !T->fr.empty()) { Frame& f = T->fr.back(); u32 ln = f.pc < f.fn->code.size() ? f.fn->code[f.pc].line : 0; u32 h = (f.fn->idx * 977 + ln) & 4095;
      for (int i = 0; i < 16; i++) { auto& e = S->qs[(h + i) & 4095]; if (!e.n) { e.fn = f.fn->idx; e.line = ln; } if (e.fn == f.fn->idx && e.line == ln) { e.n++; e.ns += (u64)((now() - t0) * 1e9); break; } } }
    return res;
}
static void reeval_all() {
    P.evm = nullptr; P.bump();
    for (auto* t : threads)
        for (u64 i = 0; i < t->rtop; i++) if (t->regs[i].e) t->regs[i].c = P.evalCur(t->regs[i].e);
    for (auto& kv : symmem) *(u8*)kv.first = (u8)(P.evalCur(kv.second.e) >> (8 * kv.second.idx));
    for (auto& o : observed) if (o.r.e) o.r.c = P.evalCur(o.r.e);
}
static void use_model(const Model& m) {
    P.cur = m;
    if (P.cur.v.size() < P.vars.size()) for (size_t i = P.cur.v.size(); i < P.vars.size(); i++) P.cur.v.push_back(P.vars[i].init);
    reeval_all();
}
// fork: returns true in the child, which continues with model m
static bool fork_child(const Model& m) {
    S->forks++;
    { Frame& f = T->fr.back(); u32 ln = f.pc < f.fn->code.size() ? f.fn->code[f.pc].line : 0; u32 h = (f.fn->idx * 977 + ln) & 4095;
      for (int i = 0; i < 16; i++) { auto& e = S->fork[(h + i) & 4095]; if (!e.n) { e.fn = f.fn->idx; e.line = ln; } if (e.fn == f.fn->idx && e.line == ln) { e.n++; break; } } }
    bool conc = false;
    int t = S->tokens;
    while (t > 0) { if (S->tokens.compare_exchange_weak(t, t - 1)) { conc = true; break; } }
    S->live++;
    fflush(stdout); fflush(stderr);
    S->insns += icount; icount = 0; // keep counters disjoint
    pid_t p;
    for (int tries = 0; (p = fork()) < 0 && tries < 2000; tries++) usleep(5000);
    if (p < 0) { S->live--; if (conc) S->tokens++; engine_error("fork failed"); }
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, 0);
        ownsToken = conc;
        use_model(m);
        return true;
    }
    if (!conc) {
        int st = 0;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (!WIFEXITED(st) || (WEXITSTATUS(st) != 0)) {
            S->errors++; S->live--;
            appendLine("errors.txt", "child died status " + std::to_string(st));
        }
    } else {
        while (waitpid(-1, nullptr, WNOHANG) > 0) {}
    }
    return false;
}
static std::atomic<u64>* dummy;
static void finish(const char* why) {
    S->insns += icount; icount = 0;
    if (!strcmp(why, "ok")) {
        u64 n = S->paths++;
        if ((int)n < max_witness || (n % 997 == 0 && (int)n < 997 * 16)) {
            // prefer varied data bytes in witnesses, where the path condition leaves them free
            Expr* q = P.cst(1, 1); int k = 0;
            for (auto& in : inputs) if (in.e && in.e->op == E_VAR && in.e->w == 8 && P.vars[in.e->k].hi == 255 && P.vars[in.e->k].init && k++ < 64) q = P.bin(E_AND, q, P.bin(E_EQ, in.e, P.cst(P.vars[in.e->k].init, 8)));
            Model wm;
            if (k && !past_deadline() && solve(q, wm) == 1) use_model(wm);
            std::string s = "{\"inputs\":" + inputsJson(P.cur) + ",\"obs\":[";
            P.evm = nullptr;
            for (size_t i = 0; i < observed.size(); i++) {
                u64 v = observed[i].r.e ? P.evalCur(observed[i].r.e) : observed[i].r.c;
                s += (i ? ",[\"" : "[\"") + jesc(observed[i].name) + "\"," + std::to_string((i64)v) + "]";
            }
            appendLine("witness.jsonl", s + "]}");
        }
    }
    if (!strcmp(why, "infeasible")) S->infeasible++;
    fflush(stdout);
    if (ownsToken) S->tokens++;
    S->live--;
    _exit(0);
}

// ------------------------------------------------------------------ symbolic helpers
static inline Expr* EX(const Reg& r, int w) { return r.e ? r.e : P.cst(r.c, w); }
static inline Reg mk(Expr* e) {
    if (e->op == E_CONST) return {e->k, nullptr};
    return {P.evalCur(e), e};
}
static void uninit_event(const char* what) {
    if (!check_uninit) return;
    std::string fn = "?";
    for (int i = (int)T->fr.size() - 1; i >= 0; i--)
        if (T->fr[i].fn->file.find("/repo/") != std::string::npos || T->fr[i].fn->file.find("harness") != std::string::npos) { fn = dem(T->fr[i].fn->name); break; }
    size_t p = fn.find('(');
    if (p != std::string::npos) fn = fn.substr(0, p);
    violation("uninit:" + fn, "uninit", P.cur);
}
static void assume(Expr* e) {
    if (e->op == E_CONST) { if (!e->k) finish("infeasible"); return; }
    if (P.evalCur(e)) { addPC(e); return; }
    Model m;
    int r = solve(e, m);
    if (r != 1) finish("infeasible");
    use_model(m);
    addPC(e);
}
static bool decide(const Reg& c) {
    if (!c.e) return c.c & 1;
    Expr* e = c.e;
    bool v = c.c & 1;
    auto it = pcknown.find(e);
    if (it != pcknown.end()) return it->second;
    Expr* other = v ? P.lnot(e) : e;
    Model m;
    int r = solve(other, m);
    if (r == 1) {
        if (e->uninit) {
            uninit_event("branch");
            addPC(v ? e : P.lnot(e));
            return v;
        }
        if (fork_child(m)) { addPC(other); return !v; }
        addPC(v ? e : P.lnot(e));
    } else {
        pcknown[e] = v; pcknown[P.lnot(e)] = !v;
    }
    return v;
}
static u64 concretize(Reg& r, int w) {
    if (!r.e) return r.c;
    r.c = P.evalCur(r.e); // the cached value may predate a fork
    if (r.e->uninit) {
        // an uninitialised value reaching a place that needs one concrete value
        Model m;
        Expr* ne = P.lnot(P.bin(E_EQ, r.e, P.cst(r.c, w)));
        if (solve(ne, m) == 1) { uninit_event("value"); addPC(P.bin(E_EQ, r.e, P.cst(r.c, w))); }
        r.e = nullptr; return r.c;
    }
    S->concretised++;
    while (true) {
        Expr* eq = P.bin(E_EQ, r.e, P.cst(r.c, w));
        if (eq->op == E_CONST) break;
        Model m;
        int q = solve(P.lnot(eq), m);
        if (q != 1) { break; }
        Expr* re = r.e;
        if (fork_child(m)) { addPC(P.lnot(eq)); r.c = P.evalCur(re); r.e = re; continue; }
        addPC(eq);
        break;
    }
    u64 v = r.c;
    r.e = nullptr;
    return v;
}

// ------------------------------------------------------------------ memory access
[[noreturn]] static void memfault(const char* kind, u64 a, u64 n, const Model& m) {
    std::string fn = "?";
    for (int i = (int)T->fr.size() - 1; i >= 0; i--)
        if (T->fr[i].fn->file.find("/repo/") != std::string::npos) { fn = dem(T->fr[i].fn->name); break; }
    size_t p = fn.find('(');
    if (p != std::string::npos) fn = fn.substr(0, p);
    violation(std::string("memory:") + kind + ":" + fn, "memory", m);
    finish("fault");
}
static const char* badkind(u64 a, bool wr) {
    if (!inArena(a)) return a < 65536 ? "null-deref" : "wild";
    u8 s = *sh(a);
    if (s == SH_FREED) return "use-after-free";
    if (s == SH_RO) return "write-to-const";
    return "out-of-bounds";
}
static inline bool okRange(u64 a, u64 n, bool wr, u64* bad) {
    if (!inArena(a)) { if (a < 65536 || a > 0x7fffffffffffull) { *bad = a; return false; } return true; }
    for (u64 i = 0; i < n; i++) { u8 s = *sh(a + i); if (s == SH_NONE || s == SH_FREED || (wr && s == SH_RO)) { *bad = a + i; return false; } }
    return true;
}
static Expr* uninitByte(u64 a) {
    return P.var("uninit", 8, 0, 255, *(u8*)a, true);
}
static Expr* byteExpr(u64 a) {
    if (inArena(a)) {
        u8 s = *sh(a);
        if (s == SH_SYM) { SymByte& b = symmem[a]; return P.extract(b.e, 8 * b.idx, 8); }
        if (s == SH_UNINIT && *(u8*)a == PAT) {
            Expr* e = uninitByte(a);
            *sh(a) = SH_SYM; symmem[a] = {e, 0};
            return e;
        }
    }
    return P.cst(*(u8*)a, 8);
}
static Reg loadSlow(u64 a, int n, int w) {
    // n bytes at concrete address a
    u64 bad;
    if (!okRange(a, n, false, &bad)) memfault(badkind(bad, false), a, n, P.cur);
    bool any = false;
    if (inArena(a)) for (int i = 0; i < n; i++) { u8 s = *sh(a + i); if (s == SH_SYM || (s == SH_UNINIT && *(u8*)(a + i) == PAT)) any = true; }
    u64 c = 0;
    memcpy(&c, (void*)a, n);
    if (!any) return {w < 64 ? c & maskw(w) : c, nullptr};
    // whole expression?
    if (*sh(a) == SH_SYM) {
        SymByte& b0 = symmem[a];
        if (b0.idx == 0 && b0.e->w == 8 * n) {
            bool same = true;
            for (int i = 1; i < n && same; i++) { if (*sh(a + i) != SH_SYM) { same = false; break; } SymByte& b = symmem[a + i]; if (b.e != b0.e || b.idx != i) same = false; }
            if (same) { Reg r = mk(b0.e); if (w != 8 * n) r = mk(P.extract(b0.e, 0, w)); return r; }
        }
    }
    Expr* e = byteExpr(a);
    for (int i = 1; i < n; i++) e = P.concat(byteExpr(a + i), e);
    if (e->w != w) e = P.extract(e, 0, w);
    return mk(e);
}
static inline Reg loadC(u64 a, int n, int w) {
    if (inArena(a)) {
        u64 s = *(u64*)sh(a);
        u64 m = n == 8 ? ~0ull : ((1ull << (8 * n)) - 1);
        if (((s ^ 0x0101010101010101ull) & m) == 0) {
            u64 c = 0;
            switch (n) { case 8: c = *(u64*)a; break; case 4: c = *(u32*)a; break; case 1: c = *(u8*)a; break; case 2: c = *(uint16_t*)a; break; default: memcpy(&c, (void*)a, n); }
            if (w != 8 * n) c &= maskw(w);
            return {c, nullptr};
        }
    }
    return loadSlow(a, n, w);
}
static void storeSlow(u64 a, int n, Reg v, int w) {
    u64 bad;
    if (!okRange(a, n, true, &bad)) memfault(badkind(bad, true), a, n, P.cur);
    if (!inArena(a)) {
        u64 c = concretize(v, w);
        memcpy((void*)a, &c, n);
        return;
    }
    if (v.e) {
        Expr* e = v.e;
        if (e->w != 8 * n) e = P.zext(e, 8 * n);
        u64 c = v.c;
        memcpy((void*)a, &c, n);
        for (int i = 0; i < n; i++) {
            Expr* be = P.extract(e, 8 * i, 8);
            if (be->op == E_CONST) { if (*sh(a + i) == SH_SYM) symmem.erase(a + i); *sh(a + i) = SH_INIT; }
            else { symmem[a + i] = {e, i}; *sh(a + i) = SH_SYM; }
        }
    } else {
        memcpy((void*)a, &v.c, n);
        for (int i = 0; i < n; i++) { if (*sh(a + i) == SH_SYM) symmem.erase(a + i); *sh(a + i) = SH_INIT; }
    }
}
static inline void storeC(u64 a, int n, const Reg& v, int w) {
    if (!v.e && inArena(a)) {
        u64 s = *(u64*)sh(a);
        u64 m = n == 8 ? ~0ull : ((1ull << (8 * n)) - 1);
        if (((s ^ 0x0101010101010101ull) & m) == 0) {
            switch (n) { case 8: *(u64*)a = v.c; break; case 4: *(u32*)a = v.c; break; case 1: *(u8*)a = v.c; break; case 2: *(uint16_t*)a = v.c; break; default: memcpy((void*)a, &v.c, n); }
            return;
        }
    }
    storeSlow(a, n, v, w);
}
// candidate concrete addresses of a symbolic pointer; faults are reported; falls back to concretisation
static bool candidates(Reg& p, u64 n, bool wr, std::vector<u64>& out, Expr* guard = nullptr) {
    Expr* e = p.e;
    p.c = P.evalCur(e);
    if (e->uninit) { concretize(p, 64); out.push_back(p.c); return false; }
    auto G = [&](Expr* x) { return guard ? P.bin(E_AND, guard, x) : x; };
    std::vector<u64> cand;
    if (e->hi - e->lo < 64) for (u64 a = e->lo; a <= e->hi; a++) cand.push_back(a);
    else {
        // enumerate through the solver
        Expr* ex = P.cst(1, 1);
        if (!guard || P.evalCur(guard)) { cand.push_back(p.c); ex = P.lnot(P.bin(E_EQ, e, P.cst(p.c, 64))); }
        while (cand.size() <= 48) {
            Model m;
            if (solve(G(ex), m) != 1) { std::sort(cand.begin(), cand.end()); goto have; }
            P.evm = nullptr;
            u64 v = P.evalModel(m, e);
            P.evm = nullptr;
            cand.push_back(v);
            ex = P.bin(E_AND, ex, P.lnot(P.bin(E_EQ, e, P.cst(v, 64))));
        }
        concretize(p, 64);
        out.push_back(p.c);
        return false;
    }
have:
    Expr* badq = P.cst(0, 1);
    u64 firstbad = 0, fb = 0; bool anybad = false;
    for (u64 a : cand) {
        u64 bad;
        if (okRange(a, n, wr, &bad)) out.push_back(a);
        else { badq = P.bin(E_OR, badq, P.bin(E_EQ, e, P.cst(a, 64))); if (!anybad) { firstbad = a; fb = bad; } anybad = true; }
    }
    if (anybad) {
        Model m;
        badq = G(badq);
        int r = solve(badq, m);
        if (r == 1) {
            const char* k = badkind(fb, wr);
            if (out.empty() && !guard) memfault(k, firstbad, n, m);
            std::string fn = "?";
            for (int i = (int)T->fr.size() - 1; i >= 0; i--)
                if (T->fr[i].fn->file.find("/repo/") != std::string::npos) { fn = dem(T->fr[i].fn->name); break; }
            size_t q = fn.find('(');
            if (q != std::string::npos) fn = fn.substr(0, q);
            violation(std::string("memory:") + k + ":" + fn, "memory", m);
            assume(P.lnot(badq));
            p.c = P.evalCur(e);
        }
    }
    if (out.empty() && !guard) memfault("wild", p.c, n, P.cur);
    return true;
}
static Reg loadS(Reg p, int n, int w) {
    if (!p.e) return loadC(p.c, n, w);
    std::vector<u64> c;
    if (!candidates(p, n, false, c)) return loadC(p.c, n, w);
    Expr* r = nullptr;
    for (size_t i = 0; i < c.size(); i++) {
        Expr* v = EX(loadC(c[i], n, w), w);
        r = r ? P.ite(P.bin(E_EQ, p.e, P.cst(c[i], 64)), v, r) : v;
    }
    return mk(r);
}
static void storeGuarded(Reg p, int n, Reg v, int w, Expr* guard) {
    // guard may be null (always)
    if (!p.e && !guard) { storeC(p.c, n, v, w); return; }
    std::vector<u64> c;
    if (p.e) { if (!candidates(p, n, true, c)) { c.clear(); c.push_back(p.c); p.e = nullptr; } }
    else c.push_back(p.c);
    Expr* ve = EX(v, w);
    for (u64 a : c) {
        Expr* g = p.e ? P.bin(E_EQ, p.e, P.cst(a, 64)) : P.cst(1, 1);
        if (guard) g = P.bin(E_AND, g, guard);
        Expr* old = EX(loadSlow(a, n, w), w);
        storeSlow(a, n, mk(P.ite(g, ve, old)), w);
    }
}
static inline void storeS(Reg p, int n, Reg v, int w) { if (!p.e) storeC(p.c, n, v, w); else storeGuarded(p, n, v, w, nullptr); }

static void copyConcrete(u64 d, u64 s, u64 n) {
    if (!n) return;
    u64 bad;
    if (inArena(s) && n > 64) { u8* z = sh(s); for (u64 i = 0; i < n; i++) if (z[i] == SH_NONE || z[i] == SH_FREED) memfault(badkind(s + i, false), s + i, n, P.cur); }
    else if (!okRange(s, n, false, &bad)) memfault(badkind(bad, false), bad, n, P.cur);
    if (inArena(d) && n > 64) { u8* z = sh(d); for (u64 i = 0; i < n; i++) if (z[i] == SH_NONE || z[i] == SH_FREED || z[i] == SH_RO) memfault(badkind(d + i, true), d + i, n, P.cur); }
    else if (!okRange(d, n, true, &bad)) memfault(badkind(bad, true), bad, n, P.cur);
    bool ssym = inArena(s) && memchr(sh(s), SH_SYM, n);
    std::vector<std::pair<u64, SymByte>> tmp;
    if (ssym) for (u64 i = 0; i < n; i++) if (*sh(s + i) == SH_SYM) tmp.push_back({i, symmem[s + i]});
    if (inArena(d)) {
        symdrop(d, n);
        if (inArena(s)) { memmove(sh(d), sh(s), n); for (u64 i = 0; i < n; i++) if (*sh(d + i) == SH_RO) *sh(d + i) = SH_INIT; }
        else memset(sh(d), SH_INIT, n);
    } else if (ssym) {
        for (u64 i = 0; i < n; i++) if (*sh(s + i) == SH_SYM) { Reg r = loadSlow(s + i, 1, 8); concretize(r, 8); *(u8*)(s + i) = r.c; }
        memmove((void*)d, (void*)s, n);
        return;
    }
    memmove((void*)d, (void*)s, n);
    for (auto& t : tmp) symmem[d + t.first] = t.second;
}
static Reg addReg(const Reg& a, i64 k) {
    if (!a.e) return {a.c + (u64)k, nullptr};
    return mk(P.bin(E_ADD, a.e, P.cst((u64)k, 64)));
}
static void do_memcpy(Reg d, Reg s, Reg n, bool isset, Reg setv) {
    if (!n.e && !d.e && (isset || !s.e)) {
        if (isset) {
            if (!n.c) return;
            if (!setv.e) {
                u64 bad;
                if (inArena(d.c)) {
                    u8* z = sh(d.c);
                    for (u64 i = 0; i < n.c; i++) if (z[i] == SH_NONE || z[i] == SH_FREED || z[i] == SH_RO) memfault(badkind(d.c + i, true), d.c + i, n.c, P.cur);
                    symdrop(d.c, n.c);
                    memset(z, SH_INIT, n.c);
                } else if (!okRange(d.c, 1, true, &bad)) memfault(badkind(bad, true), bad, n.c, P.cur);
                memset((void*)d.c, (int)setv.c, n.c);
            } else for (u64 i = 0; i < n.c; i++) storeC(d.c + i, 1, {setv.c & 255, P.extract(setv.e, 0, 8)}, 8);
            return;
        }
        copyConcrete(d.c, s.c, n.c);
        return;
    }
    u64 lo = n.e ? n.e->lo : n.c, hi = n.e ? n.e->hi : n.c;
    if (n.e && n.e->uninit) { concretize(n, 64); lo = hi = n.c; }
    if (hi > 64) {
        if (n.e) {
            // tighten with the solver: is n > 64 possible?
            Model m;
            int r = solve(P.lnot(P.bin(E_ULE, n.e, P.cst(64, 64))), m);
            if (r != 1) hi = 64;
            else { concretize(n, 64); lo = hi = n.c; }
        }
        if (!n.e) {
            concretize(d, 64);
            if (!isset) concretize(s, 64);
            do_memcpy(d, s, n, isset, setv);
            return;
        }
    }
    // read all source bytes first (memmove semantics; also fine for memcpy)
    std::vector<Reg> vals;
    std::vector<Expr*> guards;
    std::vector<std::vector<u64>> dsts;
    for (u64 i = 0; i < hi; i++) {
        Expr* g = nullptr;
        if (i >= lo) {
            g = P.bin(E_ULT, P.cst(i, 64), n.e);
            if (g->op == E_CONST) { if (!g->k) break; g = nullptr; }
            else {
                auto it = pcknown.find(g);
                if (it != pcknown.end()) { if (!it->second) break; g = nullptr; }
            }
        }
        // may this byte be reached at all, if touching it could be bad?
        if (g) {
            auto mayBad = [&](Reg p, bool wr) {
                u64 bad;
                if (!p.e) return !okRange(p.c, 1, wr, &bad);
                if (p.e->hi - p.e->lo >= 64) return true;
                for (u64 a = p.e->lo; a <= p.e->hi; a++) if (!okRange(a, 1, wr, &bad)) return true;
                return false;
            };
            if ((!isset && mayBad(addReg(s, i), false)) || mayBad(addReg(d, i), true)) {
                Model m;
                int r = solve(g, m);
                if (r != 1) { pcknown[g] = false; pcknown[P.lnot(g)] = true; break; }
            }
        }
        auto addrs = [&](Reg p, bool wr) { // valid addresses of a guarded access; reports invalid ones
            std::vector<u64> c;
            if (p.e) { if (!candidates(p, 1, wr, c, g)) { c.clear(); c.push_back(p.c); } return c; }
            u64 bad;
            if (okRange(p.c, 1, wr, &bad)) { c.push_back(p.c); return c; }
            if (!g) memfault(badkind(bad, wr), p.c, 1, P.cur);
            Model m;
            if (solve(g, m) == 1) { // reached: the feasibility query above said so
                std::string fn = "?";
                for (int j = (int)T->fr.size() - 1; j >= 0; j--)
                    if (T->fr[j].fn->file.find("/repo/") != std::string::npos) { fn = dem(T->fr[j].fn->name); break; }
                size_t z = fn.find('(');
                if (z != std::string::npos) fn = fn.substr(0, z);
                violation(std::string("memory:") + badkind(bad, wr) + ":" + fn, "memory", m);
                assume(P.lnot(g));
            }
            return c;
        };
        if (isset) vals.push_back(setv.e ? mk(P.extract(setv.e, 0, 8)) : Reg{setv.c & 255, nullptr});
        else {
            Reg p = addReg(s, i);
            std::vector<u64> c = addrs(p, false);
            Expr* r = nullptr;
            Reg one{0, nullptr};
            for (u64 a : c) {
                Reg v = loadC(a, 1, 8);
                if (c.size() == 1) { one = v; break; }
                r = r ? P.ite(P.bin(E_EQ, p.e, P.cst(a, 64)), EX(v, 8), r) : EX(v, 8);
            }
            vals.push_back(r ? mk(r) : one);
        }
        dsts.push_back(addrs(addReg(d, i), true));
        guards.push_back(g);
    }
    for (size_t i = 0; i < vals.size(); i++) {
        Reg p = addReg(d, i);
        for (u64 a : dsts[i]) {
            Expr* g = guards[i];
            if (dsts[i].size() > 1) { Expr* q = P.bin(E_EQ, p.e, P.cst(a, 64)); g = g ? P.bin(E_AND, g, q) : q; }
            if (!g) { storeC(a, 1, vals[i], 8); continue; }
            Expr* old = EX(loadSlow(a, 1, 8), 8);
            storeSlow(a, 1, mk(P.ite(g, EX(vals[i], 8), old)), 8);
        }
    }
}
#include "lower.inc"
#include "interp.inc"
