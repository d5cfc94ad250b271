// ------------------------------------------------------------------ interpreter
struct CallCtx { FnRec* fn; CallInfo* ci; std::vector<Reg>& a; Reg ret; Reg ret2; bool ctl; };
struct GuestUnwind { };

static void run(size_t base);
static void pushFrame(FnRec* r, std::vector<Reg>& args, int dst, Insn* callI);
static Reg callGuest(u64 fnaddr, std::vector<Reg> args);
static bool startUnwind();
[[noreturn]] static void terminate_guest(const std::string& why);
static void sched_point();
static void switch_to_runnable(bool forced);

static u64 stack_alloc(u64 n, u64 align) {
    if (align < 16) align = 16;
    u64 a = (T->sp + 16 + align - 1) & ~(align - 1);
    T->sp = a + ((n + 15) & ~15ull) + 16;
    if (T->sp > T->splimit) { violation("stack-overflow", "memory", P.cur); finish("fault"); }
    memset(sh(a), SH_UNINIT, n);
    memset((void*)a, PAT, n);
    return a;
}
static void stack_free(u64 to) {
    u64 n = T->sp - to;
    if (n) { symdrop(to, n); memset(sh(to), SH_NONE, n); }
    T->sp = to;
}
static void take_edge(Frame& f, int e) {
    Edge& E = f.fn->edges[e];
    S->blkhit[E.blk < sizeof(S->blkhit) ? E.blk : 0] = 1;
    if (!E.mv.empty()) {
        Reg* R = T->regs + f.base;
        if (E.mv.size() == 1) {
            Move& m = E.mv[0];
            R[m.dst] = m.src >= 0 ? R[m.src] : f.fn->consts[~m.src];
        } else {
            Reg tmp[64]; std::vector<Reg> big; Reg* t = tmp;
            if (E.mv.size() > 64) { big.resize(E.mv.size()); t = big.data(); }
            for (size_t i = 0; i < E.mv.size(); i++) t[i] = E.mv[i].src >= 0 ? R[E.mv[i].src] : f.fn->consts[~E.mv[i].src];
            for (size_t i = 0; i < E.mv.size(); i++) R[E.mv[i].dst] = t[i];
        }
    }
    f.pc = E.pc;
}
static void pushFrame(FnRec* r, std::vector<Reg>& args, int dst, Insn* callI) {
    if (r->code.empty()) { if (r->F) lowerFn(r); if (r->code.empty()) engine_error("no body: " + r->name); }
    Frame f; f.fn = r; f.pc = 0; f.base = T->rtop; f.sp = T->sp; f.dstcall = dst; f.callI = callI;
    T->rtop += r->nregs;
    if (T->rtop > 3000000 || T->fr.size() > 20000) { violation("stack-overflow", "memory", P.cur); finish("fault"); }
    Reg* R = T->regs + f.base;
    for (int i = 0; i < r->nregs; i++) R[i].e = nullptr;
    for (int i = 0; i < r->nparams; i++) {
        if (i < (int)args.size()) {
            if (r->parambyval[i]) {
                u64 n = r->parambyval[i];
                u64 a = stack_alloc(n, 16);
                Reg p = args[i]; concretize(p, 64);
                copyConcrete(a, p.c, n);
                R[i] = {a, nullptr};
            } else R[i] = args[i];
        } else R[i] = {0, nullptr};
    }
    S->fnhit[r->idx < sizeof(S->fnhit) ? r->idx : 0] = 1;
    S->blkhit[r->blk0 < sizeof(S->blkhit) ? r->blk0 : 0] = 1;
    T->fr.push_back(f);
}

// ---- native calls
static ffi_type* ffit(u8 w, bool fp) {
    if (fp) return w == 32 ? &ffi_type_float : &ffi_type_double;
    switch (w) { case 1: case 8: return &ffi_type_uint8; case 16: return &ffi_type_uint16; case 32: return &ffi_type_uint32; default: return &ffi_type_uint64; }
}
static std::vector<std::exception_ptr> keptExc;
static std::vector<std::string> natnames;
static std::map<std::string, int> natidx;
static u64 objSpan(u64 a, u64 lim) { u64 n = 0; while (n < lim && inArena(a + n)) { u8 s = *sh(a + n); if (s == SH_NONE || s == SH_FREED) break; n++; } return n; }

static bool nativeCall(void* fp, const std::string& name, CallInfo* ci, std::vector<Reg>& args, Reg* out, Reg* out2) {
    S->nativecalls++;
    auto ni = natidx.find(name);
    if (ni != natidx.end()) S->nathit[ni->second] = 1;
    size_t n = args.size();
    std::vector<ffi_type*> at(n);
    std::vector<u64> av(n);
    std::vector<void*> ap(n);
    std::vector<std::pair<u64, u64>> spans;
    for (size_t i = 0; i < n; i++) {
        int w = i < ci->argw.size() ? ci->argw[i] : 64;
        bool f = i < ci->argfp.size() ? ci->argfp[i] : false;
        av[i] = concretize(args[i], w);
        at[i] = ffit(w, f);
        ap[i] = &av[i];
        if (w == 64 && !f && inArena(av[i])) {
            u64 sp = objSpan(av[i], 512);
            if (sp) spans.push_back({av[i], sp});
        }
    }
    for (auto& s : spans)
        for (u64 i = 0; i < s.second && i < 512; i++)
            if (*sh(s.first + i) == SH_SYM) {
                Reg r = loadSlow(s.first + i, 1, 8);
                if (r.e) { concretize(r, 8); storeSlow(s.first + i, 1, {r.c, nullptr}, 8); }
            }
    ffi_cif cif;
    ffi_type st; ffi_type* el[5] = {0, 0, 0, 0, 0};
    ffi_type* rt = &ffi_type_void;
    if (ci->ret.size() == 1) rt = ffit(ci->ret[0].w, ci->ret[0].fp);
    else if (ci->ret.size() > 1 && ci->ret.size() <= 4) {
        for (size_t i = 0; i < ci->ret.size(); i++) el[i] = ffit(ci->ret[i].w, ci->ret[i].fp);
        st.size = st.alignment = 0; st.type = FFI_TYPE_STRUCT; st.elements = el; rt = &st;
    } else if (ci->ret.size() > 4) engine_error("native struct return " + name);
    if (ci->vararg) ffi_prep_cif_var(&cif, FFI_DEFAULT_ABI, ci->nfixed, n, rt, at.data());
    else ffi_prep_cif(&cif, FFI_DEFAULT_ABI, n, rt, at.data());
    u64 rv[4] = {0, 0, 0, 0};
    bool thrown = false;
    errno = *(int*)guest_errno;
    try { ffi_call(&cif, FFI_FN(fp), rv, ap.data()); }
    catch (GuestUnwind&) { *(int*)guest_errno = errno; return false; }
    catch (...) {
        const std::type_info* ti = abi::__cxa_current_exception_type();
        std::exception_ptr ep = std::current_exception();
        keptExc.push_back(ep);
        T->inflight = {*(u64*)&ep, ti, 0, *(u64*)&ep, true};
        thrown = true;
    }
    *(int*)guest_errno = errno;
    // pick up what native code wrote
    for (auto& s : spans) {
        for (u64 i = 0; i < s.second; i++) {
            u64 a = s.first + i;
            u8* q = sh(a);
            if (*q == SH_SYM) {
                SymByte& b = symmem[a];
                if (*(u8*)a != (u8)(P.evalCur(b.e) >> (8 * b.idx))) { symmem.erase(a); *q = SH_INIT; }
            } else if (*q == SH_UNINIT) {
                u64 wd = a & ~7ull; u64 v = *(u64*)wd;
                if (v != 0xAAAAAAAAAAAAAAAAull && *(u8*)a != PAT) { *q = SH_INIT; }
                else if (v != 0xAAAAAAAAAAAAAAAAull && i + 8 <= s.second && (a & 7) == 0) {
                    bool allun = true; for (int k = 0; k < 8; k++) if (*sh(a + k) != SH_UNINIT) allun = false;
                    int np = 0; for (int k = 0; k < 8; k++) if (*(u8*)(a + k) == PAT) np++;
                    if (allun && np <= 3) memset(sh(a), SH_INIT, 8);
                }
            }
        }
    }
    if (thrown) return false;
    if (ci->ret.size() >= 1) {
        u64 v = rv[0];
        if (ci->ret.size() == 1) v &= maskw(ci->ret[0].w);
        out[0] = {v, nullptr};
        // multi-element structs are laid out in memory order
        if (ci->ret.size() > 1) for (size_t i = 0; i < ci->ret.size(); i++) { u64 x = 0; memcpy(&x, (char*)rv + ci->ret[i].off, ci->ret[i].w / 8); out[i] = {x, nullptr}; }
    }
    return true;
}
static void* natSym(FnRec* r) {
    if (!r->natresolved) { r->native = dlsym(RTLD_DEFAULT, r->name.c_str()); r->natresolved = true; }
    return r->native;
}

// ---- function pointers
struct Clo { FnRec* r; ffi_cif cif; std::vector<ffi_type*> at; };
static void cloEntry(ffi_cif* cif, void* ret, void** args, void* user) {
    Clo* c = (Clo*)user;
    std::vector<Reg> a;
    for (unsigned i = 0; i < cif->nargs; i++) {
        u64 v = 0; memcpy(&v, args[i], c->at[i]->size);
        a.push_back({v, nullptr});
    }
    Reg r = callGuest((u64)c->r->addr, a);
    if (!c->r->isvoid) { u64 v = concretize(r, c->r->ret.empty() ? 64 : c->r->ret[0].w); *(u64*)ret = v; }
}
static void fnAddress(FnRec* r) {
    if (r->addr) return;
    if (!r->body && !r->h) {
        void* p = natSym(r);
        if (p) { r->addr = p; fnByAddr[(u64)p] = r; return; }
    }
    void* code;
    ffi_closure* cl = (ffi_closure*)ffi_closure_alloc(sizeof(ffi_closure), &code);
    Clo* c = new Clo(); c->r = r;
    for (int i = 0; i < r->nparams; i++) c->at.push_back(ffit(r->paramw[i], r->paramfp[i]));
    ffi_type* rt = r->isvoid || r->ret.empty() ? &ffi_type_void : ffit(r->ret[0].w, r->ret[0].fp);
    ffi_prep_cif(&c->cif, FFI_DEFAULT_ABI, r->nparams, rt, c->at.data());
    ffi_prep_closure_loc(cl, &c->cif, cloEntry, c, code);
    r->addr = code;
    fnByAddr[(u64)code] = r;
}
static FnRec* fnAt(u64 a) {
    auto it = fnByAddr.find(a);
    return it == fnByAddr.end() ? nullptr : it->second;
}
// run a guest function to completion from engine code
static Reg callGuest(u64 fa, std::vector<Reg> args) {
    FnRec* r = fnAt(fa);
    CallInfo ci;
    if (r && !r->h && r->body) {
        size_t d = T->fr.size();
        static Reg sink[8];
        pushFrame(r, args, -2, nullptr);
        nestDepth++;
        run(d);
        nestDepth--;
        return T->regs[T->rtop]; // return value parked just above the stack top
    }
    ci.isvoid = true;
    for (size_t i = 0; i < args.size(); i++) { ci.argw.push_back(64); ci.argfp.push_back(0); }
    if (r && !r->isvoid) { ci.ret = r->ret; ci.isvoid = false; }
    Reg out[4] = {};
    if (r && r->h) { CallCtx c{r, &ci, args, {0, 0}, {0, 0}, false}; r->h(c); return c.ret; }
    nativeCall((void*)fa, r ? r->name : "?", &ci, args, out, out + 1);
    return out[0];
}

// ---- exceptions
[[noreturn]] static void terminate_guest(const std::string& why) {
    std::string fn = "?";
    for (int i = (int)T->fr.size() - 1; i >= 0; i--)
        if (T->fr[i].fn->file.find("/repo/") != std::string::npos) { fn = dem(T->fr[i].fn->name); break; }
    size_t p = fn.find('(');
    if (p != std::string::npos) fn = fn.substr(0, p);
    violation("terminate:" + fn + ":" + why, "terminate", P.cur);
    finish("terminate");
}
static bool tiMatch(const std::type_info* want, const std::type_info* thrown, u64 obj, u64& adj) {
    void* p = (void*)obj;
    bool isptr = thrown->__is_pointer_p();
    if (isptr) p = *(void**)obj;
    if (want->__do_catch(thrown, &p, 1)) { adj = (u64)p; return true; }
    return false;
}
static std::map<u64, int> typeIds;
static int typeIdFor(u64 ti) { auto it = typeIds.find(ti); if (it != typeIds.end()) return it->second; int n = typeIds.size() + 1; typeIds[ti] = n; return n; }

static size_t runBase = 0;
// Unwinds to the next landing pad for T->inflight. Returns false if it crossed the nested-run boundary.
static bool startUnwind() {
    // phase 1: any handler at all?
    GuestExc& x = T->inflight;
    bool found = false;
    for (int i = (int)T->fr.size() - 1; i >= 0 && !found; i--) {
        Frame& f = T->fr[i];
        Insn& I = f.fn->code[f.pc];
        if (I.op != I_CALL) continue;
        CallInfo& ci = f.fn->calls[I.extra];
        if (!ci.invoke) continue;
        Edge& E = f.fn->edges[ci.unwind];
        u32 pcx = E.pc;
        while (f.fn->code[pcx].op != I_LPAD && pcx < f.fn->code.size()) pcx++;
        LPad& L = f.fn->lpads[f.fn->code[pcx].extra];
        for (auto& c : L.cl) {
            u64 adj;
            if (c.filter) { found = true; break; }
            if (c.isCatch && (c.ti == 0 || (x.ti && tiMatch((const std::type_info*)c.ti, x.ti, x.obj, adj)))) { found = true; break; }
        }
    }
    if (!found) terminate_guest(std::string("uncaught-exception:") + (x.ti ? dem(x.ti->name()) : "?"));
    // phase 2
    while (T->fr.size() > runBase) {
        Frame& f = T->fr.back();
        Insn& I = f.fn->code[f.pc];
        if (I.op == I_CALL && f.fn->calls[I.extra].invoke) {
            CallInfo& ci = f.fn->calls[I.extra];
            Edge& E = f.fn->edges[ci.unwind];
            u32 pcx = E.pc;
            while (f.fn->code[pcx].op != I_LPAD) pcx++;
            LPad& L = f.fn->lpads[f.fn->code[pcx].extra];
            int sel = 0; bool land = L.cleanup;
            for (auto& c : L.cl) {
                u64 adj = x.obj;
                if (c.filter) { land = true; sel = -1; break; }
                if (c.isCatch && (c.ti == 0 || (x.ti && tiMatch((const std::type_info*)c.ti, x.ti, x.obj, adj)))) {
                    land = true; sel = c.ti == 0 ? typeIdFor(0) : typeIdFor(c.ti); x.adj = adj; break;
                }
            }
            if (land) {
                take_edge(f, ci.unwind);
                Reg* R = T->regs + f.base;
                R[L.dst] = {x.obj, nullptr};
                R[L.dst + 1] = {(u64)(u32)sel, nullptr};
                return true;
            }
        }
        u64 sp = f.sp; T->rtop = f.base;
        T->fr.pop_back();
        stack_free(sp);
    }
    return false;
}
static void throwGuest(CallCtx& c) {
    c.ctl = true;
    if (!startUnwind()) throw GuestUnwind();
}

// ---- locks and threads
struct LockSt { int writer = -1; std::map<int, int> readers; bool recursive = false; int depth = 0; };
static std::unordered_map<u64, LockSt> locks;
static int preemptions = 0;
static u64 nsched = 0;

static bool runnable(Thread* t) {
    if (t->done) return false;
    if (t->waitptr) return *(volatile int*)t->waitptr != 0;
    if (t->waitjoin >= 0) return threads[t->waitjoin]->done;
    if (t->waitlock) {
        LockSt& l = locks[t->waitlock];
        if (t->waitmode == 1) return l.writer < 0 ;
        bool other = false;
        for (auto& r : l.readers) if (r.second > 0) other = true;
        return l.writer < 0 && !other;
    }
    return true;
}
static void deadlock(const char* what) {
    std::string fn = "?";
    for (int i = (int)T->fr.size() - 1; i >= 0; i--)
        if (T->fr[i].fn->file.find("/repo/") != std::string::npos) { fn = dem(T->fr[i].fn->name); break; }
    size_t p = fn.find('(');
    if (p != std::string::npos) fn = fn.substr(0, p);
    violation(std::string("deadlock:") + fn, "deadlock", P.cur);
    finish("deadlock");
}
static Thread* choose(std::vector<Thread*>& v) {
    if (v.size() == 1) return v[0];
    Expr* e = P.var("sched", 8, 0, v.size() - 1, 0, false);
    inputs.push_back({"sched", e, 0});
    Reg r = mk(e);
    u64 k = concretize(r, 8);
    return v[k];
}
// voluntary scheduling point
static void sched_point() {
    if (threads.size() < 2 || nestDepth > 0) return;
    if (preemptions >= preempt_bound) return;
    std::vector<Thread*> v;
    if (runnable(T)) v.push_back(T);
    for (auto* t : threads) if (t != T && runnable(t)) v.push_back(t);
    if (v.size() < 2) return;
    Thread* n = choose(v);
    if (n != T) { preemptions++; T = n; }
}
static void block_switch() {
    std::vector<Thread*> v;
    for (auto* t : threads) if (t != T && runnable(t)) v.push_back(t);
    if (runnable(T)) v.insert(v.begin(), T);
    if (v.empty()) {
        deadlock("all blocked");
    }
    if (nestDepth > 0 && v[0] != T) engine_error("blocking inside nested run");
    T = choose(v);
}
// returns true if acquired; false => blocked, instruction must be retried
static bool lock_op(u64 a, int mode, bool rw, CallCtx& c) { // mode 1 read, 2 write
    LockSt& l = locks[a];
    T->waitlock = 0;
    int me = T->id;
    if (rw && l.writer == me) { c.ret = {35 /*EDEADLK*/, nullptr}; return true; }
    if (!rw && l.writer == me && l.recursive) { l.depth++; c.ret = {0, nullptr}; return true; }
    bool other = false;
    for (auto& r : l.readers) if (r.second > 0) other = true;
    bool ok = mode == 1 ? l.writer < 0 : (l.writer < 0 && !other);
    if (!ok) {
        T->waitlock = a; T->waitmode = mode;
        c.ctl = true; // retry when scheduled again
        block_switch();
        return false;
    }
    if (mode == 1) l.readers[me]++; else { l.writer = me; l.depth = 1; }
    c.ret = {0, nullptr};
    return true;
}
static u64 A(CallCtx& c, int i) { return concretize(c.a[i], i < (int)c.ci->argw.size() ? c.ci->argw[i] : 64); }
static bool schedPending = false;
static void do_lock(CallCtx& c, int mode, bool rw) {
    u64 a = A(c, 0);
    // preemption opportunity before acquiring; remember that this thread already took it
    if (threads.size() > 1 && nestDepth == 0 && !schedPending && T->waitlock == 0) {
        Thread* me = T;
        sched_point();
        if (T != me) { me->waitlock = 0; c.ctl = true; return; }
    }
    schedPending = false;
    lock_op(a, mode, rw, c);
}
static void h_mlock(CallCtx& c) { do_lock(c, 2, false); }
static void h_rdlock(CallCtx& c) { do_lock(c, 1, true); }
static void h_wrlock(CallCtx& c) { do_lock(c, 2, true); }
static void h_trylock_w(CallCtx& c) {
    LockSt& l = locks[A(c, 0)];
    bool other = false; for (auto& r : l.readers) if (r.second > 0) other = true;
    if (l.writer >= 0 || other) { c.ret = {16, nullptr}; return; }
    l.writer = T->id; l.depth = 1; c.ret = {0, nullptr};
}
static void h_trylock_r(CallCtx& c) {
    LockSt& l = locks[A(c, 0)];
    if (l.writer >= 0) { c.ret = {16, nullptr}; return; }
    l.readers[T->id]++; c.ret = {0, nullptr};
}
static void h_unlock(CallCtx& c) {
    u64 a = A(c, 0);
    LockSt& l = locks[a];
    if (l.writer == T->id) { if (--l.depth <= 0) l.writer = -1; }
    else if (l.readers[T->id] > 0) l.readers[T->id]--;
    else {
        std::string fn = "?";
        for (int i = (int)T->fr.size() - 1; i >= 0; i--)
            if (T->fr[i].fn->file.find("/repo/") != std::string::npos) { fn = dem(T->fr[i].fn->name); break; }
        size_t p = fn.find('(');
        if (p != std::string::npos) fn = fn.substr(0, p);
        violation("unlock-not-held:" + fn, "lock", P.cur);
    }
    c.ret = {0, nullptr};
}
static void h_zero(CallCtx& c) { c.ret = {0, nullptr}; }
static void h_mutex_init(CallCtx& c) { locks.erase(A(c, 0)); Reg z{0, nullptr}; do_memcpy({A(c, 0), nullptr}, {0, 0}, {40, nullptr}, true, z); c.ret = {0, nullptr}; }
static Thread* newThread() {
    Thread* t = new Thread();
    t->id = threads.size();
    t->regs = (Reg*)mmap(0, 3100000 * sizeof(Reg), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    t->sp = ABASE + STK_OFF + 4096 + t->id * (64ull << 20);
    t->splimit = t->sp + (60ull << 20);
    threads.push_back(t);
    return t;
}
static void h_spawn(CallCtx& c) { // sym_spawn(fn, arg) -> tid
    u64 fa = A(c, 0); Reg arg = c.a[1];
    FnRec* r = fnAt(fa);
    if (!r || !r->body) engine_error("spawn target");
    if (threads.size() > 6) engine_error("too many threads");
    Thread* t = newThread();
    Thread* me = T; T = t;
    std::vector<Reg> a{arg};
    pushFrame(r, a, -1, nullptr);
    T = me;
    c.ret = {(u64)t->id, nullptr};
}
static void h_join(CallCtx& c) {
    int id = A(c, 0);
    if (threads[id]->done) { T->waitjoin = -1; c.ret = {0, nullptr}; return; }
    T->waitjoin = id; c.ctl = true;
    block_switch();
}
static void h_wait(CallCtx& c) { // sym_wait(volatile int*): block until non-zero
    u64 a = A(c, 0);
    if (*(volatile int*)a) { T->waitptr = 0; return; }
    T->waitptr = a; c.ctl = true;
    block_switch();
}
static void h_self(CallCtx& c) { c.ret = {(u64)T->id, nullptr}; }
static void h_yield(CallCtx& c) {
    if (threads.size() < 2) return;
    Thread* me = T;
    // advance past this call before switching
    Frame& f = T->fr.back();
    Insn& I = f.fn->code[f.pc];
    CallInfo& ci = f.fn->calls[I.extra];
    if (ci.invoke) take_edge(f, ci.normal); else f.pc++;
    c.ctl = true;
    (void)me;
    sched_point();
}

// ---- memory / string handlers
static void h_malloc(CallCtx& c) { u64 n = A(c, 0); c.ret = {heap_alloc(n, false, 1), nullptr}; if (!c.ret.c) *(int*)guest_errno = 12; }
static void h_calloc(CallCtx& c) { u64 n = A(c, 0), m = A(c, 1); unsigned __int128 t = (unsigned __int128)n * m; c.ret = {t > (512ull << 20) ? 0 : heap_alloc(n * m, true, 1), nullptr}; }
static void throwNew() {
    try { throw std::bad_alloc(); } catch (...) {
        std::exception_ptr ep = std::current_exception(); keptExc.push_back(ep);
        T->inflight = {*(u64*)&ep, abi::__cxa_current_exception_type(), 0, *(u64*)&ep, true};
    }
}
static void h_new(CallCtx& c) {
    u64 n = A(c, 0);
    u64 a = heap_alloc(n, false, 2);
    if (!a) { throwNew(); throwGuest(c); return; }
    c.ret = {a, nullptr};
}
static void h_newarr(CallCtx& c) { u64 n = A(c, 0); u64 a = heap_alloc(n, false, 3); if (!a) { throwNew(); throwGuest(c); return; } c.ret = {a, nullptr}; }
static void do_free(u64 a, int kind, CallCtx& c) {
    if (!a) return;
    if (!inArena(a)) { if (a < 65536) memfault("bad-free", a, 0, P.cur); free((void*)a); return; }
    auto it = heapobjs.find(a);
    if (it == heapobjs.end()) memfault(*sh(a) == SH_FREED ? "double-free" : "bad-free", a, 0, P.cur);
    if (it->second.kind != kind) memfault("alloc-dealloc-mismatch", a, 0, P.cur);
    u64 n = it->second.size;
    symdrop(a, n);
    memset(sh(a), SH_FREED, n);
    u64 cap = (n + 15) & ~15ull;
    if (cap >= 65536) bigfree.insert({cap, a});
    heapobjs.erase(it);
}
static void h_free(CallCtx& c) { do_free(A(c, 0), 1, c); }
static void h_delete(CallCtx& c) { do_free(A(c, 0), 2, c); }
static void h_deletearr(CallCtx& c) { do_free(A(c, 0), 3, c); }
static void h_realloc(CallCtx& c) {
    u64 p = A(c, 0), n = A(c, 1);
    u64 a = heap_alloc(n, false, 1);
    if (p) { auto it = heapobjs.find(p); if (it == heapobjs.end()) memfault("bad-free", p, 0, P.cur); u64 o = it->second.size; copyConcrete(a, p, o < n ? o : n); do_free(p, 1, c); }
    c.ret = {a, nullptr};
}
static void h_memcpy(CallCtx& c) { c.ret = c.a[0]; do_memcpy(c.a[0], c.a[1], c.a[2], false, {0, 0}); }
static void h_memset(CallCtx& c) { c.ret = c.a[0]; do_memcpy(c.a[0], {0, 0}, c.a[2], true, c.a[1]); }
static void h_strlen(CallCtx& c) {
    u64 a = A(c, 0); u64 n = 0;
    while (true) { Reg b = loadC(a + n, 1, 8); Reg z = b.e ? mk(P.bin(E_EQ, b.e, P.cst(0, 8))) : Reg{b.c == 0, nullptr}; if (decide(z)) break; n++; if (n > 100000) engine_error("strlen"); }
    c.ret = {n, nullptr};
}
static int cmpLoop(u64 a, u64 b, u64 n, bool str) {
    for (u64 i = 0; i < n; i++) {
        Reg x = loadC(a + i, 1, 8), y = loadC(b + i, 1, 8);
        Reg eq = (x.e || y.e) ? mk(P.bin(E_EQ, EX(x, 8), EX(y, 8))) : Reg{x.c == y.c, nullptr};
        if (!decide(eq)) {
            Reg lt = (x.e || y.e) ? mk(P.bin(E_ULT, EX(x, 8), EX(y, 8))) : Reg{x.c < y.c, nullptr};
            return decide(lt) ? -1 : 1;
        }
        if (str) { Reg z = x.e ? mk(P.bin(E_EQ, x.e, P.cst(0, 8))) : Reg{x.c == 0, nullptr}; if (decide(z)) return 0; }
    }
    return 0;
}
static void h_memcmp(CallCtx& c) { u64 a = A(c, 0), b = A(c, 1), n = A(c, 2); c.ret = {(u64)(u32)cmpLoop(a, b, n, false), nullptr}; }
static void h_strcmp(CallCtx& c) { u64 a = A(c, 0), b = A(c, 1); c.ret = {(u64)(u32)cmpLoop(a, b, 1 << 20, true), nullptr}; }
static void h_strncmp(CallCtx& c) { u64 a = A(c, 0), b = A(c, 1), n = A(c, 2); c.ret = {(u64)(u32)cmpLoop(a, b, n, true), nullptr}; }
static void h_memchr(CallCtx& c) {
    u64 a = A(c, 0), n = A(c, 2); Reg v = c.a[1]; if (v.e) v = mk(P.extract(v.e, 0, 8)); else v.c &= 255;
    for (u64 i = 0; i < n; i++) {
        Reg b = loadC(a + i, 1, 8);
        Reg eq = (b.e || v.e) ? mk(P.bin(E_EQ, EX(b, 8), EX(v, 8))) : Reg{b.c == v.c, nullptr};
        if (decide(eq)) { c.ret = {a + i, nullptr}; return; }
    }
    c.ret = {0, nullptr};
}
static u64 strlenC(u64 a) { u64 n = 0; while (true) { Reg b = loadC(a + n, 1, 8); Reg z = b.e ? mk(P.bin(E_EQ, b.e, P.cst(0, 8))) : Reg{b.c == 0, nullptr}; if (decide(z)) return n; n++; } }
static void h_strdup(CallCtx& c) { u64 a = A(c, 0); u64 n = strlenC(a) + 1; u64 p = heap_alloc(n, false, 1); copyConcrete(p, a, n); c.ret = {p, nullptr}; }
static void h_strcpy(CallCtx& c) { u64 d = A(c, 0), s = A(c, 1); copyConcrete(d, s, strlenC(s) + 1); c.ret = {d, nullptr}; }
static void h_strchr(CallCtx& c) {
    u64 a = A(c, 0); u64 v = A(c, 1) & 255;
    for (u64 i = 0;; i++) {
        Reg b = loadC(a + i, 1, 8);
        Reg eq = b.e ? mk(P.bin(E_EQ, b.e, P.cst(v, 8))) : Reg{b.c == v, nullptr};
        if (decide(eq)) { c.ret = {a + i, nullptr}; return; }
        Reg z = b.e ? mk(P.bin(E_EQ, b.e, P.cst(0, 8))) : Reg{b.c == 0, nullptr};
        if (decide(z)) { c.ret = {0, nullptr}; return; }
    }
}
static void h_strrchr(CallCtx& c) { u64 a = A(c, 0); u64 v = A(c, 1) & 255; u64 n = strlenC(a); c.ret = {0, nullptr}; for (i64 i = n; i >= 0; i--) { Reg b = loadC(a + i, 1, 8); Reg eq = b.e ? mk(P.bin(E_EQ, b.e, P.cst(v, 8))) : Reg{b.c == v, nullptr}; if (decide(eq)) { c.ret = {a + (u64)i, nullptr}; return; } } }

// ---- EH handlers
static void h_cxa_alloc(CallCtx& c) { c.ret = {heap_alloc(A(c, 0) + 16, false, 9), nullptr}; }
static void h_cxa_free(CallCtx& c) { u64 a = A(c, 0); if (inArena(a)) do_free(a, 9, c); }
static void h_cxa_throw(CallCtx& c) { T->inflight = {A(c, 0), (const std::type_info*)A(c, 1), A(c, 2), 0, false}; T->inflight.adj = T->inflight.obj; throwGuest(c); }
static void h_begin_catch(CallCtx& c) { T->caught.push_back(T->inflight); c.ret = {T->inflight.adj, nullptr}; }
static void h_end_catch(CallCtx& c) {
    if (T->caught.empty()) return;
    GuestExc x = T->caught.back(); T->caught.pop_back();
    if (x.dtor && !x.native) {
        bool again = false;
        for (auto& y : T->caught) if (y.obj == x.obj) again = true;
        if (!again && !(T->inflight.obj == x.obj && T->inflight.ti == nullptr)) { callGuest(x.dtor, {{x.obj, nullptr}}); }
    }
}
static void h_rethrow(CallCtx& c) { if (T->caught.empty()) terminate_guest("rethrow"); T->inflight = T->caught.back(); T->caught.back().dtor = 0; throwGuest(c); }
static void h_get_exc_ptr(CallCtx& c) { c.ret = {T->inflight.adj, nullptr}; }
static void h_typeid_for(CallCtx& c) { c.ret = {(u64)typeIdFor(A(c, 0)), nullptr}; }
static void h_terminate(CallCtx& c) { terminate_guest("std::terminate"); }
static void h_abort(CallCtx& c) { terminate_guest("abort"); }
static std::string cstr(u64 a) {
    std::string s;
    while (true) { Reg b = loadC(a++, 1, 8); if (b.e) concretize(b, 8); if (!b.c) break; s += (char)b.c; if (s.size() > 4096) break; }
    return s;
}
static void h_assert_fail(CallCtx& c) { terminate_guest("assert:" + cstr(A(c, 0))); }
static void h_exit(CallCtx& c) { finish("ok"); }
static void h_guard_acquire(CallCtx& c) { u64 a = A(c, 0); Reg b = loadC(a, 1, 8); c.ret = {b.c == 0, nullptr}; }
static void h_guard_release(CallCtx& c) { u64 a = A(c, 0); storeC(a, 1, {1, nullptr}, 8); }
static void h_errno(CallCtx& c) { c.ret = {guest_errno, nullptr}; }
static void h_ret_arg0(CallCtx& c) { c.ret = c.a[0]; }

// setjmp / longjmp
struct JB { size_t depth; u32 pc; FnRec* fn; u64 sp; u64 rtop; int tid; };
static std::map<u64, JB> jbs;
static void h_setjmp(CallCtx& c) {
    u64 a = A(c, 0);
    Frame& f = T->fr.back();
    jbs[a] = {T->fr.size(), f.pc, f.fn, T->sp, T->rtop, T->id};
    c.ret = {0, nullptr};
}
static void h_longjmp(CallCtx& c) {
    u64 a = A(c, 0); u64 v = A(c, 1); if (!v) v = 1;
    auto it = jbs.find(a);
    if (it == jbs.end() || it->second.tid != T->id || it->second.depth > T->fr.size()) engine_error("longjmp target");
    JB j = it->second;
    if (j.depth <= runBase) engine_error("longjmp across nested run");
    while (T->fr.size() > j.depth) { T->rtop = T->fr.back().base; T->fr.pop_back(); }
    stack_free(j.sp);
    T->rtop = j.rtop;
    Frame& f = T->fr.back();
    f.pc = j.pc;
    Insn& I = f.fn->code[f.pc];
    if (I.dst >= 0) T->regs[f.base + I.dst] = {v, nullptr};
    CallInfo& ci = f.fn->calls[I.extra];
    if (ci.invoke) take_edge(f, ci.normal); else f.pc++;
    c.ctl = true;
}

// ---- llvm intrinsics
static void h_minmax(CallCtx& c) {
    int w = c.ci->argw[0];
    const std::string& n = c.fn->name;
    EOp op = n.compare(5, 4, "umin") == 0 || n.compare(5, 4, "umax") == 0 ? E_ULT : E_SLT;
    bool mx = n.compare(6, 3, "max") == 0;
    Reg a = c.a[0], b = c.a[1];
    bool bad = false;
    if (!a.e && !b.e) { bool lt = ExprPool::evalop(op, w, a.c, b.c, bad); c.ret = (lt != mx) ? a : b; return; }
    Expr* lt = P.bin(op, EX(a, w), EX(b, w));
    c.ret = mk(mx ? P.ite(lt, EX(b, w), EX(a, w)) : P.ite(lt, EX(a, w), EX(b, w)));
}
static void h_abs(CallCtx& c) { int w = c.ci->argw[0]; Reg a = c.a[0]; if (!a.e) { i64 v = sx(a.c, w); c.ret = {(u64)(v < 0 ? -v : v) & maskw(w), nullptr}; return; } Expr* z = P.cst(0, w); c.ret = mk(P.ite(P.bin(E_SLT, a.e, z), P.bin(E_SUB, z, a.e), a.e)); }
static void h_ovf(CallCtx& c) { // llvm.{u,s}{add,sub,mul}.with.overflow -> {iN, i1}
    int w = c.ci->argw[0];
    const std::string& n = c.fn->name;
    bool sg = n[5] == 's'; std::string o = n.substr(6, 3);
    u64 a = concretize(c.a[0], w), b = concretize(c.a[1], w);
    __int128 x = sg ? (__int128)sx(a, w) : (__int128)a, y = sg ? (__int128)sx(b, w) : (__int128)b;
    __int128 r; bool ov;
    if (o == "add") r = x + y; else if (o == "sub") r = x - y; else r = x * y;
    u64 t = (u64)r & maskw(w);
    ov = sg ? r != (__int128)sx(t, w) : (r < 0 || (unsigned __int128)r != t);
    c.ret = {t, nullptr}; c.ret2 = {ov, nullptr};
}
static void h_bits(CallCtx& c) {
    int w = c.ci->argw[0]; u64 v = concretize(c.a[0], w) & maskw(w);
    const std::string& n = c.fn->name;
    if (n.compare(5, 4, "ctlz") == 0) c.ret = {(u64)(v ? __builtin_clzll(v) - (64 - w) : w), nullptr};
    else if (n.compare(5, 4, "cttz") == 0) c.ret = {(u64)(v ? __builtin_ctzll(v) : w), nullptr};
    else c.ret = {(u64)__builtin_popcountll(v), nullptr};
}
static void h_bswap(CallCtx& c) { int w = c.ci->argw[0]; u64 v = concretize(c.a[0], w); v = __builtin_bswap64(v) >> (64 - w); c.ret = {v, nullptr}; }
static double asD(u64 v, int w) { if (w == 32) { float f; u32 x = v; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static u64 fromD(double d, int w) { if (w == 32) { float f = d; u32 x; memcpy(&x, &f, 4); return x; } u64 v; memcpy(&v, &d, 8); return v; }
static void h_ffun(CallCtx& c) {
    int w = c.ci->argw[0]; double d = asD(concretize(c.a[0], w), w);
    std::string n = c.fn->name.compare(0, 5, "llvm.") == 0 ? c.fn->name.substr(5) : c.fn->name;
    n = n.substr(0, n.find('.'));
    if (!n.empty() && n.back() == 'f' && n != "f" && c.fn->name.compare(0,5,"llvm.")) n.pop_back();
    double r = n == "ceil" ? ceil(d) : n == "floor" ? floor(d) : n == "fabs" ? fabs(d) : n == "sqrt" ? sqrt(d) : n == "trunc" ? trunc(d) : n == "round" ? round(d) : n == "rint" ? rint(d) : (engine_error("ffun " + n), 0.0);
    c.ret = {fromD(r, w), nullptr};
}
static void h_objsize(CallCtx& c) { c.ret = {~0ull, nullptr}; }
static void h_isconst(CallCtx& c) { c.ret = {0, nullptr}; }
static void h_stacksave(CallCtx& c) { c.ret = {T->sp, nullptr}; }
static void h_stackrestore(CallCtx& c) { stack_free(A(c, 0)); }
static void h_fmuladd(CallCtx& c) { int w = c.ci->argw[0]; c.ret = {fromD(asD(A(c, 0), w) * asD(A(c, 1), w) + asD(A(c, 2), w), w), nullptr}; }
static void h_trap(CallCtx& c) { terminate_guest("trap"); }

// ---- streams: std::cout / cerr / clog output is discarded
static bool isStdStream(u64 a) {
    static u64 s[3] = {(u64)dlsym(RTLD_DEFAULT, "_ZSt4cout"), (u64)dlsym(RTLD_DEFAULT, "_ZSt4cerr"), (u64)dlsym(RTLD_DEFAULT, "_ZSt4clog")};
    return a && (a == s[0] || a == s[1] || a == s[2]);
}
static void generic_call(CallCtx& c, bool skipHandler);
static void h_ostream(CallCtx& c) {
    u64 a = A(c, 0);
    if (isStdStream(a)) { c.ret = {a, nullptr}; return; }
    generic_call(c, true);
}

// ---- symbolic API
static u64 varcount = 0;
static void h_sym_u64(CallCtx& c) {
    std::string n = cstr(A(c, 0)); u64 lo = A(c, 1), hi = A(c, 2);
    if (lo == hi) { inputs.push_back({n, nullptr, lo}); c.ret = {lo, nullptr}; return; }
    u64 span = hi - lo;
    int w = 1; while (w < 64 && maskw(w) < span) w++;
    Expr* v = P.var(n, w, 0, span, 0, false);
    inputs.push_back({n, v, lo});
    Expr* e = P.bin(E_ADD, P.zext(v, 64), P.cst(lo, 64));
    c.ret = mk(e);
}
// a choice among 0..k-1: one path per value, no solver needed as nothing constrains it yet
static void h_sym_choose(CallCtx& c) {
    std::string n = cstr(A(c, 0)); u64 k = A(c, 1), v = 0;
    while (v + 1 < k) { Model m = P.cur; if (!fork_child(m)) break; v++; }
    inputs.push_back({n, nullptr, v});
    c.ret = {v, nullptr};
}
static void h_sym_bytes(CallCtx& c) {
    u64 a = A(c, 0), n = A(c, 1); std::string nm = cstr(A(c, 2));
    for (u64 i = 0; i < n; i++) {
        Expr* v = P.var(nm, 8, 0, 255, (P.vars.size() * 37 + 11) & 255, false);
        inputs.push_back({nm, v, 0});
        storeSlow(a + i, 1, mk(v), 8);
    }
    S->symbytes += n;
}
static Reg nz(CallCtx& c, int i) { Reg r = c.a[i]; int w = c.ci->argw[i]; if (r.e) return mk(P.lnot(P.bin(E_EQ, r.e, P.cst(0, w)))); return {r.c != 0, nullptr}; }
static void h_assume(CallCtx& c) { Reg r = nz(c, 0); S->assumes++; assume(EX(r, 1)); }
static void h_assert(CallCtx& c) {
    Reg r = nz(c, 0); std::string l = cstr(A(c, 1));
    S->asserts_checked++;
    if (!r.e) { if (!r.c) { violation(l, "assert", P.cur); finish("violated"); } return; }
    S->asserts_sym++;
    Model m;
    int q = solve(P.lnot(r.e), m);
    if (q == 1) { violation(l, "assert", m); assume(r.e); }
    else if (q == 0) { pcknown[r.e] = true; pcknown[P.lnot(r.e)] = false; }
}
static void h_fail(CallCtx& c) { violation(cstr(A(c, 0)), "assert", P.cur); finish("violated"); }
static void h_reach(CallCtx& c) {
    std::string l = cstr(A(c, 0));
    slock();
    int n = S->nreach, i;
    for (i = 0; i < n; i++) if (!strncmp(S->reachname[i], l.c_str(), 63)) break;
    if (i == n && n < 256) { strncpy(S->reachname[i], l.c_str(), 63); S->nreach = n + 1; }
    if (i < 256) S->reached[i]++;
    sunlock();
}
static void h_ite(CallCtx& c) { Reg k = nz(c, 0); if (!k.e) { c.ret = k.c ? c.a[1] : c.a[2]; return; } c.ret = mk(P.ite(k.e, EX(c.a[1], 64), EX(c.a[2], 64))); }
static void h_concretize(CallCtx& c) { u64 v = A(c, 0); c.ret = {v, nullptr}; }
static void h_observe(CallCtx& c) { observed.push_back({cstr(A(c, 0)), c.a[1]}); }
static void h_end(CallCtx& c) { finish("ok"); }
static void h_is_sym(CallCtx& c) { c.ret = {1, nullptr}; }
static void h_dbg(CallCtx& c) { std::string s = cstr(A(c, 0)); Reg r = c.a[1]; fprintf(stderr, "[dbg %d] %s = %ld%s\n", getpid(), s.c_str(), (long)r.c, r.e ? " (sym)" : ""); }
static void h_preempt(CallCtx& c) { preempt_bound = A(c, 0); preemptions = 0; }
static void h_check_uninit(CallCtx& c) { check_uninit = A(c, 0); }
static void h_clock_gettime(CallCtx& c) {
    // deterministic, strictly increasing clock
    static u64 tick = 1000000;
    u64 p = A(c, 1);
    tick += 7;
    storeC(p, 8, {tick, nullptr}, 64);
    storeC(p + 8, 8, {123, nullptr}, 64);
    c.ret = {0, nullptr};
}

static std::map<std::string, Handler>& handlers() {
    static std::map<std::string, Handler> h;
    if (h.empty()) {
        for (auto n : {"malloc"}) h[n] = h_malloc;
        h["calloc"] = h_calloc; h["realloc"] = h_realloc; h["free"] = h_free;
        h["_Znwm"] = h_new; h["_Znam"] = h_newarr; h["_ZnwmRKSt9nothrow_t"] = h_new;
        h["_ZdlPv"] = h["_ZdlPvm"] = h_delete; h["_ZdaPv"] = h["_ZdaPvm"] = h_deletearr;
        h["memcpy"] = h["memmove"] = h_memcpy; h["memset"] = h_memset;
        h["strlen"] = h_strlen; h["memcmp"] = h["bcmp"] = h_memcmp; h["strcmp"] = h_strcmp; h["strncmp"] = h_strncmp; h["memchr"] = h_memchr;
        h["strdup"] = h_strdup; h["strcpy"] = h_strcpy; h["strchr"] = h_strchr; h["strrchr"] = h_strrchr;
        h["__cxa_allocate_exception"] = h_cxa_alloc; h["__cxa_free_exception"] = h_cxa_free; h["__cxa_throw"] = h_cxa_throw;
        h["__cxa_begin_catch"] = h_begin_catch; h["__cxa_end_catch"] = h_end_catch; h["__cxa_rethrow"] = h_rethrow; h["__cxa_get_exception_ptr"] = h_get_exc_ptr;
        h["_ZSt9terminatev"] = h_terminate; h["abort"] = h_abort; h["__assert_fail"] = h_assert_fail;
        h["exit"] = h["_exit"] = h_exit;
        h["__cxa_guard_acquire"] = h_guard_acquire; h["__cxa_guard_release"] = h["__cxa_guard_abort"] = h_guard_release;
        h["__cxa_atexit"] = h["atexit"] = h["__cxa_thread_atexit"] = h_zero;
        h["__cxa_pure_virtual"] = h_abort;
        h["__errno_location"] = h_errno;
        h["_setjmp"] = h["setjmp"] = h["__sigsetjmp"] = h_setjmp; h["longjmp"] = h_longjmp;
        h["pthread_mutex_lock"] = h_mlock; h["pthread_mutex_unlock"] = h["pthread_rwlock_unlock"] = h_unlock;
        h["pthread_rwlock_rdlock"] = h_rdlock; h["pthread_rwlock_wrlock"] = h_wrlock;
        h["pthread_mutex_trylock"] = h["pthread_rwlock_trywrlock"] = h_trylock_w; h["pthread_rwlock_tryrdlock"] = h_trylock_r;
        h["pthread_rwlock_init"] = h["pthread_mutex_init"] = h_mutex_init; h["pthread_rwlock_destroy"] = h["pthread_mutex_destroy"] = h_zero;
        h["__pthread_key_create"] = h_zero; h["pthread_self"] = h_zero;
        h["printf"] = h["puts"] = h["putchar"] = h["fprintf"] = h["perror"] = h["fflush"] = h["fputs"] = h["fputc"] = h["fwrite"] = h_zero;
        h["clock_gettime"] = h_clock_gettime;
        h["sym_u64"] = h["sym_i64"] = h_sym_u64; h["sym_bytes"] = h_sym_bytes; h["sym_choose"] = h_sym_choose; h["sym_assume"] = h_assume; h["sym_assert"] = h_assert; h["sym_fail"] = h_fail;
        h["sym_reach"] = h_reach; h["sym_ite"] = h_ite; h["sym_concretize"] = h_concretize; h["sym_observe"] = h_observe; h["sym_end"] = h_end;
        h["sym_is_symbolic"] = h_is_sym; h["sym_dbg"] = h_dbg; h["sym_spawn"] = h_spawn; h["sym_join"] = h_join; h["sym_yield"] = h_yield; h["sym_wait"] = h_wait; h["sym_self"] = h_self; h["sym_preempt"] = h_preempt;
        h["sym_check_uninit"] = h_check_uninit;
        h["_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_"] = h_ostream;
        h["_ZNSo5flushEv"] = h_ostream;
        h["ceil"] = h["floor"] = h["ceilf"] = h["floorf"] = h_ffun;
    }
    return h;
}
static bool pre(const std::string& n, const char* p) { return n.compare(0, strlen(p), p) == 0; }
static Handler prefixHandler(const std::string& n) {
    if (pre(n, "llvm.")) {
        if (pre(n, "llvm.memcpy") || pre(n, "llvm.memmove")) return h_memcpy;
        if (pre(n, "llvm.memset")) return h_memset;
        if (pre(n, "llvm.smin") || pre(n, "llvm.smax") || pre(n, "llvm.umin") || pre(n, "llvm.umax")) return h_minmax;
        if (pre(n, "llvm.abs")) return h_abs;
        if (n.find(".with.overflow") != std::string::npos) return h_ovf;
        if (pre(n, "llvm.ctlz") || pre(n, "llvm.cttz") || pre(n, "llvm.ctpop")) return h_bits;
        if (pre(n, "llvm.bswap")) return h_bswap;
        if (pre(n, "llvm.ceil") || pre(n, "llvm.floor") || pre(n, "llvm.fabs") || pre(n, "llvm.sqrt") || pre(n, "llvm.trunc") || pre(n, "llvm.round") || pre(n, "llvm.rint")) return h_ffun;
        if (pre(n, "llvm.fmuladd")) return h_fmuladd;
        if (pre(n, "llvm.expect")) return h_ret_arg0;
        if (pre(n, "llvm.launder") || pre(n, "llvm.strip") || pre(n, "llvm.threadlocal.address") || pre(n, "llvm.ptr.annotation")) return h_ret_arg0;
        if (pre(n, "llvm.objectsize")) return h_objsize;
        if (pre(n, "llvm.is.constant")) return h_isconst;
        if (pre(n, "llvm.stacksave")) return h_stacksave;
        if (pre(n, "llvm.stackrestore")) return h_stackrestore;
        if (pre(n, "llvm.eh.typeid.for")) return h_typeid_for;
        if (pre(n, "llvm.trap") || pre(n, "llvm.ubsantrap")) return h_trap;
        return h_zero;
    }
    if (pre(n, "_ZStlsISt11char_traitsIcEERSt13basic_ostream") || pre(n, "_ZNSolsE") || pre(n, "_ZStlsIcSt11char_traitsIcE")) return h_ostream;
    return nullptr;
}

// generic call of c.fn with c.a
static void generic_call(CallCtx& c, bool skipHandler) {
    FnRec* r = c.fn;
    if (r->h && !skipHandler) { r->h(c); return; }
    if (r->body) {
        Frame& f = T->fr.back();
        Insn* I = &f.fn->code[f.pc];
        pushFrame(r, c.a, I->dst, I);
        c.ctl = true;
        return;
    }
    void* p = natSym(r);
    if (!p) engine_error("unresolved external " + dem(r->name));
    Reg out[8] = {};
    if (!nativeCall(p, r->name, c.ci, c.a, out, out + 1)) { throwGuest(c); return; }
    c.ret = out[0]; c.ret2 = out[1];
}

static inline bool icmpC(int p, u64 a, u64 b, int w) {
    switch (p) {
    case CmpInst::ICMP_EQ: return a == b;
    case CmpInst::ICMP_NE: return a != b;
    case CmpInst::ICMP_UGT: return a > b;
    case CmpInst::ICMP_UGE: return a >= b;
    case CmpInst::ICMP_ULT: return a < b;
    case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_SGT: return sx(a, w) > sx(b, w);
    case CmpInst::ICMP_SGE: return sx(a, w) >= sx(b, w);
    case CmpInst::ICMP_SLT: return sx(a, w) < sx(b, w);
    default: return sx(a, w) <= sx(b, w);
    }
}
static Expr* icmpE(int p, Expr* a, Expr* b) {
    switch (p) {
    case CmpInst::ICMP_EQ: return P.bin(E_EQ, a, b);
    case CmpInst::ICMP_NE: return P.lnot(P.bin(E_EQ, a, b));
    case CmpInst::ICMP_UGT: return P.bin(E_ULT, b, a);
    case CmpInst::ICMP_UGE: return P.bin(E_ULE, b, a);
    case CmpInst::ICMP_ULT: return P.bin(E_ULT, a, b);
    case CmpInst::ICMP_ULE: return P.bin(E_ULE, a, b);
    case CmpInst::ICMP_SGT: return P.bin(E_SLT, b, a);
    case CmpInst::ICMP_SGE: return P.bin(E_SLE, b, a);
    case CmpInst::ICMP_SLT: return P.bin(E_SLT, a, b);
    default: return P.bin(E_SLE, a, b);
    }
}
static const EOp binE[] = {E_ADD, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR};
static u64 pathInsns = 0;

static void run(size_t base) {
    size_t savedBase = runBase;
    runBase = base;
    Thread* runT = T;
#define RR(i) ((i) >= 0 ? R[i] : f.fn->consts[~(i)])
    std::vector<Reg> args;
    while (true) {
        if (T->fr.size() <= (nestDepth ? base : 0)) {
            if (nestDepth) break;
            // thread finished
            T->done = true;
            if (T->id == 0) break;
            block_switch();
            continue;
        }
        Frame& f = T->fr.back();
        Reg* R = T->regs + f.base;
        Insn* code = f.fn->code.data();
        while (true) {
            Insn& I = code[f.pc];
            if ((++icount & 0xffff) == 0) {
                pathInsns += 0x10000;
                if (pathInsns > max_insns) { 
                    std::string fn = "?";
                    for (int i = (int)T->fr.size() - 1; i >= 0; i--)
                        if (T->fr[i].fn->file.find("/repo/") != std::string::npos) { fn = dem(T->fr[i].fn->name); break; }
                    size_t p = fn.find('(');
                    if (p != std::string::npos) fn = fn.substr(0, p);
                    violation("hang:" + fn, "hang", P.cur); finish("hang"); }
                if (S->stop || past_deadline()) { S->incomplete++; finish("deadline"); }
            }
            switch (I.op) {
            case I_NOP: f.pc++; break;
            case I_ADD: { const Reg &a = RR(I.a), &b = RR(I.b); if (!a.e && !b.e) R[I.dst] = {(a.c + b.c) & maskw(I.w), nullptr}; else R[I.dst] = mk(P.bin(E_ADD, EX(a, I.w), EX(b, I.w))); f.pc++; break; }
            case I_SUB: { const Reg &a = RR(I.a), &b = RR(I.b); if (!a.e && !b.e) R[I.dst] = {(a.c - b.c) & maskw(I.w), nullptr}; else R[I.dst] = mk(P.bin(E_SUB, EX(a, I.w), EX(b, I.w))); f.pc++; break; }
            case I_UDIV: case I_SDIV: case I_UREM: case I_SREM: {
                Reg a = RR(I.a), b = RR(I.b);
                Reg z = b.e ? mk(P.bin(E_EQ, b.e, P.cst(0, I.w))) : Reg{(b.c & maskw(I.w)) == 0, nullptr};
                if (decide(z)) { 
                    std::string fn = "?";
                    for (int i = (int)T->fr.size() - 1; i >= 0; i--)
                        if (T->fr[i].fn->file.find("/repo/") != std::string::npos) { fn = dem(T->fr[i].fn->name); break; }
                    size_t p = fn.find('(');
                    if (p != std::string::npos) fn = fn.substr(0, p);
                    violation("div-by-zero:" + fn, "arith", P.cur); finish("fault"); }
                a = RR(I.a); b = RR(I.b);
            } [[fallthrough]];
            case I_MUL: case I_AND: case I_OR: case I_XOR: case I_SHL: case I_LSHR: case I_ASHR: {
                const Reg &a = RR(I.a), &b = RR(I.b);
                bool bad = false;
                if (!a.e && !b.e) R[I.dst] = {ExprPool::evalop(binE[I.op], I.w, a.c & maskw(I.w), b.c & maskw(I.w), bad), nullptr};
                else R[I.dst] = mk(P.bin(binE[I.op], EX(a, I.w), EX(b, I.w)));
                f.pc++; break; }
            case I_ICMP: {
                const Reg &a = RR(I.a), &b = RR(I.b);
                if (!a.e && !b.e) R[I.dst] = {icmpC(I.sub, a.c, b.c, I.w), nullptr};
                else R[I.dst] = mk(icmpE(I.sub, EX(a, I.w), EX(b, I.w)));
                f.pc++; break; }
            case I_FCMP: {
                Reg a = RR(I.a), b = RR(I.b);
                double x = asD(concretize(a, I.w), I.w), y = asD(concretize(b, I.w), I.w);
                bool un = std::isnan(x) || std::isnan(y), r = false;
                switch (I.sub) {
                case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break;
                case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break;
                case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break;
                case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break;
                case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_TRUE: r = true; break; default: r = false; }
                R[I.dst] = {r, nullptr}; f.pc++; break; }
            case I_FBIN: {
                Reg a = RR(I.a), b = RR(I.b);
                u64 ca = concretize(a, I.w), cb = concretize(b, I.w);
                if (I.w == 32) { float x, y, r; u32 t = ca; memcpy(&x, &t, 4); t = cb; memcpy(&y, &t, 4); r = I.sub == 0 ? x + y : I.sub == 1 ? x - y : I.sub == 2 ? x * y : I.sub == 3 ? x / y : fmodf(x, y); memcpy(&t, &r, 4); R[I.dst] = {t, nullptr}; }
                else { double x = asD(ca, 64), y = asD(cb, 64); double r = I.sub == 0 ? x + y : I.sub == 1 ? x - y : I.sub == 2 ? x * y : I.sub == 3 ? x / y : fmod(x, y); R[I.dst] = {fromD(r, 64), nullptr}; }
                f.pc++; break; }
            case I_FNEG: { Reg a = RR(I.a); u64 c = concretize(a, I.w); R[I.dst] = {c ^ (1ull << (I.w - 1)), nullptr}; f.pc++; break; }
            case I_TRUNC: { const Reg& a = RR(I.a); if (!a.e) R[I.dst] = {a.c & maskw(I.w), nullptr}; else R[I.dst] = mk(P.extract(a.e, 0, I.w)); f.pc++; break; }
            case I_ZEXT: { const Reg& a = RR(I.a); if (!a.e) R[I.dst] = {a.c & maskw(I.sub), nullptr}; else R[I.dst] = mk(P.zext(a.e, I.w)); f.pc++; break; }
            case I_SEXT: { const Reg& a = RR(I.a); if (!a.e) R[I.dst] = {(u64)sx(a.c, I.sub) & maskw(I.w), nullptr}; else R[I.dst] = mk(P.sext(a.e, I.w)); f.pc++; break; }
            case I_MOVE: R[I.dst] = RR(I.a); f.pc++; break;
            case I_SITOFP: { Reg a = RR(I.a); i64 v = sx(concretize(a, I.sub), I.sub); R[I.dst] = {I.w == 32 ? fromD((float)v, 32) : fromD((double)v, 64), nullptr}; f.pc++; break; }
            case I_UITOFP: { Reg a = RR(I.a); u64 v = concretize(a, I.sub); R[I.dst] = {I.w == 32 ? fromD((float)v, 32) : fromD((double)v, 64), nullptr}; f.pc++; break; }
            case I_FPTOSI: { Reg a = RR(I.a); double d = asD(concretize(a, I.sub), I.sub); R[I.dst] = {(u64)(i64)d & maskw(I.w), nullptr}; f.pc++; break; }
            case I_FPTOUI: { Reg a = RR(I.a); double d = asD(concretize(a, I.sub), I.sub); R[I.dst] = {(u64)d & maskw(I.w), nullptr}; f.pc++; break; }
            case I_FPEXT: { Reg a = RR(I.a); R[I.dst] = {fromD(asD(concretize(a, 32), 32), 64), nullptr}; f.pc++; break; }
            case I_FPTRUNC: { Reg a = RR(I.a); R[I.dst] = {fromD(asD(concretize(a, 64), 64), 32), nullptr}; f.pc++; break; }
            case I_ALLOCA: {
                Reg n = RR(I.a); u64 cnt = n.e ? concretize(n, I.w) : n.c;
                u64 sz = cnt * I.imm;
                if (sz > (50ull << 20)) { violation("stack-overflow", "memory", P.cur); finish("fault"); }
                R[I.dst] = {stack_alloc(sz, I.extra), nullptr}; f.pc++; break; }
            case I_LOAD: { const Reg& p = RR(I.a); R[I.dst] = p.e ? loadS(p, I.sub, I.w) : loadC(p.c, I.sub, I.w); f.pc++; break; }
            case I_STORE: {
                Reg p = RR(I.a); const Reg& v = RR(I.b);
                if (I.imm) p = addReg(p, I.imm);
                if (p.e) storeS(p, I.sub, v, I.w); else storeC(p.c, I.sub, v, I.w);
                f.pc++; break; }
            case I_LOADAGG: {
                Reg p = RR(I.a); auto& fe = f.fn->aggs[I.extra];
                std::vector<Reg> t;
                for (auto& x : fe) t.push_back(loadS(addReg(p, x.off), (x.w + 7) / 8, x.w));
                for (size_t i = 0; i < t.size(); i++) R[I.dst + i] = t[i];
                f.pc++; break; }
            case I_GEP: {
                const Reg& p = RR(I.a);
                if (I.sub == 0) { if (!p.e) R[I.dst] = {p.c + I.imm, nullptr}; else R[I.dst] = addReg(p, I.imm); f.pc++; break; }
                if (I.sub == 1) {
                    const Reg& x = RR(I.b);
                    if (!p.e && !x.e) { R[I.dst] = {p.c + I.imm + (u64)(sx(x.c, I.w) * (i64)I.c), nullptr}; f.pc++; break; }
                }
                GepInfo& g = f.fn->geps[I.extra];
                Expr* e = P.bin(E_ADD, EX(p, 64), P.cst(I.imm, 64));
                for (size_t i = 0; i < g.idx.size(); i++) {
                    const Reg& x = RR(g.idx[i].first);
                    Expr* xe = P.sext(EX(x, g.w[i]), 64);
                    e = P.bin(E_ADD, e, P.bin(E_MUL, xe, P.cst((u64)g.idx[i].second, 64)));
                }
                R[I.dst] = mk(e); f.pc++; break; }
            case I_SELECT: {
                const Reg& c = RR(I.a); Reg t = RR(I.b), e = RR(I.c);
                if (!c.e) R[I.dst] = c.c & 1 ? t : e;
                else R[I.dst] = mk(P.ite(c.e, EX(t, I.w), EX(e, I.w)));
                f.pc++; break; }
            case I_BR: take_edge(f, I.a); break;
            case I_CONDBR: { const Reg& c = RR(I.a); bool v = c.e ? decide(c) : (c.c & 1); take_edge(f, v ? I.b : I.c); break; }
            case I_SWITCH: {
                Reg c = RR(I.a); SwitchInfo& s = f.fn->sws[I.extra];
                int t = s.def;
                for (auto& k : s.cases) {
                    if (!c.e) { if ((c.c & maskw(I.w)) == k.first) { t = k.second; break; } }
                    else { Reg q = mk(P.bin(E_EQ, c.e, P.cst(k.first, I.w))); if (decide(q)) { t = k.second; break; } }
                }
                take_edge(f, t); break; }
            case I_RET: {
                Reg tmp[8]; int n = I.sub;
                if (n) { auto& v = f.fn->calls[I.extra].args; for (int i = 0; i < n && i < 8; i++) tmp[i] = RR(v[i]); }
                int d = f.dstcall; Insn* callI = f.callI;
                u64 sp = f.sp; T->rtop = f.base;
                T->fr.pop_back();
                stack_free(sp);
                if (d == -2) { T->regs[T->rtop] = n ? tmp[0] : Reg{0, nullptr}; goto next; }
                if (callI) {
                    Frame& g = T->fr.back();
                    Reg* G = T->regs + g.base;
                    CallInfo& ci = g.fn->calls[callI->extra];
                    if (d >= 0) for (int i = 0; i < n && i < (int)ci.ret.size(); i++) G[d + i] = tmp[i];
                    if (ci.invoke) take_edge(g, ci.normal); else g.pc++;
                }
                goto next; }
            case I_CALL: {
                CallInfo& ci = f.fn->calls[I.extra];
                FnRec* r = ci.callee;
                args.clear();
                for (int s : ci.args) args.push_back(RR(s));
                if (!r) {
                    Reg fp = RR(ci.fslot);
                    u64 a = concretize(fp, 64);
                    r = fnAt(a);
                    if (!r) {
                        if (a < 65536 || inArena(a)) memfault("bad-call", a, 0, P.cur);
                        Reg out[8] = {};
                        Dl_info di; std::string nm = "indirect-native";
                        if (dladdr((void*)a, &di) && di.dli_sname) nm = di.dli_sname;
                        if (!nativeCall((void*)a, nm, &ci, args, out, out + 1)) { if (!startUnwind()) { runBase = savedBase; throw GuestUnwind(); } goto next; }
                        for (size_t i = 0; i < ci.ret.size() && I.dst >= 0; i++) T->regs[T->fr.back().base + I.dst + i] = out[i];
                        Frame& g = T->fr.back();
                        if (ci.invoke) take_edge(g, ci.normal); else g.pc++;
                        goto next;
                    }
                }
                if (!r->h && r->body) { pushFrame(r, args, I.dst, &I); goto next; }
                CallCtx c{r, &ci, args, {0, nullptr}, {0, nullptr}, false};
                try { generic_call(c, false); } catch (GuestUnwind&) { runBase = savedBase; throw; }
                if (c.ctl) goto next;
                Frame& g = T->fr.back();
                if (I.dst >= 0) {
                    Reg* G = T->regs + g.base;
                    if (ci.ret.size() >= 1) { G[I.dst] = c.ret; }
                    if (ci.ret.size() >= 2) G[I.dst + 1] = c.ret2;
                }
                if (ci.invoke) take_edge(g, ci.normal); else g.pc++;
                goto next; }
            case I_UNREACH: {
                std::string fn = dem(f.fn->name);
                violation("unreachable:" + fn.substr(0, fn.find('(')), "ub", P.cur); finish("fault"); }
            case I_RESUME: {
                // pop this frame position: continue unwinding from the caller side of the current frame
                {
                    u64 sp = f.sp; T->rtop = f.base;
                    T->fr.pop_back();
                    stack_free(sp);
                    if (T->fr.size() <= runBase) { runBase = savedBase; throw GuestUnwind(); }
                    if (!startUnwind()) { runBase = savedBase; throw GuestUnwind(); }
                }
                goto next; }
            case I_LPAD: f.pc++; break;
            case I_CMPXCHG: {
                Reg p = RR(I.a); concretize(p, 64);
                Reg old = loadC(p.c, I.sub, I.w); Reg cmp = RR(I.b);
                Reg eq = (old.e || cmp.e) ? mk(P.bin(E_EQ, EX(old, I.w), EX(cmp, I.w))) : Reg{((old.c ^ cmp.c) & maskw(I.w)) == 0, nullptr};
                bool ok = decide(eq);
                if (ok) storeC(p.c, I.sub, RR(I.c), I.w);
                R[I.dst] = old; R[I.dst + 1] = {ok, nullptr};
                f.pc++; break; }
            case I_RMW: {
                Reg p = RR(I.a); concretize(p, 64);
                Reg old = loadC(p.c, I.sub, I.w), v = RR(I.b);
                EOp op = E_ADD; bool xchg = false;
                switch (I.imm) { case AtomicRMWInst::Add: op = E_ADD; break; case AtomicRMWInst::Sub: op = E_SUB; break; case AtomicRMWInst::And: op = E_AND; break; case AtomicRMWInst::Or: op = E_OR; break; case AtomicRMWInst::Xor: op = E_XOR; break; case AtomicRMWInst::Xchg: xchg = true; break; default: engine_error("rmw op"); }
                bool bad = false;
                Reg nv = xchg ? v : (old.e || v.e) ? mk(P.bin(op, EX(old, I.w), EX(v, I.w))) : Reg{ExprPool::evalop(op, I.w, old.c, v.c, bad), nullptr};
                storeC(p.c, I.sub, nv, I.w);
                R[I.dst] = old; f.pc++; break; }
            case I_UNSUP: engine_error("unsupported instruction: " + f.fn->unsup[I.extra]);
            default: engine_error("bad op");
            }
        }
    next:;
    }
    runBase = savedBase;
}

static void segv(int sig, siginfo_t* si, void*) {
    char b[128];
    int n = snprintf(b, sizeof b, "ENGINE-ERROR signal %d addr %p\n", sig, si->si_addr);
    if (write(2, b, n) < 0) {}
    if (T) { std::string t = trace(); fprintf(stderr, "%s\n", t.c_str()); appendLine("errors.txt", "signal " + std::to_string(sig) + " " + t); }
    S->errors++;
    if (ownsToken) S->tokens++;
    S->live--;
    _exit(0);
}

int main(int argc, char** argv) {
    if (!getenv("SYMEX_STK")) {
        struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
        rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1ull << 30) : std::min<rlim_t>(rl.rlim_max, 1ull << 30);
        setrlimit(RLIMIT_STACK, &rl);
        setenv("SYMEX_STK", "1", 1);
        execv("/proc/self/exe", argv);
    }
    std::string bc, entry = "harness"; int jobs = 8; double tmo = 300; std::vector<i64> hargs;
    bool listnative = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--entry") entry = argv[++i];
        else if (a == "--out") outdir = argv[++i];
        else if (a == "--jobs") jobs = atoi(argv[++i]);
        else if (a == "--timeout") tmo = atof(argv[++i]);
        else if (a == "--max-insns") max_insns = strtoull(argv[++i], 0, 10);
        else if (a == "--witness") max_witness = atoi(argv[++i]);
        else if (a == "--z3-timeout") z3_timeout_ms = strtoull(argv[++i], 0, 10);
        else if (a == "--arg") hargs.push_back(strtoll(argv[++i], 0, 10));
        else if (a == "-v") verbose = true;
        else bc = a;
    }
    t_start = now(); deadline = t_start + tmo;
    S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (S) Shared();
    S->tokens = jobs - 1; S->live = 1;
    mem_init();
    dlopen("libstdc++.so.6", RTLD_NOW | RTLD_GLOBAL);
    dlopen("libpthread.so.0", RTLD_NOW | RTLD_GLOBAL);
    dlopen("libm.so.6", RTLD_NOW | RTLD_GLOBAL);
    solver_init();
    zs = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV"));
    Z3_solver_inc_ref(Z, zs);
    { Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), z3_timeout_ms); Z3_solver_set_params(Z, zs, p); Z3_params_dec_ref(Z, p); }
    blkinfo.push_back({"", 0});
    auto* C = new LLVMContext();
    load_module(bc, *C);
    Function* EF = M->getFunction(entry);
    if (!EF) { fprintf(stderr, "ENGINE-ERROR no entry %s\n", entry.c_str()); return 70; }
    FnRec* er = getFn(EF);
    // lower everything reachable so that the LLVM module can be dropped before forking
    std::vector<FnRec*> ctors;
    if (auto* g = M->getGlobalVariable("llvm.global_ctors"))
        if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer())) {
            std::vector<std::pair<u64, FnRec*>> v;
            for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(o); if (auto* f = dyn_cast<Function>(cs->getOperand(1))) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), getFn(f)}); }
            std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
            for (auto& p : v) ctors.push_back(p.second);
        }
    for (size_t i = 0; i < fns.size(); i++) lowerFn(fns[i]);
    for (auto* r : fns) if (!r->body && !r->h) { int k = natnames.size(); if (k < (1 << 14)) { natidx[r->name] = k; natnames.push_back(r->name); } natSym(r); }
    size_t ninsn = 0; for (auto* r : fns) ninsn += r->code.size();
    for (auto* r : fns) r->F = nullptr;
    gaddr.clear();
    M.reset(); delete C;
    double t_load = now() - t_start;
    if (verbose) fprintf(stderr, "loaded %zu functions %zu insns in %.2fs\n", fns.size(), ninsn, t_load);
    guest_errno = ABASE + 64; memset(sh(guest_errno), SH_INIT, 4);
    stack_t ss; ss.ss_sp = mmap(0, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_size = 1 << 20; ss.ss_flags = 0;
    sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    pid_t p = fork();
    if (p == 0) {
        sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGILL, &sa, 0);
        T = newThread();
        std::vector<Reg> a;
        for (auto* c : ctors) { a.clear(); nestDepth = 1; pushFrame(c, a, -2, nullptr); run(0); nestDepth = 0; }
        pathInsns = 0;
        a.clear();
        for (auto v : hargs) a.push_back({(u64)v, nullptr});
        pushFrame(er, a, -1, nullptr);
        try { run(0); } catch (GuestUnwind&) { terminate_guest("uncaught"); }
        finish("ok");
    }
    // wait for everything
    while (S->live > 0) {
        int st;
        pid_t w;
        while ((w = waitpid(-1, &st, WNOHANG)) > 0)
            if (WIFSIGNALED(st)) { S->errors++; S->live--; FILE* ef = fopen((outdir + "/errors.txt").c_str(), "a"); if (ef) { fprintf(ef, "worker killed by signal %d\n", WTERMSIG(st)); fclose(ef); } }
        usleep(2000);
        if (now() > deadline + 20) { S->stop = 1; }
        if (now() > deadline + 40) { S->incomplete++; break; }
    }
    double wall = now() - t_start;
    FILE* o = fopen((outdir + "/result.json").c_str(), "w");
    fprintf(o, "{\"entry\":\"%s\",\"wall_s\":%.3f,\"load_s\":%.3f,\"paths\":%lu,\"forks\":%lu,\"infeasible\":%lu,\"insns\":%lu,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"model_cache_hits\":%lu,\"solver_s\":%.3f,"
               "\"asserts\":%lu,\"asserts_symbolic\":%lu,\"assumes\":%lu,\"violations\":%lu,\"errors\":%lu,\"incomplete\":%lu,\"symbytes\":%lu,\"native_calls\":%lu,\"max_pc\":%lu,\"concretised\":%lu,\n",
            entry.c_str(), wall, t_load, (u64)S->paths, (u64)S->forks, (u64)S->infeasible, (u64)S->insns, (u64)S->queries, (u64)S->sat, (u64)S->unsat, (u64)S->unknown, (u64)S->cachehits, S->solver_ns * 1e-9,
            (u64)S->asserts_checked, (u64)S->asserts_sym, (u64)S->assumes, (u64)S->violations, (u64)S->errors, (u64)S->incomplete, (u64)S->symbytes, (u64)S->nativecalls, (u64)S->maxpc, (u64)S->concretised);
    fprintf(o, "\"reach\":{");
    for (int i = 0; i < S->nreach; i++) fprintf(o, "%s\"%s\":%d", i ? "," : "", jesc(S->reachname[i]).c_str(), (int)S->reached[i]);
    fprintf(o, "},\n\"violation_labels\":{");
    for (int i = 0; i < S->nv; i++) fprintf(o, "%s\"%s\":%d", i ? "," : "", jesc(S->vlabel[i]).c_str(), (int)S->vcount[i]);
    fprintf(o, "},\n\"functions\":[");
    bool first = true;
    for (auto* r : fns) if (S->fnhit[r->idx < sizeof(S->fnhit) ? r->idx : 0] && r->file.find("/repo/") != std::string::npos) { fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(dem(r->name)).c_str()); first = false; }
    fprintf(o, "],\n\"native\":[");
    first = true;
    for (size_t i = 0; i < natnames.size(); i++) if (S->nathit[i]) { fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(dem(natnames[i])).c_str()); first = false; }
    fprintf(o, "],\n\"lines\":{");
    std::map<std::string, std::map<u32, int>> cov;
    for (u32 i = 1; i < nblk && i < sizeof(S->blkhit); i++) if (blkinfo[i].first.find("/repo/") != std::string::npos && blkinfo[i].second) { int& v = cov[blkinfo[i].first][blkinfo[i].second]; if (S->blkhit[i]) v = 1; }
    first = true;
    for (auto& kv : cov) { int t = 0, h = 0; for (auto& l : kv.second) { t++; h += l.second; } fprintf(o, "%s\"%s\":[%d,%d]", first ? "" : ",", jesc(kv.first).c_str(), h, t); first = false; }
    fprintf(o, "}}\n");
    fclose(o);
    if (const char* cf = getenv("SYMEX_COV")) {   // development aid: every source line with its hit flag
        FILE* c = fopen(cf, "a");
        if (c) { for (auto& kv : cov) for (auto& l : kv.second) fprintf(c, "%s:%u %d\n", kv.first.c_str(), l.first, l.second); fclose(c); }
    }
    if (verbose) {
        fprintf(stderr, "paths %lu forks %lu insns %lu queries %lu (sat %lu unsat %lu unk %lu cache %lu) solver %.2fs viol %lu err %lu incomplete %lu wall %.2fs\n", (u64)S->paths, (u64)S->forks, (u64)S->insns, (u64)S->queries, (u64)S->sat, (u64)S->unsat, (u64)S->unknown, (u64)S->cachehits, S->solver_ns * 1e-9, (u64)S->violations, (u64)S->errors, (u64)S->incomplete, wall);
        if (getenv("SYMEX_FORKS")) {
            std::vector<std::pair<u32, int>> v;
            for (int i = 0; i < 4096; i++) if (S->fork[i].n) v.push_back({(u32)S->fork[i].n, i});
            std::sort(v.rbegin(), v.rend());
            for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "  FORK %u %s:%u\n", v[i].first, dem(fns[S->fork[v[i].second].fn]->name).substr(0, 90).c_str(), S->fork[v[i].second].line);
        }
        if (getenv("SYMEX_FORKS")) {
            std::vector<std::pair<u64, int>> v;
            for (int i = 0; i < 4096; i++) if (S->qs[i].n) v.push_back({(u64)S->qs[i].ns, i});
            std::sort(v.rbegin(), v.rend());
            for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "  QUERY %.2fs n=%u %s:%u\n", v[i].first * 1e-9, (u32)S->qs[v[i].second].n, dem(fns[S->qs[v[i].second].fn]->name).substr(0, 90).c_str(), S->qs[v[i].second].line);
        }
        for (int i = 0; i < S->nv; i++) fprintf(stderr, "  VIOL %s x%d\n", S->vlabel[i], (int)S->vcount[i]);
    }
    return 0;
}
