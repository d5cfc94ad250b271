// ------------------------------------------------------------------ lowering LLVM IR to bytecode
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::unordered_map<const GlobalVariable*, u64> gaddr;
static std::set<std::string> redirected;
static std::vector<std::string> missing_globals;

static FnRec* getFn(Function* F);
static void fnAddress(FnRec* r); // assigns r->addr

static bool flatten(Type* t, u32 off, std::vector<FlatElt>& out) {
    if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) return false; out.push_back({off, (u8)w, false}); return true; }
    if (t->isPointerTy()) { out.push_back({off, 64, false}); return true; }
    if (t->isFloatTy()) { out.push_back({off, 32, true}); return true; }
    if (t->isDoubleTy()) { out.push_back({off, 64, true}); return true; }
    if (auto* st = dyn_cast<StructType>(t)) {
        if (st->isOpaque()) return false;
        const StructLayout* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) if (!flatten(st->getElementType(i), off + sl->getElementOffset(i), out)) return false;
        return true;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
        u64 es = DL->getTypeAllocSize(at->getElementType());
        if (at->getNumElements() > 64) return false;
        for (u64 i = 0; i < at->getNumElements(); i++) if (!flatten(at->getElementType(), off + i * es, out)) return false;
        return true;
    }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        u64 es = DL->getTypeAllocSize(vt->getElementType());
        if (vt->getNumElements() > 64 || vt->getElementType()->getScalarSizeInBits() < 8) return false;
        for (u64 i = 0; i < vt->getNumElements(); i++) if (!flatten(vt->getElementType(), off + i * es, out)) return false;
        return true;
    }
    if (t->isVoidTy()) return true;
    return false;
}
static unsigned flatCount(Type* t) { std::vector<FlatElt> v; if (!flatten(t, 0, v)) return 0; return v.size(); }

struct CEval { bool ok; std::vector<u64> v; bool undef; };
static u64 constAddr(const Constant* c, bool& ok);
static u64 constScalar(const Constant* c, bool& ok, bool* undef = nullptr) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { ok = false; return 0; } return ci->getZExtValue(); }
    if (isa<ConstantPointerNull>(c)) return 0;
    if (isa<UndefValue>(c)) { if (undef) *undef = true; return 0; } // poison too
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
        if (cf->getType()->isFloatTy() || cf->getType()->isDoubleTy()) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
        ok = false; return 0;
    }
    if (isa<ConstantAggregateZero>(c)) return 0;
    return constAddr(c, ok);
}
static u64 constAddr(const Constant* c, bool& ok) {
    if (auto* f = dyn_cast<Function>(c)) { FnRec* r = getFn(const_cast<Function*>(f)); fnAddress(r); return (u64)r->addr; }
    if (auto* g = dyn_cast<GlobalVariable>(c)) {
        auto it = gaddr.find(g);
        if (it == gaddr.end()) { ok = false; return 0; }
        return it->second;
    }
    if (auto* a = dyn_cast<GlobalAlias>(c)) return constAddr(a->getAliasee(), ok);
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            auto* g = cast<GEPOperator>(ce);
            if (!g->accumulateConstantOffset(*DL, off)) { ok = false; return 0; }
            return constScalar(ce->getOperand(0), ok) + off.getSExtValue();
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
            u64 v = constScalar(ce->getOperand(0), ok);
            if (ce->getType()->isIntegerTy()) v &= maskw(ce->getType()->getIntegerBitWidth());
            return v;
        }
        case Instruction::Trunc: return constScalar(ce->getOperand(0), ok) & maskw(ce->getType()->getIntegerBitWidth());
        case Instruction::Add: return constScalar(ce->getOperand(0), ok) + constScalar(ce->getOperand(1), ok);
        case Instruction::Sub: return constScalar(ce->getOperand(0), ok) - constScalar(ce->getOperand(1), ok);
        default: ok = false; return 0;
        }
    }
    ok = false;
    return 0;
}
static bool writeConst(const Constant* c, u64 a) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return true;
    if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
        StringRef d = cds->getRawDataValues();
        memcpy((void*)a, d.data(), d.size());
        return true;
    }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
        for (unsigned i = 0; i < ca->getNumOperands(); i++) {
            u64 off;
            if (auto* st = dyn_cast<StructType>(t)) off = DL->getStructLayout(st)->getElementOffset(i);
            else off = i * DL->getTypeAllocSize(t->getContainedType(0));
            if (!writeConst(ca->getOperand(i), a + off)) return false;
        }
        return true;
    }
    bool ok = true;
    u64 v = constScalar(c, ok);
    if (!ok) { if (t->isX86_FP80Ty()) return true; return false; }
    u64 n = DL->getTypeStoreSize(t);
    memcpy((void*)a, &v, n > 8 ? 8 : n);
    return true;
}

static std::map<std::string, Handler>& handlers();
static Handler prefixHandler(const std::string& n);

static FnRec* getFn(Function* F) {
    std::string n = F->getName().str();
    auto it = fnByName.find(n);
    if (it != fnByName.end()) return it->second;
    // redirect external library functions to the guest environment model
    if (F->isDeclaration() || n == "main") {
        for (const char* pre : {"vfs_", "grt_"}) {
            Function* G = M->getFunction(pre + n);
            if (G && !G->isDeclaration()) { FnRec* r = getFn(G); fnByName[n] = r; redirected.insert(n); return r; }
        }
    }
    FnRec* r = new FnRec();
    r->name = n; r->idx = fns.size(); r->F = F;
    fns.push_back(r);
    fnByName[n] = r;
    auto& hs = handlers();
    auto h = hs.find(n);
    if (h != hs.end()) r->h = h->second;
    else r->h = prefixHandler(n);
    r->body = !F->isDeclaration();
    if (DISubprogram* sp = F->getSubprogram()) {
        r->file = (sp->getFilename().startswith("/") ? sp->getFilename().str() : (sp->getDirectory() + "/" + sp->getFilename()).str());
    }
    flatten(F->getReturnType(), 0, r->ret);
    r->isvoid = F->getReturnType()->isVoidTy();
    for (auto& a : F->args()) {
        std::vector<FlatElt> fe;
        flatten(a.getType(), 0, fe);
        u32 bv = a.hasByValAttr() ? (u32)DL->getTypeAllocSize(a.getParamByValType()) : 0;
        for (auto& x : fe) { r->paramw.push_back(x.w); r->paramfp.push_back(x.fp); r->parambyval.push_back(bv); }
    }
    r->nparams = r->paramw.size();
    return r;
}

struct Lower {
    FnRec* r; Function* F;
    std::unordered_map<const Value*, int> slot;
    std::unordered_map<const BasicBlock*, u32> bpc, bblk;
    std::map<u64, int> cpool;
    int next = 0;
    int undefSlot = -1;

    int cst(u64 v) {
        auto it = cpool.find(v);
        if (it != cpool.end()) return it->second;
        r->consts.push_back({v, nullptr});
        int s = ~(int)(r->consts.size() - 1);
        cpool[v] = s;
        return s;
    }
    bool bad = false;
    std::string why;
    void fail(const std::string& m) { bad = true; if (why.empty()) why = m; }

    int cslots(const Constant* c, std::vector<int>& out) {
        Type* t = c->getType();
        if (t->isAggregateType() || t->isVectorTy()) {
            std::vector<FlatElt> fe;
            if (!flatten(t, 0, fe)) { fail("type"); return 0; }
            if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { for (size_t i = 0; i < fe.size(); i++) out.push_back(cst(0)); return 0; }
            if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) cslots(ca->getOperand(i), out); return 0; }
            if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) cslots(cd->getElementAsConstant(i), out); return 0; }
            fail("const agg");
            return 0;
        }
        bool ok = true;
        u64 v = constScalar(c, ok);
        if (!ok) { if (t->isX86_FP80Ty() || (t->isIntegerTy() && t->getIntegerBitWidth() > 64)) fail("fp80/i128 constant"); else { std::string s; raw_string_ostream o(s); c->print(o); fail("const " + s); } }
        out.push_back(cst(v));
        return 0;
    }
    void vals(const Value* v, std::vector<int>& out) {
        if (auto* c = dyn_cast<Constant>(v)) { cslots(c, out); return; }
        auto it = slot.find(v);
        if (it == slot.end()) { fail("no slot"); out.push_back(cst(0)); return; }
        unsigned n = flatCount(v->getType());
        for (unsigned i = 0; i < n; i++) out.push_back(it->second + i);
    }
    int val(const Value* v) {
        std::vector<int> o; vals(v, o);
        if (o.empty()) { fail("empty value"); return cst(0); }
        return o[0];
    }
    int width(Type* t) {
        if (t->isIntegerTy()) { if (t->getIntegerBitWidth() > 64) fail("wide int"); return t->getIntegerBitWidth(); }
        if (t->isPointerTy()) return 64;
        if (t->isFloatTy()) return 32;
        if (t->isDoubleTy()) return 64;
        fail("width"); return 64;
    }
    std::vector<std::tuple<int, const BasicBlock*, const BasicBlock*>> edgefix;
    int edge(const BasicBlock* from, const BasicBlock* to) {
        int id = r->edges.size();
        r->edges.push_back({});
        for (auto& phi : to->phis()) {
            std::vector<int> src; vals(phi.getIncomingValueForBlock(from), src);
            int d = slot[&phi];
            for (size_t i = 0; i < src.size(); i++) r->edges[id].mv.push_back({(int)(d + i), src[i]});
        }
        edgefix.push_back({id, from, to});
        return id;
    }
    static unsigned flatIndex(Type* t, ArrayRef<unsigned> idx) {
        unsigned n = 0;
        for (unsigned i : idx) {
            if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) n += flatCount(st->getElementType(k)); t = st->getElementType(i); }
            else { Type* et = t->getContainedType(0); n += i * flatCount(et); t = et; }
        }
        return n;
    }
    void run() {
        for (auto& a : F->args()) { slot[&a] = next; next += flatCount(a.getType()); }
        for (auto& I : instructions(F)) {
            if (I.getType()->isVoidTy()) continue;
            unsigned n = flatCount(I.getType());
            slot[&I] = next;
            next += n ? n : 1;
        }
        r->nregs = next + 1;
        r->blk0 = nblk;
        for (auto& B : *F) {
            bpc[&B] = r->code.size();
            bblk[&B] = nblk;
            u32 ln = 0;
            for (auto& I : B) if (I.getDebugLoc() && I.getDebugLoc().getLine()) { ln = I.getDebugLoc().getLine(); break; }
            blkinfo.push_back({r->file, ln});
            nblk++;
            for (auto& I : B) {
                size_t c0 = r->code.size();
                bad = false; why.clear();
                if (isa<PHINode>(I)) continue;
                lower(I);
                u32 line = I.getDebugLoc() ? I.getDebugLoc().getLine() : 0;
                if (bad) {
                    r->code.resize(c0);
                    Insn x{}; x.op = I_UNSUP; x.extra = r->unsup.size();
                    std::string s; raw_string_ostream o(s); I.print(o);
                    r->unsup.push_back(why + ": " + s.substr(0, 160));
                    r->code.push_back(x);
                }
                for (size_t i = c0; i < r->code.size(); i++) r->code[i].line = line;
            }
        }
        for (auto& t : edgefix) { r->edges[std::get<0>(t)].pc = bpc[std::get<2>(t)]; r->edges[std::get<0>(t)].blk = bblk[std::get<2>(t)]; }
    }
    void emit(Insn x) { r->code.push_back(x); }
    void lower(Instruction& I) {
        Insn x{};
        x.dst = slot.count(&I) ? slot[&I] : -1;
        auto bin = [&](Op op) {
            if (I.getType()->isVectorTy()) {
                std::vector<int> a, b; vals(I.getOperand(0), a); vals(I.getOperand(1), b);
                int w = width(I.getType()->getScalarType());
                for (size_t i = 0; i < a.size(); i++) { Insn y{}; y.op = op; y.w = w; y.dst = x.dst + i; y.a = a[i]; y.b = b[i]; emit(y); }
                return;
            }
            x.op = op; x.w = width(I.getType()); x.a = val(I.getOperand(0)); x.b = val(I.getOperand(1)); emit(x); };
        auto fbin = [&](int k) {
            if (!I.getType()->isFloatTy() && !I.getType()->isDoubleTy()) { fail("fp type"); return; }
            x.op = I_FBIN; x.sub = k; x.w = width(I.getType()); x.a = val(I.getOperand(0)); x.b = val(I.getOperand(1)); emit(x); };
        switch (I.getOpcode()) {
        case Instruction::Add: bin(I_ADD); break;
        case Instruction::Sub: bin(I_SUB); break;
        case Instruction::Mul: bin(I_MUL); break;
        case Instruction::UDiv: bin(I_UDIV); break;
        case Instruction::SDiv: bin(I_SDIV); break;
        case Instruction::URem: bin(I_UREM); break;
        case Instruction::SRem: bin(I_SREM); break;
        case Instruction::And: bin(I_AND); break;
        case Instruction::Or: bin(I_OR); break;
        case Instruction::Xor: bin(I_XOR); break;
        case Instruction::Shl: bin(I_SHL); break;
        case Instruction::LShr: bin(I_LSHR); break;
        case Instruction::AShr: bin(I_ASHR); break;
        case Instruction::FAdd: fbin(0); break;
        case Instruction::FSub: fbin(1); break;
        case Instruction::FMul: fbin(2); break;
        case Instruction::FDiv: fbin(3); break;
        case Instruction::FRem: fbin(4); break;
        case Instruction::FNeg: x.op = I_FNEG; x.w = width(I.getType()); x.a = val(I.getOperand(0)); emit(x); break;
        case Instruction::ICmp: {
            auto& c = cast<ICmpInst>(I);
            if (c.getOperand(0)->getType()->isVectorTy()) { fail("vector icmp"); break; }
            x.op = I_ICMP; x.sub = c.getPredicate(); x.w = width(c.getOperand(0)->getType());
            x.a = val(c.getOperand(0)); x.b = val(c.getOperand(1)); emit(x); break; }
        case Instruction::FCmp: {
            auto& c = cast<FCmpInst>(I);
            x.op = I_FCMP; x.sub = c.getPredicate(); x.w = width(c.getOperand(0)->getType());
            x.a = val(c.getOperand(0)); x.b = val(c.getOperand(1)); emit(x); break; }
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt:
            x.op = I.getOpcode() == Instruction::Trunc ? I_TRUNC : I.getOpcode() == Instruction::ZExt ? I_ZEXT : I_SEXT;
            x.w = width(I.getType()); x.sub = width(I.getOperand(0)->getType()); x.a = val(I.getOperand(0)); emit(x); break;
        case Instruction::PtrToInt: { int w = width(I.getType()); x.op = w < 64 ? I_TRUNC : I_MOVE; x.w = w; x.sub = 64; x.a = val(I.getOperand(0)); emit(x); break; }
        case Instruction::IntToPtr: { int w = width(I.getOperand(0)->getType()); x.op = w < 64 ? I_ZEXT : I_MOVE; x.w = 64; x.sub = w; x.a = val(I.getOperand(0)); emit(x); break; }
        case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
            std::vector<int> a; vals(I.getOperand(0), a);
            if (a.size() != flatCount(I.getType())) { fail("bitcast shape"); break; }
            for (size_t i = 0; i < a.size(); i++) { Insn y{}; y.op = I_MOVE; y.dst = x.dst + i; y.a = a[i]; emit(y); }
            break; }
        case Instruction::SIToFP: case Instruction::UIToFP:
            x.op = I.getOpcode() == Instruction::SIToFP ? I_SITOFP : I_UITOFP; x.w = width(I.getType()); x.sub = width(I.getOperand(0)->getType()); x.a = val(I.getOperand(0)); emit(x); break;
        case Instruction::FPToSI: case Instruction::FPToUI:
            x.op = I.getOpcode() == Instruction::FPToSI ? I_FPTOSI : I_FPTOUI; x.w = width(I.getType()); x.sub = width(I.getOperand(0)->getType()); x.a = val(I.getOperand(0)); emit(x); break;
        case Instruction::FPExt: x.op = I_FPEXT; width(I.getType()); x.a = val(I.getOperand(0)); emit(x); break;
        case Instruction::FPTrunc: x.op = I_FPTRUNC; width(I.getOperand(0)->getType()); x.a = val(I.getOperand(0)); emit(x); break;
        case Instruction::Alloca: {
            auto& a = cast<AllocaInst>(I);
            x.op = I_ALLOCA; x.imm = DL->getTypeAllocSize(a.getAllocatedType()); x.extra = a.getAlign().value();
            x.a = val(a.getArraySize()); x.w = width(a.getArraySize()->getType()); emit(x); break; }
        case Instruction::Load: {
            auto& l = cast<LoadInst>(I);
            Type* t = l.getType();
            if (t->isAggregateType() || t->isVectorTy()) {
                std::vector<FlatElt> fe; if (!flatten(t, 0, fe)) { fail("load type"); break; }
                x.op = I_LOADAGG; x.a = val(l.getPointerOperand()); x.extra = r->aggs.size(); r->aggs.push_back(fe); emit(x); break;
            }
            x.op = I_LOAD; x.w = width(t); x.sub = DL->getTypeStoreSize(t); x.a = val(l.getPointerOperand()); emit(x); break; }
        case Instruction::Store: {
            auto& s = cast<StoreInst>(I);
            Type* t = s.getValueOperand()->getType();
            if (t->isAggregateType() || t->isVectorTy()) {
                std::vector<FlatElt> fe; if (!flatten(t, 0, fe)) { fail("store type"); break; }
                std::vector<int> v; vals(s.getValueOperand(), v);
                int p = val(s.getPointerOperand());
                for (size_t i = 0; i < fe.size(); i++) { Insn y{}; y.op = I_STORE; y.w = fe[i].w; y.sub = (fe[i].w + 7) / 8; y.a = p; y.b = v[i]; y.imm = fe[i].off; emit(y); }
                break;
            }
            if (isa<UndefValue>(s.getValueOperand())) { x.op = I_NOP; emit(x); break; }
            x.op = I_STORE; x.w = width(t); x.sub = DL->getTypeStoreSize(t); x.a = val(s.getPointerOperand()); x.b = val(s.getValueOperand()); emit(x); break; }
        case Instruction::GetElementPtr: {
            auto& g = cast<GetElementPtrInst>(I);
            if (g.getType()->isVectorTy()) { fail("vector gep"); break; }
            i64 off = 0; GepInfo gi;
            for (auto it = gep_type_begin(g); it != gep_type_end(g); ++it) {
                Value* op = it.getOperand();
                if (StructType* st = it.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue());
                else {
                    i64 es = DL->getTypeAllocSize(it.getIndexedType());
                    if (auto* ci = dyn_cast<ConstantInt>(op)) off += ci->getSExtValue() * es;
                    else { gi.idx.push_back({val(op), es}); gi.w.push_back(width(op->getType())); }
                }
            }
            x.op = I_GEP; x.a = val(g.getPointerOperand()); x.imm = off; x.sub = gi.idx.size();
            if (gi.idx.size() == 1) { x.b = gi.idx[0].first; x.c = (int)gi.idx[0].second; x.w = gi.w[0]; }
            x.extra = r->geps.size(); r->geps.push_back(gi); emit(x); break; }
        case Instruction::Select: {
            std::vector<int> t, f; vals(I.getOperand(1), t); vals(I.getOperand(2), f);
            if (I.getOperand(0)->getType()->isVectorTy()) { fail("vector select"); break; }
            std::vector<FlatElt> fe; flatten(I.getType(), 0, fe);
            int c = val(I.getOperand(0));
            for (size_t i = 0; i < t.size(); i++) { Insn y{}; y.op = I_SELECT; y.w = fe[i].w; y.dst = x.dst + i; y.a = c; y.b = t[i]; y.c = f[i]; emit(y); }
            break; }
        case Instruction::Br: {
            auto& b = cast<BranchInst>(I);
            if (b.isUnconditional()) { x.op = I_BR; x.a = edge(I.getParent(), b.getSuccessor(0)); }
            else { x.op = I_CONDBR; x.a = val(b.getCondition()); x.b = edge(I.getParent(), b.getSuccessor(0)); x.c = edge(I.getParent(), b.getSuccessor(1)); }
            emit(x); break; }
        case Instruction::Switch: {
            auto& s = cast<SwitchInst>(I);
            SwitchInfo si;
            for (auto& c : s.cases()) si.cases.push_back({c.getCaseValue()->getZExtValue(), edge(I.getParent(), c.getCaseSuccessor())});
            si.def = edge(I.getParent(), s.getDefaultDest());
            x.op = I_SWITCH; x.w = width(s.getCondition()->getType()); x.a = val(s.getCondition()); x.extra = r->sws.size(); r->sws.push_back(si); emit(x); break; }
        case Instruction::Ret: {
            x.op = I_RET; x.a = 0; x.sub = 0;
            if (I.getNumOperands()) {
                std::vector<int> v; vals(I.getOperand(0), v);
                x.sub = v.size();
                CallInfo ci; ci.args = v; x.extra = r->calls.size(); r->calls.push_back(ci);
            }
            emit(x); break; }
        case Instruction::Unreachable: x.op = I_UNREACH; emit(x); break;
        case Instruction::Resume: x.op = I_RESUME; x.a = val(I.getOperand(0)); emit(x); break;
        case Instruction::LandingPad: {
            auto& lp = cast<LandingPadInst>(I);
            LPad L; L.cleanup = lp.isCleanup(); L.dst = x.dst;
            for (unsigned i = 0; i < lp.getNumClauses(); i++) {
                if (lp.isCatch(i)) { bool ok = true; u64 v = constScalar(lp.getClause(i), ok); L.cl.push_back({true, v, false}); }
                else L.cl.push_back({false, 0, true});
            }
            x.op = I_LPAD; x.extra = r->lpads.size(); r->lpads.push_back(L); emit(x); break; }
        case Instruction::ExtractValue: {
            auto& e = cast<ExtractValueInst>(I);
            std::vector<int> a; vals(e.getAggregateOperand(), a);
            unsigned ix = flatIndex(e.getAggregateOperand()->getType(), e.getIndices());
            unsigned n = flatCount(I.getType());
            for (unsigned i = 0; i < n; i++) { Insn y{}; y.op = I_MOVE; y.dst = x.dst + i; y.a = a.at(ix + i); emit(y); }
            break; }
        case Instruction::InsertValue: {
            auto& e = cast<InsertValueInst>(I);
            std::vector<int> a, b; vals(e.getAggregateOperand(), a); vals(e.getInsertedValueOperand(), b);
            unsigned ix = flatIndex(e.getAggregateOperand()->getType(), e.getIndices());
            for (unsigned i = 0; i < a.size(); i++) { Insn y{}; y.op = I_MOVE; y.dst = x.dst + i; y.a = (i >= ix && i < ix + b.size()) ? b[i - ix] : a[i]; emit(y); }
            break; }
        case Instruction::ExtractElement: {
            auto* ci = dyn_cast<ConstantInt>(I.getOperand(1)); if (!ci) { fail("dyn extractelement"); break; }
            std::vector<int> a; vals(I.getOperand(0), a);
            x.op = I_MOVE; x.a = a.at(ci->getZExtValue()); emit(x); break; }
        case Instruction::InsertElement: {
            auto* ci = dyn_cast<ConstantInt>(I.getOperand(2)); if (!ci) { fail("dyn insertelement"); break; }
            std::vector<int> a; vals(I.getOperand(0), a); int b = val(I.getOperand(1));
            for (unsigned i = 0; i < a.size(); i++) { Insn y{}; y.op = I_MOVE; y.dst = x.dst + i; y.a = i == ci->getZExtValue() ? b : a[i]; emit(y); }
            break; }
        case Instruction::Fence: x.op = I_NOP; emit(x); break;
        case Instruction::AtomicCmpXchg: {
            auto& c = cast<AtomicCmpXchgInst>(I);
            x.op = I_CMPXCHG; x.w = width(c.getCompareOperand()->getType()); x.sub = DL->getTypeStoreSize(c.getCompareOperand()->getType());
            x.a = val(c.getPointerOperand()); x.b = val(c.getCompareOperand()); x.c = val(c.getNewValOperand()); emit(x); break; }
        case Instruction::AtomicRMW: {
            auto& c = cast<AtomicRMWInst>(I);
            x.op = I_RMW; x.w = width(c.getType()); x.sub = DL->getTypeStoreSize(c.getType()); x.imm = c.getOperation();
            x.a = val(c.getPointerOperand()); x.b = val(c.getValOperand()); emit(x); break; }
        case Instruction::Call: case Instruction::Invoke: {
            auto& cb = cast<CallBase>(I);
            if (cb.isInlineAsm()) { x.op = I_NOP; if (!I.getType()->isVoidTy()) { fail("inline asm"); break; } emit(x); break; }
            CallInfo ci;
            if (auto* inv = dyn_cast<InvokeInst>(&I)) {
                ci.invoke = true;
                ci.normal = edge(I.getParent(), inv->getNormalDest());
                ci.unwind = edge(I.getParent(), inv->getUnwindDest());
            }
            Value* cv = cb.getCalledOperand()->stripPointerCasts();
            if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
            if (auto* f = dyn_cast<Function>(cv)) {
                if (f->isIntrinsic()) {
                    switch (f->getIntrinsicID()) {
                    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
                    case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch:
                        if (!ci.invoke) { return; }
                        break;
                    default: break;
                    }
                }
                ci.callee = getFn(f);
            } else ci.fslot = val(cv);
            std::vector<FlatElt> fe;
            if (!flatten(I.getType(), 0, fe)) { fail("call ret type"); break; }
            ci.ret = fe; ci.isvoid = I.getType()->isVoidTy();
            ci.vararg = cb.getFunctionType()->isVarArg(); ci.nfixed = cb.getFunctionType()->getNumParams();
            for (unsigned i = 0; i < cb.arg_size(); i++) {
                Value* a = cb.getArgOperand(i);
                if (a->getType()->isMetadataTy()) continue;
                std::vector<int> v; std::vector<FlatElt> ae;
                if (!flatten(a->getType(), 0, ae)) { fail("arg type"); break; }
                vals(a, v);
                u32 bv = cb.isByValArgument(i) ? (u32)DL->getTypeAllocSize(cb.getParamByValType(i)) : 0;
                for (size_t k = 0; k < v.size(); k++) { ci.args.push_back(v[k]); ci.argw.push_back(ae[k].w); ci.argfp.push_back(ae[k].fp); ci.byval.push_back(bv); }
            }
            x.op = I_CALL; x.extra = r->calls.size(); r->calls.push_back(ci); emit(x); break; }
        default: fail(std::string("opcode ") + I.getOpcodeName());
        }
    }
};
static void lowerFn(FnRec* r) {
    if (!r->body || !r->code.empty() || !r->F) return;
    Lower L; L.r = r; L.F = r->F;
    L.run();
}

static void load_module(const std::string& path, LLVMContext& C) {
    SMDiagnostic err;
    M = parseIRFile(path, err, C);
    if (!M) { err.print("symex", errs()); exit(70); }
    DL = &M->getDataLayout();
    for (auto& g : M->globals()) {
        if (g.isDeclaration()) {
            void* p = g.getName() == "__dso_handle" ? (void*)64 : dlsym(RTLD_DEFAULT, g.getName().str().c_str());
            if (!p) { missing_globals.push_back(g.getName().str()); continue; }
            gaddr[&g] = (u64)p;
            continue;
        }
        if (g.getName().startswith("llvm.")) continue;
        u64 n = DL->getTypeAllocSize(g.getValueType());
        u64 al = g.getAlign() ? g.getAlign()->value() : 16;
        if (al < 16) al = 16;
        glob_top = (glob_top + al - 1) & ~(al - 1);
        gaddr[&g] = glob_top;
        memset(sh(glob_top), SH_INIT, n);
        glob_top += n + 32;
        if (glob_top > ABASE + GLOB_OFF + GLOB_SZ) { fprintf(stderr, "globals too big\n"); exit(70); }
    }
    for (auto& g : M->globals()) {
        if (g.isDeclaration() || g.getName().startswith("llvm.")) continue;
        u64 a = gaddr[&g];
        if (g.hasInitializer() && !writeConst(g.getInitializer(), a)) { fprintf(stderr, "ENGINE-ERROR global init %s\n", g.getName().str().c_str()); }
        if (g.isConstant()) memset(sh(a), SH_RO, DL->getTypeAllocSize(g.getValueType()));
    }
}
