// ------------------------------------------------------------------ precompiled functions
struct Ins {
    unsigned op; int dst = -1; unsigned w = 0; vector<int> ops; const Instruction *I = nullptr;
    i64 gc = 0; vector<std::pair<int, i64>> gidx; int pred = 0; Function *callee = nullptr; u64 size = 0; string intr;
    int bbs[2] = {-1, -1};
};
struct Phi { int dst; vector<std::pair<int, int>> in; }; // (pred block, operand)
struct BB { vector<Phi> phis; vector<Ins> ins; int loopHeader = -1; bool dead = false; int ipdom = -1; vector<int> succs; vector<int> loops; };
struct LoopI { int header; std::set<int> blocks; bool candidate = false; int fails = 0; int latch = -1; };
struct Fn {
    Function *F; vector<BB> bbs; int nslots = 0; vector<int> argSlots; vector<LoopI> loops; vector<Constant *> consts; vector<Id> constIds; vector<char> constOk; string dem; bool done = false; int entry = 0;
};
static std::unique_ptr<Module> M; static const DataLayout *DL;
static std::unordered_map<const Function *, std::unique_ptr<Fn>> fns;
static std::unordered_map<const Function *, Function *> replaced;
static std::unordered_map<const GlobalVariable *, uint32_t> gvObj; static std::unordered_map<const Function *, uint32_t> fnIdx; static vector<const Function *> fnList;
static std::unordered_map<const GlobalVariable *, vector<Function *>> gvCtors; static std::set<Function *> ctorsRun;

static unsigned tw(Type *t)
{
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isDoubleTy() || t->isFloatTy()) return W_REAL;
    if (t->isPointerTy()) return 64;
    if (t->isStructTy() || t->isArrayTy()) return W_AGG;
    if (t->isVoidTy()) return 0;
    string s; raw_string_ostream os(s); t->print(os); throw Unsupported("type " + os.str());
}
static Id constId(Constant *c);
static uint32_t gvObject(const GlobalVariable *g)
{
    auto it = gvObj.find(g); if (it != gvObj.end()) return it->second;
    u64 sz = g->getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g->getValueType()) : 0;
    uint32_t o = newObj(sz, "global " + g->getName().str()); objs[o].gv = g; gvObj[g] = o; return o;
}
static void initFrom(uint32_t o, u64 off, Constant *c)
{
    Type *t = c->getType(); u64 sz = DL->getTypeAllocSize(t);
    if (isa<UndefValue>(c)) return;
    if (c->isNullValue() && (t->isArrayTy() || t->isStructTy())) {
        // zero fill: choose the scalar element width
        std::function<Type *(Type *)> el = [&](Type *x) -> Type * { if (x->isArrayTy()) return el(x->getArrayElementType()); if (auto *st = dyn_cast<StructType>(x)) return st->getNumElements() ? el(st->getElementType(0)) : nullptr; return x; };
        Type *e = el(t); uint32_t es = e ? (uint32_t)DL->getTypeStoreSize(e) : 1; if (!es || sz % es) es = 1; if (es > 16) es = 1;
        unsigned w = e && (e->isDoubleTy()) ? W_REAL : es * 8;
        if (sz) setSlot(o, off, {sz, es, w, D.nodeN(B_LAM, W_BLOCK, w, {D.cst(w, 0)}), 0});
        return;
    }
    if (auto *a = dyn_cast<ConstantDataSequential>(c)) { u64 es = a->getElementByteSize(); for (unsigned i = 0; i < a->getNumElements(); i++) initFrom(o, off + i * es, a->getElementAsConstant(i)); return; }
    if (auto *a = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initFrom(o, off + i * es, a->getOperand(i)); return; }
    if (auto *s = dyn_cast<ConstantStruct>(c)) { auto *L = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) initFrom(o, off + L->getElementOffset(i), s->getOperand(i)); return; }
    Id v = constId(c); u64 ss = DL->getTypeStoreSize(t);
    if (D[v].w == 1) v = D.zext(v, 8);
    setSlot(o, off, {ss, 0, D[v].w, v, 0});
}
static Id callFunction(Function *F, vector<Id> args);
static void ensureGlobal(uint32_t o)
{
    if (objs[o].gvInit) return;
    const GlobalVariable *g = objs[o].gv;
    bool hasCtor = false; auto it = gvCtors.find(g);
    if (it != gvCtors.end()) for (auto *f : it->second) if (!ctorsRun.count(f)) hasCtor = true;
    if (inMap && hasCtor) throw MapAbort{"global init"};
    objs[o].gvInit = true;
    bool sj = journaling; journaling = false;
    if (g->hasInitializer()) { auto *c = const_cast<Constant *>(g->getInitializer()); initFrom(o, 0, c); }
    if (hasCtor) {
        bool sf = frameOn; frameOn = false; auto pc = PC; auto kn = known; PC.clear(); known.clear(); auto sm = inMap; inMap = false; u64 a = D.klo, b = D.khi; D.klo = D.khi = 0;
        for (auto *f : it->second) if (ctorsRun.insert(f).second) callFunction(f, {});
        frameOn = sf; PC = pc; known = kn; inMap = sm; D.klo = a; D.khi = b;
    }
    journaling = sj;
    if (g->isConstant()) objs[o].ro = true;
}
static uint32_t fnIndex(const Function *f) { auto it = fnIdx.find(f); if (it != fnIdx.end()) return it->second; fnList.push_back(f); return fnIdx[f] = fnList.size() - 1; }
static Id gepConst(Id base, i64 off) { const Node n = D[base]; if (n.op == O_PTR) return mkPtr((uint32_t)n.k, D.add(n.a[0], D.cst(64, (u128)(i128)off))); return D.add(base, D.cst(64, (u128)(i128)off)); }
static Id constId(Constant *c)
{
    Type *t = c->getType();
    if (auto *ci = dyn_cast<ConstantInt>(c)) { auto &v = ci->getValue(); if (v.getBitWidth() > 128) throw Unsupported("wide int"); u128 x = v.getRawData()[0]; if (v.getBitWidth() > 64) x |= (u128)v.getRawData()[1] << 64; return D.cst(v.getBitWidth(), x); }
    if (auto *cf = dyn_cast<ConstantFP>(c)) { if (t->isDoubleTy()) return D.real(cf->getValueAPF().convertToDouble()); if (t->isFloatTy()) return D.real(cf->getValueAPF().convertToFloat()); throw Unsupported("fp const"); }
    if (isa<ConstantPointerNull>(c)) return D.cst(64, 0);
    if (auto *g = dyn_cast<GlobalVariable>(c)) return mkPtr(gvObject(g), D.cst(64, 0));
    if (auto *f = dyn_cast<Function>(c)) return D.nodeN(O_FN, 64, fnIndex(f), {});
    if (auto *al = dyn_cast<GlobalAlias>(c)) return constId(al->getAliasee());
    if (isa<UndefValue>(c)) { if (tw(t) == W_AGG) { vector<Id> v; unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements(); for (unsigned i = 0; i < n; i++) v.push_back(constId(UndefValue::get(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType()))); return D.nodeN(O_AGG, W_AGG, 0, v); } return undefOf(tw(t)); }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        if (ce->getOpcode() == Instruction::GetElementPtr) { APInt off(64, 0); if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) return gepConst(constId(ce->getOperand(0)), off.getSExtValue()); }
        if (ce->getOpcode() == Instruction::BitCast || ce->getOpcode() == Instruction::AddrSpaceCast) return constId(ce->getOperand(0));
        if (ce->getOpcode() == Instruction::PtrToInt) return toBits(constId(ce->getOperand(0)), 64);
        if (ce->getOpcode() == Instruction::Sub) return D.sub(constId(ce->getOperand(0)), constId(ce->getOperand(1)));
        throw Unsupported("constexpr " + string(ce->getOpcodeName()));
    }
    if (c->isNullValue() || isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
        vector<Id> v; unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
        for (unsigned i = 0; i < n; i++) v.push_back(constId(c->getAggregateElement(i)));
        return D.nodeN(O_AGG, W_AGG, 0, v);
    }
    throw Unsupported("constant kind");
}
static Fn &getFn(Function *F)
{
    auto &p = fns[F]; if (p) return *p;
    p = std::make_unique<Fn>(); Fn &f = *p; f.F = F; f.dem = llvm::demangle(F->getName().str());
    DominatorTree DT(*F); LoopInfo LI(DT);
    std::unordered_map<const Value *, int> slot; std::unordered_map<const BasicBlock *, int> bi;
    for (auto &a : F->args()) { slot[&a] = f.nslots; f.argSlots.push_back(f.nslots++); }
    for (auto &b : *F) { bi[&b] = f.bbs.size(); f.bbs.emplace_back(); for (auto &i : b) if (!i.getType()->isVoidTy()) slot[&i] = f.nslots++; }
    std::unordered_map<const Value *, int> cidx;
    auto opnd = [&](Value *v) -> int {
        auto it = slot.find(v); if (it != slot.end()) return it->second;
        if (auto *c = dyn_cast<Constant>(v)) { auto jt = cidx.find(c); if (jt != cidx.end()) return jt->second; f.consts.push_back(c); int k = -(int)f.consts.size(); cidx[c] = k; return k; }
        return INT32_MIN; // metadata / asm
    };
    for (auto &b : *F) {
        BB &B = f.bbs[bi[&b]];
        for (auto &i : b) {
            if (auto *ph = dyn_cast<PHINode>(&i)) { Phi q; q.dst = slot[ph]; for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) q.in.push_back({bi[ph->getIncomingBlock(k)], opnd(ph->getIncomingValue(k))}); B.phis.push_back(q); continue; }
            if (isa<DbgInfoIntrinsic>(&i)) continue;
            Ins x; x.op = i.getOpcode(); x.I = &i; if (!i.getType()->isVoidTy()) { x.dst = slot[&i]; try { x.w = tw(i.getType()); } catch (Unsupported &) { x.w = 255; } }
            if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
                x.ops.push_back(opnd(g->getPointerOperand()));
                for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
                    Value *ix = gti.getOperand();
                    if (auto *st = gti.getStructTypeOrNull()) { x.gc += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                    i64 sc = DL->getTypeAllocSize(gti.getIndexedType());
                    if (auto *ci = dyn_cast<ConstantInt>(ix)) x.gc += ci->getSExtValue() * sc; else x.gidx.push_back({opnd(ix), sc});
                }
            }
            else if (auto *cb = dyn_cast<CallBase>(&i)) {
                for (auto &a : cb->args()) x.ops.push_back(opnd(a.get()));
                x.callee = cb->getCalledFunction();
                if (!x.callee) { if (auto *al = dyn_cast<GlobalAlias>(cb->getCalledOperand())) x.callee = dyn_cast<Function>(al->getAliasee()); }
                if (!x.callee) x.gidx.push_back({opnd(cb->getCalledOperand()), 0});
                if (auto *iv = dyn_cast<InvokeInst>(&i)) { x.bbs[0] = bi[iv->getNormalDest()]; }
            }
            else {
                for (auto &o : i.operands()) { if (isa<BasicBlock>(o.get())) x.ops.push_back(INT32_MIN); else x.ops.push_back(opnd(o.get())); }
            }
            if (auto *ld = dyn_cast<LoadInst>(&i)) x.size = DL->getTypeStoreSize(ld->getType());
            if (auto *st = dyn_cast<StoreInst>(&i)) x.size = DL->getTypeStoreSize(st->getValueOperand()->getType());
            if (auto *al = dyn_cast<AllocaInst>(&i)) x.size = DL->getTypeAllocSize(al->getAllocatedType());
            if (auto *cm = dyn_cast<CmpInst>(&i)) x.pred = cm->getPredicate();
            if (auto *br = dyn_cast<BranchInst>(&i)) { x.bbs[0] = bi[br->getSuccessor(0)]; if (br->isConditional()) { x.bbs[1] = bi[br->getSuccessor(1)]; x.ops = {opnd(br->getCondition())}; } }
            B.ins.push_back(x);
        }
        auto *T = b.getTerminator();
        if (auto *iv = dyn_cast<InvokeInst>(T)) B.succs.push_back(bi[iv->getNormalDest()]);
        else for (unsigned k = 0; k < T->getNumSuccessors(); k++) B.succs.push_back(bi[T->getSuccessor(k)]);
    }
    int n = f.bbs.size();
    // blocks that cannot reach a return
    vector<vector<int>> preds(n); for (int i = 0; i < n; i++) for (int s : f.bbs[i].succs) preds[s].push_back(i);
    vector<char> ok(n, 0); vector<int> st; for (int i = 0; i < n; i++) if (f.bbs[i].ins.size() && f.bbs[i].ins.back().op == Instruction::Ret) { ok[i] = 1; st.push_back(i); }
    while (!st.empty()) { int x = st.back(); st.pop_back(); for (int q : preds[x]) if (!ok[q]) { ok[q] = 1; st.push_back(q); } }
    for (int i = 0; i < n; i++) f.bbs[i].dead = !ok[i];
    // post-dominators (bitsets), over live blocks
    int exitN = n; vector<vector<char>> pd(n + 1, vector<char>(n + 1, 1)); for (int j = 0; j <= n; j++) pd[exitN][j] = j == exitN;
    bool ch = true;
    if (n <= 400) {
        while (ch) {
            ch = false;
            for (int i = n - 1; i >= 0; i--) {
                if (!ok[i]) continue;
                vector<char> nw(n + 1, 1); bool any = false;
                if (f.bbs[i].ins.back().op == Instruction::Ret) { nw = pd[exitN]; any = true; }
                for (int s : f.bbs[i].succs) if (ok[s]) { if (!any) nw = pd[s]; else for (int j = 0; j <= n; j++) nw[j] &= pd[s][j]; any = true; }
                nw[i] = 1;
                if (nw != pd[i]) { pd[i] = nw; ch = true; }
            }
        }
        for (int i = 0; i < n; i++) if (ok[i]) {
            // immediate: the strict postdominator that is postdominated by all others
            int best = -1, bc = -1; for (int j = 0; j < n; j++) if (j != i && pd[i][j] && ok[j]) { int c = 0; for (int q = 0; q <= n; q++) c += pd[j][q]; if (c > bc) { bc = c; best = j; } }
            f.bbs[i].ipdom = best;
        }
    }
    // loops
    for (auto *L : LI.getLoopsInPreorder()) {
        LoopI l; l.header = bi[L->getHeader()]; for (auto *b : L->blocks()) l.blocks.insert(bi[b]);
        auto *lat = L->getLoopLatch(); l.latch = lat ? bi[lat] : -1;
        bool cand = lat != nullptr;
        // only exit: header (exits to dead blocks ignored)
        for (int b : l.blocks) for (int s : f.bbs[b].succs) if (!l.blocks.count(s) && b != l.header && ok[s]) cand = false;
        auto &H = f.bbs[l.header];
        if (cand) { auto &t = H.ins.back(); cand = t.op == Instruction::Br && t.bbs[1] >= 0 && (l.blocks.count(t.bbs[0]) != l.blocks.count(t.bbs[1])); }
        if (cand) for (auto &x : H.ins) if (x.op == Instruction::Load || x.op == Instruction::Store || x.op == Instruction::Call || x.op == Instruction::Invoke || x.op == Instruction::Alloca) { cand = false; }
        if (cand) { // header values used outside the loop other than through phis are fine (recomputed)
            for (auto &ph : L->getHeader()->phis()) {
                Value *nx = ph.getIncomingValueForBlock(lat); bool good = false;
                if (auto *bo = dyn_cast<BinaryOperator>(nx)) good = (bo->getOpcode() == Instruction::Add && bo->getOperand(0) == &ph && isa<ConstantInt>(bo->getOperand(1)));
                if (auto *g = dyn_cast<GetElementPtrInst>(nx)) good = g->getPointerOperand() == &ph && g->hasAllConstantIndices();
                if (nx == &ph) good = true;
                if (!good) cand = false;
            }
            // body values live out of the loop (other than header) are not supported
            for (auto *b : L->blocks()) if (b != L->getHeader()) for (auto &i : *b) for (auto *u : i.users()) if (auto *ui = dyn_cast<Instruction>(u)) if (!L->contains(ui)) cand = false;
        }
        l.candidate = cand; f.bbs[l.header].loopHeader = f.loops.size(); f.loops.push_back(l);
    }
    f.constIds.resize(f.consts.size()); f.constOk.resize(f.consts.size());
    return f;
}
// ------------------------------------------------------------------ execution
struct Frame { Fn *f; vector<Id> v; vector<uint32_t> allocas; };
struct Arrive { bool dead = false, returned = false; Id ret = 0; vector<Id> phis; int from = -1; };
static int callDepth = 0;

static inline Id val(Frame &F, int o)
{
    if (o >= 0) return F.v[o];
    if (o == INT32_MIN) throw Unsupported("operand");
    size_t k = -o - 1;
    if (!F.f->constOk[k]) { Id i = constId(F.f->consts[k]); if (isa<UndefValue>(F.f->consts[k])) return i; F.f->constIds[k] = i; F.f->constOk[k] = 1; }
    return F.f->constIds[k];
}
static bool feasibleLeaf(Id sp, u128 v)
{
    for (Id c : PC) if (D[c].supp == sp) { std::unordered_map<Id, u128> env; env[sp] = v; u128 o; if (D.ceval(c, env, o) && !o) return false; }
    return true;
}
static int decide(Id c)
{
    if (c == D.TRUE_) return 1;
    if (c == D.FALSE_) return 0;
    if (known.count(c) && known[c] > 0) return 1;
    Id nc = D.bnot(c); auto it = known.find(nc); if (it != known.end() && it->second > 0) return 0;
    Id sp = D[c].supp;
    if (sp != SUPP_MANY && sp != SUPP_NONE) {
        Node x = D[sp]; bool useU = x.uhi - x.ulo <= 15; i128 lo = useU ? (i128)x.ulo : x.slo, hi = useU ? (i128)x.uhi : x.shi; int r = -2;
        for (i128 v = lo; v <= hi; v++) {
            u128 uv = (u128)v & D.rmask(x.w);
            if (!feasibleLeaf(sp, uv)) continue;
            std::unordered_map<Id, u128> env; env[sp] = uv; u128 o;
            if (!D.ceval(c, env, o)) return -1;
            if (r == -2) r = o ? 1 : 0; else if (r != (o ? 1 : 0)) return -1;
        }
        return r == -2 ? -1 : r;
    }
    if ((D[c].flags & 1) && D.khi > D.klo && D.khi - D.klo <= 16384) {
        bool a, b; if (!evalK(c, D.klo, a)) return -1;
        if (!evalK(c, D.khi - 1, b) || a != b) return -1;
        for (u64 k = D.klo + 1; k < D.khi; k++) if (!evalK(c, k, b) || b != a) return -1;
        return a;
    }
    return -1;
}
// address decomposition in map mode
static bool addrK(Id off, i64 &c0, i64 &s)
{
    const Node &n = D[off];
    if (n.op == O_CONST) { c0 = (i64)(u64)n.k; s = 0; return true; }
    if (off == D.KV) { c0 = 0; s = 1; return true; }
    if (n.op == O_POLY && n.n == 1 && n.t[0].m == D.KV) { c0 = (i64)(u64)n.k; s = (i64)(u64)n.t[0].c; return true; }
    return false;
}
static u64 nMemChecks;
static void boundsCheck(uint32_t o, i64 lo, i64 hi, const char *what)
{
    nMemChecks++;
    if (!objs[o].alive) oblig(D.FALSE_, string("access to freed object ") + objs[o].name, "memory");
    if (lo < 0 || (u64)hi > objs[o].size) {
        if (inMap) throw MapAbort{"bounds"};
        { size_t f0 = nFail; oblig(D.FALSE_, string(what) + " out of bounds of " + objs[o].name + " [" + std::to_string(lo) + "," + std::to_string(hi) + ") size " + std::to_string(objs[o].size), "memory"); if (nFail == f0) throw Unsupported("infeasible access under an unresolved path condition"); }
        throw StopProof();
    }
}
static bool iterLocal(uint32_t o) { return !inMap || o >= mapObjStart || objs[o].iterLocal; }
static bool isFrozenStack = false;
static void splitOn(Id off, const std::function<void(Id cond, Id newOff)> &cb);
static void hull(const MapStore &m, i64 &a, i64 &b) { a = m.c0; b = m.c0 + m.s * (i64)(mapN - 1); if (a > b) std::swap(a, b); b += m.size; }
static Id load(uint32_t o, Id off, u64 size, unsigned w);
static Id loadFrom(Id p, u64 size, unsigned w)
{
    Node n = D[p];
    if (n.op != O_PTR) {
        if (n.op == O_CONST && n.k == 0) { oblig(D.FALSE_, "null dereference", "memory"); throw StopProof(); }
        if (n.op == O_CONST) { u64 a = (u64)n.k; u64 o = (a >> 36) - 1; if (o < objs.size()) return load(o, D.cst(64, a & ((1ull << 36) - 1)), size, w); }
        throw Unsupported("load through non-pointer " + D.str(p, 4));
    }
    return load((uint32_t)n.k, n.a[0], size, w);
}
static Id findSplit(Id off)
{
    u128 k; const Term *t; uint32_t n; Term tm; D.terms(off, k, t, n, tm);
    for (uint32_t i = 0; i < n; i++) {
        Id m = t[i].m; Node mn = D[m]; vector<Id> fs; if (mn.op == O_MONO) fs.assign(mn.a, mn.a + mn.n); else fs.push_back(m);
        for (Id f : fs) { if (D[f].op == O_IND) return f; Id sp = D[f].supp; if (sp != SUPP_MANY && sp != SUPP_NONE) return sp; }
    }
    return 0xffffffffu;
}
// medium-size leaf: unique non-K atom with a bounded range
static bool mediumLeaf(Id off, Id &leaf, u128 &lo, u128 &hi)
{
    u128 k; const Term *t; uint32_t n; Term tm; D.terms(off, k, t, n, tm);
    if (n != 1) return false;
    leaf = t[0].m; const Node &x = D[leaf]; if (leaf == D.KV || x.w > 64) return false;
    lo = x.ulo; hi = x.uhi; return hi - lo <= 4096;
}
static Id load(uint32_t o, Id off, u64 size, unsigned w)
{
    if (objs[o].gv) ensureGlobal(o);
    i64 c0, s;
    if (!addrK(off, c0, s)) {
        Id sp = findSplit(off);
        if (sp != 0xffffffffu) {
            Node x = D[sp];
            if (x.op == O_IND) {
                Id c = x.a[0]; int d = decide(c);
                Id o1 = D.subst(off, sp, D.cst(64, 1)), o0 = D.subst(off, sp, D.cst(64, 0));
                if (d == 1) return load(o, o1, size, w);
                if (d == 0) return load(o, o0, size, w);
                u64 a = D.klo, b = D.khi; Id r1, r0;
                auto under = [&](Id cc, Id oo) { pushPC(cc); u64 lo = a, hi = b; if (D[cc].flags & 1) { bool q; while (lo < hi && evalK(cc, lo, q) && !q) lo++; while (hi > lo && evalK(cc, hi - 1, q) && !q) hi--; } D.klo = lo; D.khi = hi; Id r; try { r = load(o, oo, size, w); } catch (...) { D.klo = a; D.khi = b; popPC(); throw; } D.klo = a; D.khi = b; popPC(); return r; };
                r1 = under(c, o1); r0 = under(D.bnot(c), o0);
                return D.ite(c, r1, r0);
            }
            bool useU = x.uhi - x.ulo <= 15; i128 lo = useU ? (i128)x.ulo : x.slo, hi = useU ? (i128)x.uhi : x.shi;
            vector<std::pair<u128, Id>> cs;
            for (i128 v = lo; v <= hi; v++) {
                u128 uv = (u128)v & D.rmask(x.w); if (!feasibleLeaf(sp, uv)) continue;
                Id cv = D.cst(x.w, uv); Id c = D.eq(sp, cv); pushPC(c); Id r; try { r = load(o, D.subst(off, sp, cv), size, w); } catch (...) { popPC(); throw; } popPC(); cs.push_back({uv, r});
            }
            if (cs.empty()) throw Unsupported("no feasible index");
            Id r = cs.back().second;
            if (D[r].op == O_PTR || D[r].op == O_FN) { for (auto &c : cs) if (c.second != r) throw Unsupported("pointer table"); return r; }
            if (w == 1) { for (size_t i = 0; i + 1 < cs.size(); i++) r = D.ite(D.eq(sp, D.cst(x.w, cs[i].first)), cs[i].second, r); return r; }
            // disjoint sum over feasible values
            Id sum = D.cst(D[r].w, 0);
            for (auto &c : cs) sum = D.add(sum, D.mul(D.ind(D[r].w, D.eq(sp, D.cst(x.w, c.first))), c.second));
            return cs.size() == 1 ? r : sum;
        }
        if (inMap) {
            // piecewise linear in the iteration index: split the index range
            vector<std::array<i64, 4>> seg; // lo, hi, c0, s
            if ((D[off].flags & 1) && D.khi > D.klo && D.khi - D.klo <= 70000) {
                auto at = [&](u64 k, i64 &r) { std::unordered_map<Id, u128> env; env[D.KV] = k; u128 v; if (!D.ceval(off, env, v)) return false; r = (i64)(u64)v; return true; };
                u64 lo = D.klo, hi = D.khi; bool ok = true; i64 v;
                for (u64 k = lo; k < hi && ok;) {
                    i64 v0, v1; if (!at(k, v0)) { ok = false; break; }
                    if (k + 1 == hi) { seg.push_back({(i64)k, (i64)hi, v0, 0}); break; }
                    if (!at(k + 1, v1)) { ok = false; break; }
                    i64 st = v1 - v0; u64 e = k + 2; while (e < hi && at(e, v) && v == v0 + st * (i64)(e - k)) e++;
                    if (e == k + 2 && e < hi) { i64 v2; at(k + 2, v2); i64 v3; if (e + 1 < hi && at(e + 1, v3) && v3 - v2 == v2 - v1) { e = k + 1; st = 0; } }
                    seg.push_back({(i64)k, (i64)e, v0 - st * (i64)k, st}); k = e; if (seg.size() > 8) ok = false;
                }
                if (!ok) seg.clear();
            }
            if (seg.empty()) throw MapAbort{"symbolic load address"};
            u64 lo = D.klo, hi = D.khi; Id r = 0; bool first = true;
            struct Rst { u64 a, b; ~Rst() { D.klo = a; D.khi = b; } } rst{lo, hi};
            for (size_t i = seg.size(); i-- > 0;) {
                auto &g = seg[i]; D.klo = g[0]; D.khi = g[1];
                Id no = D.add(D.scale(D.KV, (u128)(i128)g[3] & D.rmask(64)), D.cst(64, (u128)(i128)g[2]));
                Id x = load(o, no, size, w); D.klo = lo; D.khi = hi;
                r = first ? x : D.ite(D.ult(D.KV, D.cst(64, g[1])), x, r); first = false;
            }
            return r;
        }
        // general symbolic index into a single-block object
        if (objs[o].e.size() == 1 && objs[o].e.begin()->second.esz == size) {
            const Entry e = objs[o].e.begin()->second; u64 eo = objs[o].e.begin()->first;
            Id rel = D.sub(off, D.cst(64, eo)); u128 k; const Term *t; uint32_t n; Term tm; D.terms(rel, k, t, n, tm);
            bool dv = D.sgn(64, k) % (i128)size == 0; vector<Term> r; for (uint32_t i = 0; i < n; i++) { i128 c = D.sgn(64, t[i].c); if (c % (i128)size) dv = false; r.push_back({(u128)(c / (i128)size) & D.rmask(64), t[i].m}); }
            if (dv) {
                oblig(D.bnot(D.ult(D.cst(64, eo + e.len - size), off)), "load in bounds of " + objs[o].name, "memory");
                Id idx = D.poly(64, (u128)(D.sgn(64, k) / (i128)size) & D.rmask(64), r);
                Id v = D.sel(e.val, D.add(idx, D.cst(64, e.start)), e.w);
                return realw(w) ? toReal(v) : v;
            }
        }
        Id leaf; u128 lo, hi;
        if (mediumLeaf(off, leaf, lo, hi)) {
            Id r = 0xffffffffu; unsigned lw = D[leaf].w;
            for (u128 v = lo; v <= hi; v++) {
                Id no = D.subst(off, leaf, D.cst(lw, v)); i64 a = (i64)(u64)D.cv(no);
                Id c = D.eq(leaf, D.cst(lw, v)); int d = decide(c); if (d == 0) continue;
                if (a < 0 || (u64)a + size > objs[o].size) { oblig(D.bnot(c), "load in bounds of " + objs[o].name, "memory"); continue; }
                Id x = readScalar(o, a, size, w); r = r == 0xffffffffu ? x : D.ite(c, x, r);
            }
            if (r != 0xffffffffu) return r;
        }
        throw Unsupported("symbolic load address " + D.str(off, 5) + " in " + objs[o].name);
    }
    if (!inMap || iterLocal(o)) {
        if (s != 0) throw MapAbort{"K address in local"};
        boundsCheck(o, c0, c0 + (i64)size, "load");
        return readScalar(o, c0, size, w);
    }
    // map mode, outer object
    if (s == 0) {
        boundsCheck(o, c0, c0 + size, "load");
        for (auto &m : mstores) if (m.obj == o) { i64 a, b; hull(m, a, b); if (c0 < b && c0 + (i64)size > a) throw MapAbort{"loop-carried load"}; }
        mloads.push_back({o, c0, c0 + (i64)size, c0, 0, (uint32_t)size});
        return readScalar(o, c0, size, w);
    }
    for (auto &m : mstores) if (m.obj == o) {
        if (m.c0 == c0 && m.s == s && m.size == size) { Id v = m.val; if (realw(w)) return toReal(v); if (D[v].w == W_REAL) return toBits(v, size * 8); return v; }
    }
    i64 l0 = c0 + s * (i64)D.klo, l1 = c0 + s * (i64)(D.khi - 1); if (l0 > l1) std::swap(l0, l1); l1 += size;
    for (auto &m : mstores) if (m.obj == o) {
        i64 a, b; hull(m, a, b);
        if (l0 < b && l1 > a) {
            if (m.s == s && s > 0) { i64 d = ((c0 - m.c0) % s + s) % s; if (d >= m.size && d + (i64)size <= s) continue; }
            throw MapAbort{"overlapping load"};
        }
    }
    boundsCheck(o, l0, l1, "load");
    mloads.push_back({o, l0, l1, c0, s, (uint32_t)size});
    // find/construct the covering block
    {
        auto &m = objs[o].e; auto it = m.upper_bound(l0);
        if (it != m.begin()) {
            --it; const Entry e = it->second; i64 eo = it->first;
            if (e.esz == size && l1 <= eo + (i64)e.len && (c0 - eo) % (i64)size == 0 && s % (i64)size == 0) {
                Id idx = D.add(D.scale(D.KV, (u128)(i128)(s / (i64)size) & D.rmask(64)), D.cst(64, (u128)(i128)((c0 - eo) / (i64)size + (i64)e.start)));
                Id v = D.sel(e.val, idx, e.w); if (realw(w)) return toReal(v); if (D[v].w == W_REAL) return toBits(v, size * 8); return v;
            }
        }
        if (s % (i64)size) throw MapAbort{"stride"};
        u64 cnt = (l1 - l0) / size; unsigned ew = realw(w) ? (unsigned)W_REAL : size * 8;
        if (cnt > 70000) throw MapAbort{"large snapshot"};
        for (u64 i = 0; i < cnt; i++) { auto kt = objs[o].e.upper_bound(l0 + i * size); if (kt == objs[o].e.begin()) throw MapAbort{"uninit"}; --kt; if (kt->second.esz) { i64 nx = kt->first + kt->second.len; if (nx > l0 + (i64)(i * size)) i = (nx - l0) / size - 1; else throw MapAbort{"uninit"}; } }
        Id b = snapshot(o, l0, cnt, size, ew);
        // memory representation change only (same contents): speeds later accesses up
        bool fo = frameOn; frameOn = false; bool ro = objs[o].ro; objs[o].ro = false;
        if (D[b].op == B_PW && !isFrozenStack) { clearRange(o, l0, cnt * size); setSlot(o, l0, {cnt * size, (uint32_t)size, ew, b, 0}); }
        frameOn = fo; objs[o].ro = ro;
        Id idx = D.add(D.scale(D.KV, (u128)(i128)(s / (i64)size) & D.rmask(64)), D.cst(64, (u128)(i128)((c0 - l0) / (i64)size)));
        Id v = D.sel(b, idx, ew);
        if (realw(w)) return toReal(v); if (D[v].w == W_REAL) return toBits(v, size * 8); return v;
    }
}
static void store(uint32_t o, Id off, u64 size, Id v)
{
    const Id v_ = v;
    if (D[v].w == 1) v = D.zext(v, size * 8);
    i64 c0, s;
    if (!addrK(off, c0, s)) {
        if (inMap) { // linear in the iteration index all the same?
            bool ok = (D[off].flags & 1) && D.khi > D.klo + 1 && D.khi - D.klo <= 70000; i64 v0 = 0, v1 = 0, v;
            auto at = [&](u64 k, i64 &r) { std::unordered_map<Id, u128> env; env[D.KV] = k; u128 q; if (!D.ceval(off, env, q)) return false; r = (i64)(u64)q; return true; };
            ok = ok && at(D.klo, v0) && at(D.klo + 1, v1); for (u64 k = D.klo + 2; ok && k < D.khi; k++) ok = at(k, v) && v == v0 + (v1 - v0) * (i64)(k - D.klo);
            if (!ok) throw MapAbort{"symbolic store"};
            store(o, D.add(D.scale(D.KV, (u128)(i128)(v1 - v0) & D.rmask(64)), D.cst(64, (u128)(i128)(v0 - (v1 - v0) * (i64)D.klo) & D.rmask(64))), size, v_); return;
        }
        Id sp = findSplit(off);
        if (sp != 0xffffffffu) {
            Node x = D[sp]; vector<std::pair<Id, Id>> alts;
            if (x.op == O_IND) { alts.push_back({x.a[0], D.subst(off, sp, D.cst(64, 1))}); alts.push_back({D.bnot(x.a[0]), D.subst(off, sp, D.cst(64, 0))}); }
            else { bool useU = x.uhi - x.ulo <= 15; i128 lo = useU ? (i128)x.ulo : x.slo, hi = useU ? (i128)x.uhi : x.shi; for (i128 q = lo; q <= hi; q++) { u128 uv = (u128)q & D.rmask(x.w); if (!feasibleLeaf(sp, uv)) continue; Id cv = D.cst(x.w, uv); alts.push_back({D.eq(sp, cv), D.subst(off, sp, cv)}); } }
            for (auto &a : alts) {
                int d = decide(a.first); if (d == 0) continue;
                pushPC(a.first); Id old = load(o, a.second, size, D[v].w); popPC();
                store(o, a.second, size, d == 1 ? v : D.ite(a.first, v, old));
            }
            return;
        }
        Id leaf; u128 lo, hi;
        if (mediumLeaf(off, leaf, lo, hi)) {
            unsigned lw = D[leaf].w;
            for (u128 q = lo; q <= hi; q++) {
                Id no = D.subst(off, leaf, D.cst(lw, q)); i64 a = (i64)(u64)D.cv(no); Id c = D.eq(leaf, D.cst(lw, q)); if (decide(c) == 0) continue;
                if (a < 0 || (u64)a + size > objs[o].size) { oblig(D.bnot(c), "store in bounds of " + objs[o].name, "memory"); continue; }
                writeScalar(o, a, size, D.ite(c, v, readScalar(o, a, size, D[v].w)));
            }
            return;
        }
        throw Unsupported("symbolic store address");
    }
    if (!inMap || iterLocal(o)) {
        if (s != 0) throw MapAbort{"K address in local"};
        boundsCheck(o, c0, c0 + (i64)size, "store"); writeScalar(o, c0, size, v); return;
    }
    if (s == 0) throw MapAbort{"store to loop-invariant address"};
    if (objs[o].gv) ensureGlobal(o);
    if (objs[o].ro) throw MapAbort{"ro"};
    if (s < (i64)size && s != -(i64)size) throw MapAbort{"overlapping stride"};
    i64 a0, b0; { MapStore q{o, c0, s, (uint32_t)size, v, D[v].w}; hull(q, a0, b0); }
    if (s > 0) boundsCheck(o, c0 + s * (i64)D.klo, c0 + s * (i64)(D.khi - 1) + size, "store"); else boundsCheck(o, c0 + s * (i64)(D.khi - 1), c0 + s * (i64)D.klo + size, "store");
    if (D.klo != 0 || D.khi != mapN) { if (a0 < 0 || (u64)b0 > objs[o].size) throw MapAbort{"partial store hull"}; }
    for (auto &l : mloads) if (l.obj == o && l.lo < b0 && l.hi > a0) {
        if (l.c0 == c0 && l.s == s && l.size == size) continue;
        if (l.s == s && s > 0) { i64 d = ((l.c0 - c0) % s + s) % s; if (d >= (i64)size && d + (i64)l.size <= s) continue; }
        throw MapAbort{"store over loaded range"};
    }
    for (auto &m : mstores) if (m.obj == o) {
        if (m.c0 == c0 && m.s == s && m.size == size) { m.val = v; m.w = D[v].w; return; }
        i64 a, b; hull(m, a, b);
        if (a < b0 && b > a0) { if (m.s == s && s > 0) { i64 d = ((c0 - m.c0) % s + s) % s; if (d >= m.size && d + (i64)size <= s) continue; } throw MapAbort{"overlapping stores"}; }
    }
    mstores.push_back({o, c0, s, (uint32_t)size, v, D[v].w});
}
static void storeTo(Id p, u64 size, Id v)
{
    Node n = D[p];
    if (n.op != O_PTR) { if (n.op == O_CONST && n.k == 0) { oblig(D.FALSE_, "null store", "memory"); throw StopProof(); }
        if (n.op == O_CONST) { u64 a = (u64)n.k; u64 o = (a >> 36) - 1; if (o < objs.size()) { store(o, D.cst(64, a & ((1ull << 36) - 1)), size, v); return; } }
        throw Unsupported("store through non-pointer"); }
    store((uint32_t)n.k, n.a[0], size, v);
}
static void ptrOff(Id p, uint32_t &o, u64 &off)
{
    Node n = D[p];
    if (n.op == O_CONST && n.k) { u64 a = (u64)n.k; o = (uint32_t)((a >> 36) - 1); off = a & ((1ull << 36) - 1); if (o < objs.size()) return; }
    if (n.op != O_PTR) throw Unsupported("expected pointer, got " + D.str(p, 3));
    if (!D.isC(n.a[0])) { if (inMap) throw MapAbort{"K pointer in bulk op"}; throw Unsupported("symbolic pointer in bulk op"); }
    o = (uint32_t)n.k; off = (u64)D.cv(n.a[0]);
}
static void copyRange(uint32_t d, u64 doff, uint32_t s, u64 soff, u64 len)
{
    if (objs[s].gv) ensureGlobal(s);
    if (objs[d].gv) ensureGlobal(d);
    vector<std::pair<u64, Entry>> es; auto &m = objs[s].e; auto it = m.upper_bound(soff); if (it != m.begin()) --it;
    for (; it != m.end() && it->first < soff + len; ++it) {
        u64 a = it->first, b = a + it->second.len; if (b <= soff) continue;
        u64 x = std::max(a, soff), y = std::min(b, soff + len); Entry e = it->second;
        if (e.esz) {
            // align
            u64 al = (x - a) % e.esz ? x + e.esz - (x - a) % e.esz : x, bl = y - (y - a) % e.esz;
            if (al > x && al <= y) es.push_back({x - soff, {al - x, 0, (unsigned)(al - x) * 8, D.extract(toBits(elemOf(e, (x - a) / e.esz), e.esz * 8), ((x - a) % e.esz) * 8, (al - x) * 8), 0}});
            if (al < bl) { Entry q = e; q.len = bl - al; q.start = e.start + (al - a) / e.esz; es.push_back({al - soff, q}); }
            if (bl < y && bl >= x) es.push_back({bl - soff, {y - bl, 0, (unsigned)(y - bl) * 8, D.extract(toBits(elemOf(e, (bl - a) / e.esz), e.esz * 8), 0, (y - bl) * 8), 0}});
        }
        else if (x == a && y == b) es.push_back({x - soff, e});
        else es.push_back({x - soff, {y - x, 0, (unsigned)(y - x) * 8, D.extract(toBits(e.val, e.len * 8), (x - a) * 8, (y - x) * 8), 0}});
    }
    frameCheck(d, doff, len);
    if (objs[d].ro) oblig(D.FALSE_, "write to constant object", "frame");
    clearRange(d, doff, len);
    for (auto &e : es) setSlot(d, doff + e.first, e.second);
}
static bool smallBulk(Id p) { const Node &n = D[p]; return n.op == O_PTR && !D.isC(n.a[0]); }
static void doMemcpy(Id dp, Id sp, u64 len)
{
    if (!len) return;
    bool need = smallBulk(dp) || smallBulk(sp);
    if (inMap && !need) { uint32_t o = (uint32_t)D[dp].k; if (D[dp].op == O_PTR && !iterLocal(o)) throw MapAbort{"bulk store in map"}; uint32_t so = (uint32_t)D[sp].k; if (!iterLocal(so)) need = len <= 64; if (!need && !iterLocal(so)) throw MapAbort{"bulk load in map"}; }
    if (need) {
        if (len > 64) throw MapAbort{"K memcpy"};
        vector<Id> vs; vector<u64> sz; u64 p = 0; while (p < len) { u64 c = std::min<u64>(8, len - p); while (c & (c - 1)) c &= c - 1; Id q = gepConst(sp, p); vs.push_back(loadFrom(q, c, c * 8)); sz.push_back(c); p += c; }
        p = 0; for (size_t i = 0; i < vs.size(); i++) { storeTo(gepConst(dp, p), sz[i], vs[i]); p += sz[i]; }
        return;
    }
    uint32_t d, s; u64 a, b; ptrOff(dp, d, a); ptrOff(sp, s, b);
    boundsCheck(d, a, a + len, "memcpy dst"); boundsCheck(s, b, b + len, "memcpy src");
    copyRange(d, a, s, b, len);
}
static void doMemset(Id dp, Id v, u64 len)
{
    if (!len) return;
    if (!D.isC(v)) throw Unsupported("symbolic memset");
    if (smallBulk(dp) || (inMap && !iterLocal((uint32_t)D[dp].k))) { if (len > 64) throw MapAbort{"K memset"}; u64 p = 0; while (p < len) { u64 c = std::min<u64>(8, len - p); while (c & (c - 1)) c &= c - 1; u128 b = D.cv(v) & 255, x = 0; for (u64 i = 0; i < c; i++) x = x << 8 | b; storeTo(gepConst(dp, p), c, D.cst(c * 8, x)); p += c; } return; }
    uint32_t d; u64 a; ptrOff(dp, d, a); boundsCheck(d, a, a + len, "memset");
    u64 es = 8; // element size guess from what is there; reads of other sizes assemble
    {
        auto &m = objs[d].e; auto it = m.upper_bound(a); if (it != m.begin()) { --it; if (it->first + it->second.len > a) es = it->second.esz ? it->second.esz : it->second.len; else if (len % 8) es = len % 4 ? (len % 2 ? 1 : 2) : 4; } else if (len % 8) es = len % 4 ? (len % 2 ? 1 : 2) : 4;
        if (es > 8 || len % es || (es & (es - 1))) es = len % 8 ? (len % 4 ? (len % 2 ? 1 : 2) : 4) : 8;
    }
    u128 b = D.cv(v) & 255, x = 0; for (u64 i = 0; i < es; i++) x = x << 8 | b;
    if (len == es) { writeScalar(d, a, len, D.cst(es * 8, x)); return; }
    writeBlock(d, a, len / es, es, es * 8, D.nodeN(B_LAM, W_BLOCK, es * 8, {D.cst(es * 8, x)}), 0);
}
// a block of one repeated byte (memset) may be read as elements of another size
static bool retypeConst(Entry &e, unsigned esz, unsigned w)
{
    if (!e.esz || e.len % esz) return false;
    const Node n = D[e.val]; if (n.op != B_LAM || !D.isC(n.a[0]) || D[n.a[0]].w == W_REAL) return false;
    u128 v = D.cv(n.a[0]); unsigned b = (unsigned)(v & 255); for (unsigned i = 0; i < e.esz; i++) if (((v >> (8 * i)) & 255) != b) return false;
    if (w == W_REAL) { if (b) return false; e.val = D.nodeN(B_LAM, W_BLOCK, W_REAL, {toReal(D.cst(64, 0))}); e.w = w; }
    else { u128 x = 0; for (unsigned i = 0; i < esz; i++) x = x << 8 | b; e.val = D.nodeN(B_LAM, W_BLOCK, esz * 8, {D.cst(esz * 8, x)}); e.w = esz * 8; }
    e.esz = esz; e.start = 0; return true;
}
static string readStr(Id p)
{
    uint32_t o; u64 off; ptrOff(p, o, off); if (objs[o].gv) ensureGlobal(o);
    string s; for (;; off++) { Id c = readScalar(o, off, 1, 8); if (!D.isC(c) || !D.cv(c)) break; s += (char)D.cv(c); } return s;
}
static u64 cval(Id x, const char *what) { if (!D.isC(x)) throw Unsupported(string("expected constant: ") + what); return (u64)D.cv(x); }

static const Function *asFn(Id x)
{
    const Node &n = D[x];
    if (n.op == O_FN) return fnList.at((size_t)n.k);
    if (n.op == O_CONST && (n.k >> 60) == 1) return fnList.at((size_t)((n.k & (((u128)1 << 60) - 1)) >> 4));
    throw Unsupported("expected a function address");
}
// round-to-nearest (half away from zero) of an integer scaled by 2^-k, exact in double
static Id roundScaled(Id x)
{
    const Node n = D[x]; double c; Id m;
    if (n.op == O_UITOFP || n.op == O_SITOFP) return x;
    if (n.op != O_POLY || n.n != 1 || D.rv(D.cst(W_REAL, n.k)) != 0) return 0xffffffffu;
    c = D.rv(D.cst(W_REAL, n.t[0].c)); m = n.t[0].m; int e; double fr = frexp(c, &e);
    const Node mn = D[m]; if ((mn.op != O_UITOFP && mn.op != O_SITOFP) || fr != 0.5 || e - 1 > 0) return 0xffffffffu;
    Id v = mn.a[0]; unsigned w = D[v].w, k = 1 - e; if (w > 50 || k > 60) return 0xffffffffu;
    if (k == 0) return m;
    unsigned W = w + 2 > k + 2 ? w + 2 : k + 2; bool sg = mn.op == O_SITOFP; Id z = sg ? D.sext(v, W) : D.zext(v, W), h = D.cst(W, (u128)1 << (k - 1));
    Id up = D.lshr(D.add(z, h), D.cst(W, k));
    if (!sg) return D.nodeN(O_UITOFP, W_REAL, 0, {D.extract(up, 0, w)});
    Id dn = D.neg(D.lshr(D.add(D.neg(z), h), D.cst(W, k)));
    return D.nodeN(O_SITOFP, W_REAL, 0, {D.extract(D.ite(D.slt(z, D.cst(W, 0)), dn, up), 0, w)});
}
static std::pair<Id, Id> ufIdPending{0, 0}; static std::unordered_map<Id, std::pair<Id, Id>> ufIdent;
static bool impliesC(Id c, Id g)
{
    if (c == g || g == D.TRUE_) return true;
    if (D.band(c, D.bnot(g)) == D.FALSE_) return true;
    const Node n = D[D.bnot(g)]; if (n.op == O_BAND) for (uint32_t i = 0; i < n.n; i++) if (n.a[i] == D.bnot(c)) return true;
    try { return smtProve({c}, g, D.klo, D.khi, smtTimeout / 4).r == SmtResult::VALID; } catch (Unsupported &) { return false; }
}
static bool intrinsicVC(const string &nm, vector<Id> &a, Id &ret)
{
    if (nm.rfind("vc_", 0)) return false;
    ret = D.cst(64, 0);
    auto needNoMap = [&]() { if (inMap) throw MapAbort{nm}; };
    if (nm == "vc_assert") { string l = readStr(a[1]); Id c = a[0]; if (D[c].w != 1) c = D.bnot(D.eq(c, D.cst(D[c].w, 0))); oblig(c, l, "assert"); }
    else if (nm == "vc_assume") { needNoMap(); Id c = a[0]; if (D[c].w != 1) c = D.bnot(D.eq(c, D.cst(D[c].w, 0))); if (c != D.TRUE_) { pushPC(c); } }
    else if (nm == "vc_fresh" || nm == "vc_fresh_range" || nm == "vc_fresh_real") {
        needNoMap(); bool re = nm == "vc_fresh_real"; uint32_t o; u64 off; ptrOff(a[0], o, off); u64 cnt = cval(a[1], "count"), es = re ? 8 : cval(a[2], "esz"); string s = readStr(re ? a[2] : a[3]);
        bool rg = nm == "vc_fresh_range"; i128 lo = 0, hi = 0; if (rg) { lo = (i64)cval(a[4], "lo"); hi = (i64)cval(a[5], "hi"); if (lo >= 0) hi = (i128)(u64)hi; }
        unsigned w = re ? (unsigned)W_REAL : es * 8;
        boundsCheck(o, off, off + cnt * es, "fresh");
        if (cnt == 1) writeScalar(o, off, es, D.sym(w, s, rg, lo, hi)); else writeBlock(o, off, cnt, es, w, D.bsym(w, s, rg, lo, hi), 0);
    }
    else if (nm == "vc_fresh_u64") { needNoMap(); ret = D.sym(64, readStr(a[0])); }
    else if (nm == "vc_fresh_u64_range") { needNoMap(); i128 lo = (i64)cval(a[1], "lo"), hi = (i64)cval(a[2], "hi"); if (lo >= 0) hi = (i128)(u64)hi; ret = D.sym(64, readStr(a[0]), true, lo, hi); }
    else if (nm == "vc_assert_eq" || nm == "vc_assert_eqd" || nm == "vc_assert_eq_tol") {
        needNoMap(); bool re = nm == "vc_assert_eqd"; uint32_t o1, o2; u64 f1, f2; ptrOff(a[0], o1, f1); ptrOff(a[1], o2, f2); u64 cnt = cval(a[2], "count"), es = re ? 8 : cval(a[3], "esz"); string l = readStr(re ? a[3] : nm == "vc_assert_eq_tol" ? a[5] : a[4]);
        unsigned w = re ? (unsigned)W_REAL : es * 8;
        Id A = snapshot(o1, f1, cnt, es, w), B = snapshot(o2, f2, cnt, es, w); u64 nf = nFail;
        bool ok = blocksEq(A, 0, B, 0, cnt, w, true, l, "assert_eq");
        if (ok) { record(l, "assert_eq", true, false, "structural", 0, ""); methodCount["normaliser"]++; }
        else if (nFail == nf) record(l, "assert_eq", false, false, "normaliser", 0, "blocks differ");
    }
    else if (nm == "vc_assert_perm") { // equal as multisets of values (normal forms)
        needNoMap(); uint32_t o1, o2; u64 f1, f2; ptrOff(a[0], o1, f1); ptrOff(a[1], o2, f2); u64 cnt = cval(a[2], "count"), es = cval(a[3], "esz"); string l = readStr(a[4]);
        u64 slo = D.klo, shi = D.khi; D.klo = D.khi = 0; vector<Id> x, y; for (u64 i = 0; i < cnt; i++) { x.push_back(readScalar(o1, f1 + i * es, es, es * 8)); y.push_back(readScalar(o2, f2 + i * es, es, es * 8)); }
        D.klo = slo; D.khi = shi; bool same = x == y;
        if (!same) { std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); same = x == y; }
        record(l, "assert_perm", same, false, "normaliser", 0, same ? "" : "the two multisets differ"); if (same) methodCount["normaliser"]++;
    }
    else if (nm == "vc_replace") { needNoMap(); const Function *f = asFn(a[0]), *g = asFn(a[1]); replaced[f] = const_cast<Function *>(g); fnsReplaced.insert(llvm::demangle(f->getName().str())); }
    else if (nm == "vc_unreplace") replaced.erase(asFn(a[0]));
    else if (nm == "vc_uf_begin") { ufArgs.clear(); ufName = readStr(a[0]); }
    else if (nm == "vc_uf_argn") { ufArgs.push_back(D.cst(64, 0)); ufArgs.push_back(a[0]); }
    else if (nm == "vc_uf_argr") { ufArgs.push_back(D.cst(64, 0)); ufArgs.push_back(a[0]); }
    else if (nm == "vc_uf_argb" || nm == "vc_uf_argd") {
        needNoMap(); bool re = nm == "vc_uf_argd"; uint32_t o; u64 off; ptrOff(a[0], o, off); u64 cnt = cval(a[1], "count"), es = re ? 8 : cval(a[2], "esz"); boundsCheck(o, off, off + cnt * es, "uf arg");
        ufArgs.push_back(D.cst(64, cnt)); ufArgs.push_back(snapshot(o, off, cnt, es, re ? (unsigned)W_REAL : es * 8));
    }
    else if (nm == "vc_uf_id") { // axiom: while the condition holds, the next output equals this array
        needNoMap(); Id g = a[0]; if (D[g].w != 1) g = D.bnot(D.eq(g, D.cst(D[g].w, 0))); uint32_t o; u64 off; ptrOff(a[1], o, off); u64 cnt = cval(a[2], "count"), es = cval(a[3], "esz"); boundsCheck(o, off, off + cnt * es, "uf id");
        ufIdPending = {g, snapshot(o, off, cnt, es, es * 8)};
    }
    else if (nm == "vc_uf_out" || nm == "vc_uf_outd") {
        needNoMap(); bool re = nm == "vc_uf_outd"; uint32_t o; u64 off; ptrOff(a[0], o, off); u64 cnt = cval(a[1], "count"), es = re ? 8 : cval(a[2], "esz"); int idx = (int)cval(re ? a[2] : a[3], "idx"); unsigned w = re ? (unsigned)W_REAL : es * 8;
        boundsCheck(o, off, off + cnt * es, "uf out"); Id ub = ufBlock(idx, w);
        if (ufIdPending.second) {
            ufIdent[ub] = ufIdPending; int dg = decide(ufIdPending.first); Id X = ufIdPending.second; ufIdPending = {0, 0};
            if (dg == 1) { writeBlock(o, off, cnt, es, w, X, 0); return true; }
        }
        writeBlock(o, off, cnt, es, w, ub, 0);
    }
    else if (nm == "vc_uf_ret") {
        vector<Id> v; bool scal = true; for (size_t i = 0; i < ufArgs.size(); i += 2) { if (D.cv(ufArgs[i]) != 0) scal = false; v.push_back(ufArgs[i + 1]); }
        u64 bits = cval(a[0], "bits"); Id r;
        if (scal) r = D.ufs(bits, ufName, v); else r = D.sel(ufBlock(99, bits), D.cst(64, 0), bits);
        ret = D.zext(r, 64);
    }
    else if (nm == "vc_uf_retd") { vector<Id> v; bool scal = true; for (size_t i = 0; i < ufArgs.size(); i += 2) { if (D.cv(ufArgs[i]) != 0) scal = false; v.push_back(ufArgs[i + 1]); } ret = scal ? D.ufs(W_REAL, ufName, v) : D.sel(ufBlock(99, W_REAL), D.cst(64, 0), W_REAL); }
    else if (nm == "vc_cover") {
        string l = readStr(a[0]); nCover++; int r; if (inMap) throw MapAbort{"cover"};
        r = PC.empty() ? 1 : smtSat(PC, D.klo, D.khi, smtTimeout); if (r == 1) nCoverOk++; else if (r == 0) { record("cover: " + l, "vacuity", false, false, "smt", 0, "assumptions contradictory"); } else { nCoverOk++; assumptionsUsed.insert("cover undecided: " + l); }
    }
    else if (nm == "vc_frame_begin") { needNoMap(); frameOn = true; frameStart = objs.size(); frameAllow.clear(); }
    else if (nm == "vc_frame_allow") { uint32_t o; u64 off; ptrOff(a[0], o, off); frameAllow.push_back({o, off, off + cval(a[1], "len")}); }
    else if (nm == "vc_frame_end") { frameOn = false; }
    else if (nm == "vc_contract") { fnsContract.insert(readStr(a[0])); }
    else if (nm == "vc_assumption") { assumptionsUsed.insert(readStr(a[0])); }
    else if (nm == "vc_ctx") { curCtx = "#" + std::to_string((u64)D.cv(a[0])); }
    else if (nm == "vc_ring_set") { g_ringR = cval(a[0], "mod"); }
    else if (nm == "vc_ring_add" || nm == "vc_ring_sub" || nm == "vc_ring_mul") {
        unsigned rg = (unsigned)cval(a[0], "ring"); Id x = D.toRing(a[1], rg), y = D.toRing(a[2], rg); unsigned w = D[a[1]].w;
        Id r = nm == "vc_ring_add" ? D.add(x, y) : nm == "vc_ring_sub" ? D.sub(x, y) : D.mul(x, y); ret = D.fromRing(r, w);
    }
    else if (nm == "vc_assert_ring_eq") {
        unsigned rg = (unsigned)cval(a[0], "ring"); Id x = D.toRing(a[1], rg), y = D.toRing(a[2], rg); string l = readStr(a[3]); bool ok = x == y || D.isZeroFlat(D.sub(x, y));
        if (!ok && inMap) throw MapAbort{"ring"};
        record(l, "ring_eq", ok, false, "structural", 0, ok ? "" : D.str(D.sub(x, y), 5)); if (ok) methodCount["normaliser"]++;
    }
    else if (nm == "vc_print") { fprintf(stderr, "PRINT %s\n", D.str(a[0], 8).c_str()); }
    else if (nm == "vc_is_const") { ret = D.cst(32, D.isC(a[0])); }
    else if (nm == "vc_concrete") { ret = a[0]; }
    else throw Unsupported("unknown intrinsic " + nm);
    return true;
}
static bool externalCall(const string &nm, vector<Id> &a, Id &ret, unsigned retw)
{
    auto allC = [&]() { for (Id x : a) if (!D.isC(x)) return false; return true; };
    if (nm == "_Znwm" || nm == "_Znam" || nm == "malloc" || nm == "_ZnwmSt11align_val_t" || nm == "_ZnamSt11align_val_t" || nm == "aligned_alloc" || nm == "_ZnwmRKSt9nothrow_t") {
        u64 sz = cval(nm == "aligned_alloc" ? a[1] : a[0], "alloc size"); uint32_t o = newObj(sz, "heap" + std::to_string(objs.size())); ret = mkPtr(o, D.cst(64, 0)); return true;
    }
    if (nm == "_ZdlPv" || nm == "_ZdaPv" || nm == "free" || nm == "_ZdlPvm" || nm == "_ZdlPvSt11align_val_t" || nm == "_ZdlPvmSt11align_val_t" || nm == "_ZdaPvm" || nm == "_ZdaPvSt11align_val_t") {
        if (D[a[0]].op == O_PTR) { if (inMap && D[a[0]].k < mapObjStart) throw MapAbort{"free"}; objs[(size_t)D[a[0]].k].alive = false; } return true;
    }
    if (nm == "memcpy" || nm == "memmove") { doMemcpy(a[0], a[1], cval(a[2], "memcpy len")); ret = a[0]; return true; }
    if (nm == "memset") { doMemset(a[0], D.extract(a[1], 0, 8), cval(a[2], "memset len")); ret = a[0]; return true; }
    if (nm == "__cxa_guard_acquire") { ret = D.cst(32, 1); return true; }
    if (nm == "__cxa_guard_release" || nm == "__cxa_guard_abort" || nm == "__cxa_atexit" || nm == "atexit" || nm == "__cxa_thread_atexit") { ret = D.cst(32, 0); return true; }
    if (retw == W_REAL && allC()) {
        double x = a.size() > 0 && D[a[0]].w == W_REAL ? D.rv(a[0]) : 0, y = a.size() > 1 && D[a[1]].w == W_REAL ? D.rv(a[1]) : 0;
        if (nm == "pow") { ret = D.real(pow(x, y)); return true; }
        if (nm == "log2") { ret = D.real(log2(x)); return true; }
        if (nm == "log") { ret = D.real(log(x)); return true; }
        if (nm == "sqrt") { ret = D.real(sqrt(x)); return true; }
        if (nm == "floor") { ret = D.real(floor(x)); return true; }
        if (nm == "round") { ret = D.real(round(x)); return true; }
        if (nm == "ldexp") { ret = D.real(ldexp(x, (int)D.sgn(32, D.cv(a[1])))); return true; }
        if (nm == "cos") { ret = D.real(cos(x)); return true; }
        if (nm == "sin") { ret = D.real(sin(x)); return true; }
        if (nm == "exp2") { ret = D.real(exp2(x)); return true; }
    }
    return false;
}
static Id icmp(int pred, Id a, Id b)
{
    if (D[a].op == O_PTR && D[b].op == O_CONST && D.cv(b)) a = toBits(a, 64);
    if (D[b].op == O_PTR && D[a].op == O_CONST && D.cv(a)) b = toBits(b, 64);
    if (D[a].w != D[b].w && D[a].w <= 128 && D[b].w <= 128) throw Unsupported("icmp width");
    switch (pred) {
    case CmpInst::ICMP_EQ: return D.eq(a, b);
    case CmpInst::ICMP_NE: return D.bnot(D.eq(a, b));
    case CmpInst::ICMP_ULT: return D.ult(a, b);
    case CmpInst::ICMP_UGT: return D.ult(b, a);
    case CmpInst::ICMP_ULE: return D.bnot(D.ult(b, a));
    case CmpInst::ICMP_UGE: return D.bnot(D.ult(a, b));
    case CmpInst::ICMP_SLT: return D.slt(a, b);
    case CmpInst::ICMP_SGT: return D.slt(b, a);
    case CmpInst::ICMP_SLE: return D.bnot(D.slt(b, a));
    case CmpInst::ICMP_SGE: return D.bnot(D.slt(a, b));
    }
    throw Unsupported("icmp");
}
static Id fcmp(int pred, Id a, Id b)
{
    if (D.isC(a) && D.isC(b)) {
        double x = D.rv(a), y = D.rv(b);
        switch (pred) {
        case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return D.boolc(x == y);
        case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return D.boolc(x != y);
        case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return D.boolc(x < y);
        case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return D.boolc(x <= y);
        case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return D.boolc(x > y);
        case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return D.boolc(x >= y);
        }
    }
    if (a == b) switch (pred) { // over the reals
        case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return D.TRUE_;
        case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return D.FALSE_;
        default: break;
        }
    switch (pred) {
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return D.nodeN(O_FEQ, 1, 0, {a, b});
    case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return D.bnot(D.nodeN(O_FEQ, 1, 0, {a, b}));
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return D.nodeN(O_FLT, 1, 0, {a, b});
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return D.nodeN(O_FLT, 1, 0, {b, a});
    case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return D.bnot(D.nodeN(O_FLT, 1, 0, {b, a}));
    case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return D.bnot(D.nodeN(O_FLT, 1, 0, {a, b}));
    }
    throw Unsupported("fcmp");
}
static Id umin(Id a, Id b) { return D.ite(D.ult(a, b), a, b); }
static Id overflowOp(Intrinsic::ID id, Id a, Id b)
{
    unsigned w = D[a].w; Id r; Id ov;
    bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
    unsigned W = (id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow) ? 2 * w : w + 1; if (W > 128) throw Unsupported("overflow op width");
    Id x = sg ? D.sext(a, W) : D.zext(a, W), y = sg ? D.sext(b, W) : D.zext(b, W), z;
    switch (id) {
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: z = D.add(x, y); break;
    case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: z = D.sub(x, y); break;
    default: z = D.mul(x, y);
    }
    r = D.extract(z, 0, w); ov = D.bnot(D.eq(z, sg ? D.sext(r, W) : D.zext(r, W)));
    return D.nodeN(O_AGG, W_AGG, 0, {r, ov});
}
static Id intrinsicLLVM(const Ins &x, Function *F, vector<Id> &a, bool &ok)
{
    ok = true;
    switch (F->getIntrinsicID()) {
    case Intrinsic::lifetime_start: {
        const Node &n = D[a[1]];
        if (n.op == O_PTR) { if (inMap && (uint32_t)n.k < mapObjStart && !objs[(size_t)n.k].iterLocal) { uint32_t o = (uint32_t)n.k; for (auto &m : mstores) if (m.obj == o) throw MapAbort{"lifetime"}; for (auto &l : mloads) if (l.obj == o) throw MapAbort{"lifetime"}; objs[o].iterLocal = true; mapIterObjs.push_back(o); } clearRange((uint32_t)n.k, 0, objs[(size_t)n.k].size); }
        return 0;
    }
    case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::donothing: return 0;
    case Intrinsic::stacksave: return D.cst(64, 0);
    case Intrinsic::stackrestore: return 0;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        u64 l = cval(a[2], "memcpy len"); doMemcpy(a[0], a[1], l); return 0;
    }
    case Intrinsic::memset: doMemset(a[0], a[1], cval(a[2], "memset len")); return 0;
    case Intrinsic::umin: return umin(a[0], a[1]);
    case Intrinsic::umax: return D.ite(D.ult(a[0], a[1]), a[1], a[0]);
    case Intrinsic::smin: return D.ite(D.slt(a[0], a[1]), a[0], a[1]);
    case Intrinsic::smax: return D.ite(D.slt(a[0], a[1]), a[1], a[0]);
    case Intrinsic::abs: { Id z = D.cst(D[a[0]].w, 0); return D.ite(D.slt(a[0], z), D.neg(a[0]), a[0]); }
    case Intrinsic::usub_sat: return D.ite(D.ult(a[0], a[1]), D.cst(D[a[0]].w, 0), D.sub(a[0], a[1]));
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: return overflowOp(F->getIntrinsicID(), a[0], a[1]);
    case Intrinsic::fshl: case Intrinsic::fshr: {
        unsigned w = D[a[0]].w; if (!D.isC(a[2])) {
            if (a[0] != a[1]) throw Unsupported("symbolic funnel shift");
            Id s = D.urem(a[2], D.cst(w, w)), r = D.urem(D.sub(D.cst(w, w), s), D.cst(w, w));
            if (F->getIntrinsicID() == Intrinsic::fshr) std::swap(s, r);
            return D.or_(D.shl(a[0], s), D.lshr(a[0], r)); }
        unsigned s = (unsigned)(D.cv(a[2]) % w); if (F->getIntrinsicID() == Intrinsic::fshr) s = (w - s) % w; if (!s) return F->getIntrinsicID() == Intrinsic::fshl ? a[0] : a[1];
        return D.or_(D.shl(a[0], D.cst(w, s)), D.lshr(a[1], D.cst(w, w - s)));
    }
    case Intrinsic::bswap: { unsigned w = D[a[0]].w; Id r = D.extract(a[0], 0, 8); for (unsigned i = 8; i < w; i += 8) r = D.concat(r, D.extract(a[0], i, 8)); return r; }
    case Intrinsic::bitreverse: { unsigned w = D[a[0]].w; if (D.isC(a[0])) { u128 v = D.cv(a[0]), r = 0; for (unsigned i = 0; i < w; i++) if (v >> i & 1) r |= (u128)1 << (w - 1 - i); return D.cst(w, r); } Id r = D.cst(w, 0); for (unsigned i = 0; i < w; i++) r = D.add(r, D.shl(D.zext(D.extract(a[0], i, 1), w), D.cst(w, w - 1 - i))); return r; }
    case Intrinsic::ctpop: if (D.isC(a[0])) { u128 v = D.cv(a[0]); int c = 0; while (v) { c += v & 1; v >>= 1; } return D.cst(D[a[0]].w, c); } { unsigned w = D[a[0]].w; Id r = D.cst(w, 0); for (unsigned i = 0; i < w; i++) r = D.add(r, D.ind(w, D.extract(a[0], i, 1))); return r; }
    case Intrinsic::cttz: if (D.isC(a[0])) { u128 v = D.cv(a[0]); unsigned w = D[a[0]].w, c = 0; while (c < w && !(v >> c & 1)) c++; return D.cst(w, c); } break;
    case Intrinsic::ctlz: if (D.isC(a[0])) { u128 v = D.cv(a[0]); unsigned w = D[a[0]].w, c = 0; while (c < w && !(v >> (w - 1 - c) & 1)) c++; return D.cst(w, c); } break;
    case Intrinsic::expect: return a[0];
    case Intrinsic::fma: case Intrinsic::fmuladd: return D.add(D.mul(a[0], a[1]), a[2]);
    case Intrinsic::floor: if (D.isC(a[0])) return D.real(floor(D.rv(a[0]))); return D.ufs(W_REAL, "floor", {a[0]});
    case Intrinsic::ceil: if (D.isC(a[0])) return D.real(ceil(D.rv(a[0]))); break;
    case Intrinsic::round: if (D.isC(a[0])) return D.real(round(D.rv(a[0]))); { Id r = roundScaled(a[0]); if (r != 0xffffffffu) return r; } return D.ufs(W_REAL, "round", {a[0]});
    case Intrinsic::rint: case Intrinsic::nearbyint: if (D.isC(a[0])) return D.real(nearbyint(D.rv(a[0]))); return D.ufs(W_REAL, "rint", {a[0]});
    case Intrinsic::fabs: if (D.isC(a[0])) return D.real(fabs(D.rv(a[0]))); break;
    case Intrinsic::sqrt: if (D.isC(a[0])) return D.real(sqrt(D.rv(a[0]))); break;
    case Intrinsic::pow: if (D.isC(a[0]) && D.isC(a[1])) return D.real(pow(D.rv(a[0]), D.rv(a[1]))); break;
    case Intrinsic::powi: if (D.isC(a[0]) && D.isC(a[1])) return D.real(pow(D.rv(a[0]), (double)(int)D.cv(a[1]))); break;
    case Intrinsic::exp2: if (D.isC(a[0])) return D.real(exp2(D.rv(a[0]))); break;
    case Intrinsic::log2: if (D.isC(a[0])) return D.real(log2(D.rv(a[0]))); break;
    case Intrinsic::threadlocal_address: return a[0];
    case Intrinsic::is_constant: return D.FALSE_;
    case Intrinsic::objectsize: return D.cst(x.w, ~(u128)0);
    case Intrinsic::trap: oblig(D.FALSE_, "trap reachable", "abort"); throw StopProof();
    case Intrinsic::vastart: case Intrinsic::vaend: return 0;
    default: break;
    }
    ok = false; return 0;
}
static Arrive execFrom(Frame &F, int bb, int prev, int stop, vector<Id> *preset);
static Id callFunction(Function *F, vector<Id> args)
{
    auto rp = replaced.find(F); if (rp != replaced.end()) F = rp->second;
    if (F->getName().starts_with("__tls_init") || F->getName().starts_with("_ZTH")) return 0; // thread-local generator / FFT plans: opaque
    if (F->isDeclaration()) throw Unsupported("external call " + llvm::demangle(F->getName().str()));
    if (++callDepth > 400) { callDepth = 0; throw Unsupported("call depth"); }
    struct Dec { ~Dec() { --callDepth; } } dec;
    Fn &f = getFn(F);
    if (!f.done) { f.done = true; if (f.dem.rfind("std::", 0) && f.dem.find("__gnu") == string::npos) fnsExecuted.insert(f.dem); }
    Frame fr; fr.f = &f; fr.v.assign(f.nslots, 0xfffffffdu);
    for (size_t i = 0; i < f.argSlots.size(); i++) {
        Id v = args[i];
        if (F->hasParamAttribute(i, Attribute::ByVal)) { // callee gets a copy
            u64 sz = DL->getTypeAllocSize(F->getParamByValType(i)); uint32_t o = newObj(sz, "byval"); doMemcpy(mkPtr(o, D.cst(64, 0)), v, sz); v = mkPtr(o, D.cst(64, 0));
        }
        fr.v[f.argSlots[i]] = v;
    }
    Arrive a = execFrom(fr, 0, -1, -1, nullptr);
    for (uint32_t o : fr.allocas) objs[o].alive = false;
    if (a.dead) { throw Unsupported("function never returns: " + f.dem); }
    return a.ret;
}
static bool enterPhis(Frame &F, int bb, int prev, vector<Id> &out)
{
    auto &B = F.f->bbs[bb]; out.clear();
    for (auto &p : B.phis) { bool got = false; for (auto &i : p.in) if (i.first == prev) { out.push_back(val(F, i.second)); got = true; break; } if (!got) throw Unsupported("phi"); }
    return true;
}
// a bit operation with a constant on a value that takes few values: keep it tied to its
// leaf (affine in the leaf on the values feasible here) instead of splitting it into bits
static Id bitSmall(Id r, Id a, Id b, u128 (*f)(u128, u128))
{
    if (D.isC(a)) std::swap(a, b);
    if (!D.isC(b) || D.isC(a) || D.isC(r)) return r;
    unsigned w = D[r].w; if (w < 2 || w > 128) return r;
    Id sp = D[a].supp; if (sp == SUPP_MANY || sp == SUPP_NONE || D[r].supp == sp) return r;
    Node x = D[sp]; if (x.w > 128 || x.w > w) return r;
    bool useU = x.uhi - x.ulo <= 15; i128 lo = useU ? (i128)x.ulo : x.slo, hi = useU ? (i128)x.uhi : x.shi; vector<std::pair<u128, u128>> vs;
    for (i128 v = lo; v <= hi; v++) { u128 uv = (u128)v & D.rmask(x.w); if (!feasibleLeaf(sp, uv)) continue; std::unordered_map<Id, u128> env; env[sp] = uv; u128 o; if (!D.ceval(a, env, o)) return r; vs.push_back({uv, f(o, D.cv(b)) & D.rmask(w)}); }
    if (vs.empty()) return r;
    if (vs.size() == 1) return D.cst(w, vs[0].second);
    u128 dv = (vs[1].first - vs[0].first) & D.rmask(w), dr = (vs[1].second - vs[0].second) & D.rmask(w);
    if (dv != 1) return r;
    for (auto &p : vs) if (((vs[0].second + dr * (p.first - vs[0].first)) & D.rmask(w)) != p.second) return r;
    return D.add(D.scale(D.zext(sp, w), dr), D.cst(w, (vs[0].second - dr * vs[0].first) & D.rmask(w)));
}
static Id execIns(Frame &F, Ins &x)
{
    auto V = [&](int i) { return val(F, x.ops[i]); };
    switch (x.op) {
    case Instruction::Add: return D.add(V(0), V(1));
    case Instruction::Sub: return D.sub(V(0), V(1));
    case Instruction::Mul: return D.mul(V(0), V(1));
    case Instruction::UDiv: return D.udiv(V(0), V(1));
    case Instruction::SDiv: return D.sdiv(V(0), V(1));
    case Instruction::URem: return D.urem(V(0), V(1));
    case Instruction::SRem: return D.srem(V(0), V(1));
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        Id a = V(0), b = V(1); unsigned w = D[a].w;
        if (w == 1) return a;
        if (D.isC(b) ? D.cv(b) >= w : D[b].uhi >= w) {
            if (inMap && (D[b].flags & 1)) throw MapAbort{"shift"};
            if (D.isC(b)) return undefOf(w); // poison: harmless if the optimiser speculated it and nothing uses it
            oblig(D.ult(b, D.cst(w, w)), "shift amount below operand width in " + F.f->dem.substr(0, 80), "ub");
        }
        // small-support shift amounts: expand
        Id sp = D[b].supp;
        if (!D.isC(b) && !D.isC(a) && sp != SUPP_MANY && sp != SUPP_NONE) {
            Node n = D[sp]; bool useU = n.uhi - n.ulo <= 15; i128 lo = useU ? (i128)n.ulo : n.slo, hi = useU ? (i128)n.uhi : n.shi; Id r = D.cst(w, 0);
            bool good = true;
            for (i128 q = lo; q <= hi && good; q++) { u128 uv = (u128)q & D.rmask(n.w); if (!feasibleLeaf(sp, uv)) continue; Id bb = D.subst(b, sp, D.cst(n.w, uv)); if (!D.isC(bb) || D.cv(bb) >= w) { good = false; break; }
                Id y = x.op == Instruction::Shl ? D.shl(a, bb) : x.op == Instruction::LShr ? D.lshr(a, bb) : D.ashr(a, bb); r = D.add(r, D.mul(D.ind(w, D.eq(sp, D.cst(n.w, uv))), y)); }
            if (good) return r;
        }
        return x.op == Instruction::Shl ? D.shl(a, b) : x.op == Instruction::LShr ? D.lshr(a, b) : D.ashr(a, b);
    }
    case Instruction::And: { Id a = V(0), b = V(1); return bitSmall(D.and_(a, b), a, b, [](u128 p, u128 q) { return p & q; }); }
    case Instruction::Or: { Id a = V(0), b = V(1); return bitSmall(D.or_(a, b), a, b, [](u128 p, u128 q) { return p | q; }); }
    case Instruction::Xor: { Id a = V(0), b = V(1); return bitSmall(D.xor_(a, b), a, b, [](u128 p, u128 q) { return p ^ q; }); }
    case Instruction::FAdd: return D.add(V(0), V(1));
    case Instruction::FSub: return D.sub(V(0), V(1));
    case Instruction::FMul: return D.mul(V(0), V(1));
    case Instruction::FDiv: return D.fdiv(V(0), V(1));
    case Instruction::FNeg: return D.neg(V(0));
    case Instruction::ICmp: return icmp(x.pred, V(0), V(1));
    case Instruction::FCmp: return fcmp(x.pred, V(0), V(1));
    case Instruction::ZExt: return x.I->hasNonNeg() ? D.sext(V(0), x.w) : D.zext(V(0), x.w); // nneg: the optimiser proved the sign bit clear
    case Instruction::SExt: return D.sext(V(0), x.w);
    case Instruction::Trunc: return D.extract(toBits(V(0), 64), 0, x.w);
    case Instruction::PtrToInt: return D.extract(toBits(V(0), 64), 0, x.w);
    case Instruction::IntToPtr: { Id v = V(0); if (D.isC(v) && D.cv(v)) { u64 a = (u64)D.cv(v); u64 o = (a >> 36) - 1; if (o < objs.size()) return mkPtr((uint32_t)o, D.cst(64, a & ((1ull << 36) - 1))); } return v; }
    case Instruction::BitCast: { Id v = V(0); if (x.w == W_REAL && D[v].w != W_REAL) return toReal(v); if (x.w != W_REAL && D[v].w == W_REAL) return toBits(v, x.w); return v; }
    case Instruction::SIToFP: return D.itofp(V(0), true);
    case Instruction::UIToFP: return D.itofp(V(0), false);
    case Instruction::FPToSI: return D.fptoi(V(0), x.w, true);
    case Instruction::FPToUI: return D.fptoi(V(0), x.w, false);
    case Instruction::FPExt: case Instruction::FPTrunc: return V(0);
    case Instruction::Freeze: return V(0);
    case Instruction::Select: {
        Id c = V(0); int d = decide(c); if (d == 1) return V(1); if (d == 0) return V(2);
        return D.ite(c, V(1), V(2));
    }
    case Instruction::GetElementPtr: {
        Id off = D.cst(64, (u128)(i128)x.gc);
        for (auto &g : x.gidx) { Id i = D.sext(val(F, g.first), 64); off = D.add(off, D.scale(i, (u128)(i128)g.second & D.rmask(64))); }
        Id b = V(0); const Node n = D[b];
        if (n.op == O_PTR) return mkPtr((uint32_t)n.k, D.add(n.a[0], off));
        return D.add(b, off);
    }
    case Instruction::Load: {
        if (x.w == W_AGG || x.w == 255) throw Unsupported("aggregate load");
        Id v = loadFrom(V(0), x.size, x.w == W_REAL ? (unsigned)W_REAL : x.w);
        if (x.w == 1 && D[v].w == 8) v = D.extract(v, 0, 1);
        else if (x.w < 128 && D[v].w <= 128 && D[v].w > x.w) v = D.extract(v, 0, x.w);
        if (cast<LoadInst>(x.I)->getType()->isPointerTy() && D.isC(v) && D.cv(v)) { u64 a = (u64)D.cv(v); u64 o = (a >> 36) - 1; if (o < objs.size()) v = mkPtr((uint32_t)o, D.cst(64, a & ((1ull << 36) - 1))); }
        return v;
    }
    case Instruction::Store: {
        Id v = V(0); unsigned w = D[v].w;
        if (w == W_AGG) throw Unsupported("aggregate store");
        if (w <= 128 && w < x.size * 8) v = D.zext(v, x.size * 8);
        storeTo(V(1), x.size, v); return 0;
    }
    case Instruction::Alloca: {
        u64 n = cval(V(0), "alloca count"); uint32_t o = newObj(x.size * n, (F.f->dem.size() > 60 ? F.f->dem.substr(0, 60) : F.f->dem) + ":" + x.I->getName().str()); objs[o].stack = true; F.allocas.push_back(o); return mkPtr(o, D.cst(64, 0));
    }
    case Instruction::ExtractValue: { Id v = V(0); for (unsigned i : cast<ExtractValueInst>(x.I)->indices()) { if (D[v].op != O_AGG) throw Unsupported("extractvalue"); v = D[v].a[i]; } return v; }
    case Instruction::InsertValue: {
        std::function<Id(Id, ArrayRef<unsigned>, Id)> ins = [&](Id ag, ArrayRef<unsigned> ix, Id v) -> Id { if (ix.empty()) return v; Node n = D[ag]; vector<Id> e(n.a, n.a + n.n); e[ix[0]] = ins(e[ix[0]], ix.drop_front(), v); return D.nodeN(O_AGG, W_AGG, 0, e); };
        return ins(V(0), cast<InsertValueInst>(x.I)->getIndices(), V(1));
    }
    case Instruction::Call: case Instruction::Invoke: {
        Function *f = x.callee;
        if (!f) {
            if (cast<CallBase>(x.I)->isInlineAsm()) { if (!cast<CallBase>(x.I)->getType()->isVoidTy()) throw Unsupported("inline asm"); throw Unsupported("inline asm"); }
            Id p = val(F, x.gidx[0].first); if (D[p].op != O_FN) throw Unsupported("indirect call"); f = const_cast<Function *>(fnList[(size_t)D[p].k]);
        }
        vector<Id> a; a.reserve(x.ops.size());
        if (f->isIntrinsic()) {
            for (size_t i = 0; i < x.ops.size(); i++) a.push_back(x.ops[i] == INT32_MIN ? 0 : val(F, x.ops[i]));
            bool ok; Id r = intrinsicLLVM(x, f, a, ok); if (!ok) throw Unsupported("intrinsic " + f->getName().str()); return r;
        }
        for (size_t i = 0; i < x.ops.size(); i++) a.push_back(val(F, x.ops[i]));
        Id ret = 0; string nm = f->getName().str();
        auto rp = replaced.find(f);
        if (rp == replaced.end()) {
            if (intrinsicVC(nm, a, ret)) { if (x.w && x.w <= 128 && D[ret].w <= 128 && D[ret].w > x.w) ret = D.extract(ret, 0, x.w); return ret; }
            if (f->isDeclaration() || nm == "_Znwm" || nm == "_ZdlPv") { if (externalCall(nm, a, ret, x.w)) { externs.insert(nm); return ret; } throw Unsupported("external call " + llvm::demangle(nm)); }
        }
        Id r = callFunction(f, a);
        return r;
    }
    }
    throw Unsupported(string("instruction ") + x.I->getOpcodeName());
}
// --- state diffs for joins
struct Diff { std::map<uint32_t, vector<std::pair<u64, u64>>> iv; std::map<uint32_t, vector<std::pair<u64, Entry>>> ent; };
static void coalesce(vector<std::pair<u64, u64>> &v)
{
    std::sort(v.begin(), v.end()); vector<std::pair<u64, u64>> r;
    for (auto &x : v) if (!r.empty() && x.first <= r.back().second) r.back().second = std::max(r.back().second, x.second); else r.push_back(x);
    v = r;
}
static vector<std::pair<u64, Entry>> entriesIn(uint32_t o, u64 a, u64 b)
{
    vector<std::pair<u64, Entry>> r; auto &m = objs[o].e; auto it = m.lower_bound(a);
    for (; it != m.end() && it->first < b; ++it) r.push_back(*it); return r;
}
static Diff collectDiff(size_t mark)
{
    Diff d;
    for (size_t i = mark; i < journal.size(); i++) {
        auto &j = journal[i]; auto &v = d.iv[j.obj];
        if (j.had) v.push_back({j.off, j.off + j.old.len});
        auto it = objs[j.obj].e.find(j.off); if (it != objs[j.obj].e.end()) v.push_back({j.off, j.off + it->second.len});
        if (v.size() > 4096) coalesce(v);
    }
    for (auto &p : d.iv) { coalesce(p.second); for (auto &q : p.second) { auto e = entriesIn(p.first, q.first, q.second); auto &z = d.ent[p.first]; z.insert(z.end(), e.begin(), e.end()); } }
    return d;
}
static void applyDiff(const Diff &d)
{
    for (auto &p : d.iv) {
        for (auto &q : p.second) { vector<u64> ks; auto &m = objs[p.first].e; for (auto it = m.lower_bound(q.first); it != m.end() && it->first < q.second; ++it) ks.push_back(it->first); for (u64 k : ks) eraseSlot(p.first, k); }
        auto it = d.ent.find(p.first); if (it != d.ent.end()) for (auto &e : it->second) setSlot(p.first, e.first, e.second);
    }
}
static Id iteV(Id c, Id a, Id b)
{
    if (D[a].w != D[b].w) { if (D[a].w == W_REAL) b = toReal(b); else if (D[b].w == W_REAL) a = toReal(a); else throw Unsupported("merge widths"); }
    return D.ite(c, a, b);
}
static void mergeStates(Id c, const Diff &d1, const Diff &d2)
{
    std::map<uint32_t, vector<std::pair<u64, u64>>> uni; for (auto &p : d1.iv) uni[p.first].insert(uni[p.first].end(), p.second.begin(), p.second.end()); for (auto &p : d2.iv) uni[p.first].insert(uni[p.first].end(), p.second.begin(), p.second.end());
    for (auto &p : uni) coalesce(p.second);
    size_t mk = journal.size(); std::map<uint32_t, vector<std::pair<u64, Entry>>> E[2];
    for (int s = 0; s < 2; s++) { applyDiff(s ? d2 : d1); for (auto &p : uni) for (auto &q : p.second) { auto e = entriesIn(p.first, q.first, q.second); auto &z = E[s][p.first]; z.insert(z.end(), e.begin(), e.end()); } rollback(mk); }
    for (auto &p : uni) {
        uint32_t o = p.first; auto &A = E[0][o], &B = E[1][o]; vector<std::pair<u64, Entry>> out; size_t i = 0, j = 0;
        auto cut = [](std::pair<u64, Entry> &e, u64 n) { e.first += n; e.second.len -= n; e.second.start += n / e.second.esz; };
        while (i < A.size() || j < B.size()) {
            if (j >= B.size() || (i < A.size() && A[i].first + A[i].second.len <= B[j].first)) { out.push_back(A[i++]); continue; }
            if (i >= A.size() || B[j].first + B[j].second.len <= A[i].first) { out.push_back(B[j++]); continue; }
            auto &a = A[i], &b = B[j];
            if (a.first != b.first) {
                auto &lo = a.first < b.first ? a : b; u64 d = (a.first < b.first ? b.first : a.first) - lo.first;
                if (lo.second.esz && d % lo.second.esz == 0) { auto piece = lo; piece.second.len = d; out.push_back(piece); cut(lo, d); continue; }
                throw Unsupported("merge: misaligned entries");
            }
            Entry &x = a.second, &y = b.second;
            if (x.esz == 0 && y.esz == 0) {
                if (x.len != y.len) {
                    // split the longer scalar
                    auto &lg = x.len > y.len ? a : b; u64 n = std::min(x.len, y.len); Id full = toBits(lg.second.val, lg.second.len * 8);
                    std::pair<u64, Entry> rest{lg.first + n, {lg.second.len - n, 0, (unsigned)(lg.second.len - n) * 8, D.extract(full, n * 8, (lg.second.len - n) * 8), 0}};
                    lg.second = {n, 0, (unsigned)n * 8, D.extract(full, 0, n * 8), 0};
                    if (&lg == &a) A.insert(A.begin() + i + 1, rest); else B.insert(B.begin() + j + 1, rest);
                    continue;
                }
                Id v = x.val == y.val ? x.val : iteV(c, x.val, y.val); out.push_back({a.first, {x.len, 0, D[v].w, v, 0}}); i++; j++; continue;
            }
            if (x.esz && y.esz) {
                if ((x.esz != y.esz || x.w != y.w) && !retypeConst(x, y.esz, y.w) && !retypeConst(y, x.esz, x.w)) throw Unsupported("merge: block element sizes " + std::to_string(x.esz) + "," + std::to_string(y.esz));
                u64 n = std::min(x.len, y.len); Entry r = x; r.len = n;
                if (!(x.val == y.val && x.start == y.start)) {
                    if (inMap) throw MapAbort{"block merge"};
                    // c ? x : y where one side is a function value that equals the other side whenever that side is taken
                    auto ident = [&](Entry &u, Entry &v, Id cv) { auto it = ufIdent.find(u.val); return it != ufIdent.end() && impliesC(cv, it->second.first) && blocksEq(v.val, v.start, it->second.second, u.start, n / x.esz, x.w, false, "", ""); };
                    if (ident(y, x, c)) { r = y; r.len = n; }
                    else if (ident(x, y, D.bnot(c))) { r = x; r.len = n; }
                    else {
                    u64 sl = D.klo, sh = D.khi, bs = x.val > y.val ? x.start : y.start; D.klo = bs; D.khi = bs + n / x.esz;
                    Id u = D.sel(x.val, D.add(D.KV, D.cst(64, (u128)(x.start - bs))), x.w), v = D.sel(y.val, D.add(D.KV, D.cst(64, (u128)(y.start - bs))), y.w); D.klo = sl; D.khi = sh;
                    r.val = D.lam(D.ite(c, u, v)); r.start = bs; }
                }
                out.push_back({a.first, r}); u64 adv = n;
                if (x.len == n) i++; else cut(a, adv);
                if (y.len == n) j++; else cut(b, adv);
                continue;
            }
            // scalar vs block
            bool as = x.esz == 0; Entry &sc = as ? x : y, &bl = as ? y : x;
            if (sc.len == bl.esz) {
                Id e = elemOf(bl, 0); Id v = as ? iteV(c, sc.val, e) : iteV(c, e, sc.val); out.push_back({a.first, {sc.len, 0, D[v].w, v, 0}});
                if (as) { i++; if (bl.len == bl.esz) j++; else cut(b, bl.esz); } else { j++; if (bl.len == bl.esz) i++; else cut(a, bl.esz); }
                continue;
            }
            throw Unsupported("merge: scalar/block sizes");
        }
        for (auto &q : p.second) { vector<u64> ks; auto &m = objs[o].e; for (auto it = m.lower_bound(q.first); it != m.end() && it->first < q.second; ++it) ks.push_back(it->first); for (u64 k : ks) eraseSlot(o, k); }
        for (auto &e : out) setSlot(o, e.first, e.second);
    }
}
static Arrive fork(Frame &F, int bb, vector<std::pair<Id, int>> alts, size_t k, int stop)
{
    // alts: (condition, target); last has condition TRUE meaning "otherwise"
    auto &B = F.f->bbs[bb]; int J = B.ipdom;
    auto goTo = [&](int t, int st) -> Arrive {
        if (F.f->bbs[t].dead) { // abort / throw / unreachable path
            Arrive a; a.dead = true;
            auto &D0 = F.f->bbs[t]; string why = "unreachable";
            std::function<void(int, int)> look = [&](int b, int dep) { if (dep > 3) return; for (auto &x : F.f->bbs[b].ins) if (x.callee && !x.callee->isIntrinsic()) { why = llvm::demangle(x.callee->getName().str()); return; } for (int s : F.f->bbs[b].succs) look(s, dep + 1); }; look(t, 0); (void)D0;
            Id g = D.TRUE_; for (Id c : PC) g = D.band(g, c);
            oblig(D.bnot(PC.empty() ? D.TRUE_ : PC.back()), "no path to " + why.substr(0, 100) + " in " + F.f->dem.substr(0, 80), "abort"); return a;
        }
        if (t == st) { Arrive a; a.from = bb; enterPhis(F, t, bb, a.phis); return a; }
        return execFrom(F, t, bb, st, nullptr);
    };
    if (k + 1 == alts.size()) return goTo(alts[k].second, J);
    Id c = alts[k].first; int d = decide(c);
    if (d == 1) return goTo(alts[k].second, J);
    if (d == 0) return fork(F, bb, alts, k + 1, stop);
    size_t mk = journal.size(); auto ms = mstores; u64 kl = D.klo, kh = D.khi; auto mlsz = mloads.size();
    auto refine = [&](Id cc) { if (!(D[cc].flags & 1) || kh <= kl) return; bool q; u64 lo = kl, hi = kh; while (lo < hi && evalK(cc, lo, q) && !q) lo++; while (hi > lo && evalK(cc, hi - 1, q) && !q) hi--; if (lo < hi) { D.klo = lo; D.khi = hi; } };
    size_t pcs = PC.size();
    pushPC(c); refine(c); Arrive A1; 
    A1 = goTo(alts[k].second, J); 
    while (PC.size() > pcs) popPC();
    D.klo = kl; D.khi = kh; auto ms1 = mstores; mstores = ms;
    Diff d1 = collectDiff(mk); rollback(mk);
    pushPC(D.bnot(c)); refine(D.bnot(c)); Arrive A2 = fork(F, bb, alts, k + 1, stop); while (PC.size() > pcs) popPC(); D.klo = kl; D.khi = kh; auto ms2 = mstores;
    (void)mlsz;
    if (A1.dead && A2.dead) return A1;
    if (A2.dead) { rollback(mk); applyDiff(d1); mstores = ms1; pushPC(c); return A1; }
    if (A1.dead) { pushPC(D.bnot(c)); return A2; }
    Diff d2 = collectDiff(mk); rollback(mk);
    mergeStates(c, d1, d2);
    // merge deferred map stores
    if (inMap) {
        mstores = ms; vector<MapStore> r;
        auto find = [&](vector<MapStore> &v, const MapStore &m) -> MapStore * { for (auto &x : v) if (x.obj == m.obj && x.c0 == m.c0 && x.s == m.s && x.size == m.size) return &x; return nullptr; };
        vector<MapStore> keys = ms1; for (auto &m : ms2) if (!find(keys, m)) keys.push_back(m);
        for (auto &m : keys) {
            auto *a = find(ms1, m), *b = find(ms2, m); Id va, vb;
            auto base = [&](const MapStore &q) { auto sv = mstores; mstores = ms; Id off = D.add(D.scale(D.KV, (u128)(i128)q.s), D.cst(64, (u128)(i128)q.c0)); Id v = load(q.obj, off, q.size, q.w); mstores = sv; return v; };
            va = a ? a->val : base(m); vb = b ? b->val : base(m);
            MapStore z = m; z.val = iteV(c, va, vb); z.w = D[z.val].w; r.push_back(z);
        }
        mstores = r;
    }
    Arrive R; R.returned = A1.returned;
    if (A1.returned != A2.returned) throw Unsupported("return merge");
    if (A1.returned) { R.ret = (D[A1.ret].w == 0 && A1.ret == A2.ret) ? A1.ret : (F.f->F->getReturnType()->isVoidTy() ? 0 : iteV(c, A1.ret, A2.ret)); }
    for (size_t i = 0; i < A1.phis.size(); i++) R.phis.push_back(iteV(c, A1.phis[i], A2.phis[i]));
    return R;
}
static u64 loopMin = 16;
static std::set<u64> pieceCuts(Id x, u64 N, Id old)
{
    std::set<u64> r; std::unordered_set<Id> seen; std::deque<Id> st{x};
    while (!st.empty() && seen.size() < 600) {
        Id y = st.front(); st.pop_front(); if (!(D[y].flags & 1) || (D[y].op == O_BIG && y < old) || !seen.insert(y).second) continue;
        const Node n = D[y];
        if (n.op == O_POLY) { for (uint32_t i = 0; i < n.n; i++) st.push_back(n.t[i].m); continue; }
        if (n.op == O_SEL && D[n.a[0]].op == B_PW) {
            const Node b = D[n.a[0]], ix = D[n.a[1]]; u64 c = 0; bool lin = n.a[1] == D.KV || (ix.op == O_POLY && ix.n == 1 && ix.t[0].m == D.KV && ix.t[0].c == 1);
            if (lin) { if (ix.op == O_POLY) c = (u64)ix.k; i128 pos = 0; for (uint32_t i = 0; i < b.n; i += 3) { pos += b.a[i]; i128 at = pos - (i64)c; if (at > 0 && at < (i128)N) r.insert((u64)at); } }
        }
        if (n.op == B_PW) continue;
        for (uint32_t i = 0; i < n.n; i++) st.push_back(n.a[i]);
    }
    return r;
}
static bool tryMap(Frame &F, LoopI &L, int prev, vector<Id> &finalPhis)
{
    Fn &f = *F.f; BB &H = f.bbs[L.header]; vector<Id> start; enterPhis(F, L.header, prev, start);
    size_t np = H.phis.size(); vector<Id> step(np);
    vector<Id> saved = F.v;
    // steps
    for (size_t i = 0; i < np; i++) {
        auto *ph = cast<PHINode>(&*std::next(f.F->begin(), L.header)->begin()); (void)ph; 
    }
    // concrete trip count simulation
    const BasicBlock *hb = &*std::next(f.F->begin(), L.header); vector<i64> st(np); vector<bool> inv(np);
    { size_t i = 0; for (auto &ph : hb->phis()) { const Value *nx = nullptr; const BasicBlock *lb = &*std::next(f.F->begin(), L.latch); nx = ph.getIncomingValueForBlock(lb); st[i] = 0; inv[i] = nx == &ph; if (auto *bo = dyn_cast<BinaryOperator>(nx)) st[i] = cast<ConstantInt>(bo->getOperand(1))->getSExtValue(); if (auto *g = dyn_cast<GetElementPtrInst>(nx)) { APInt o(64, 0); cast<GEPOperator>(g)->accumulateConstantOffset(*DL, o); st[i] = o.getSExtValue(); } i++; } }
    auto at = [&](size_t i, Id k) -> Id { // value of phi i at iteration k (64-bit id)
        if (inv[i] || st[i] == 0) return start[i];
        const Node s = D[start[i]];
        if (s.op == O_PTR) return mkPtr((uint32_t)s.k, D.add(s.a[0], D.scale(k, (u128)(i128)st[i] & D.rmask(64))));
        return D.add(start[i], D.scale(D.extract(k, 0, s.w), (u128)(i128)st[i] & D.rmask(s.w)));
    };
    for (size_t i = 0; i < np; i++) if (!inv[i] && st[i] != 0) { const Node &s = D[start[i]]; if (s.op == O_PTR) { if (!D.isC(s.a[0])) return false; } else if (s.op != O_CONST) return false; }
    auto headerCond = [&](Id k) -> Id { for (size_t i = 0; i < np; i++) F.v[H.phis[i].dst] = at(i, k); for (size_t q = 0; q + 1 < H.ins.size(); q++) { Id r = execIns(F, H.ins[q]); if (H.ins[q].dst >= 0) F.v[H.ins[q].dst] = r; } Id c = val(F, H.ins.back().ops[0]); bool inT = L.blocks.count(H.ins.back().bbs[0]); return inT ? c : D.bnot(c); };
    u64 N = 0;
    try {
        for (;; N++) { Id c = headerCond(D.cst(64, N)); if (c == D.FALSE_) break; if (c != D.TRUE_ || N > 70000) { F.v = saved; return false; } if (N == 0) { } }
    } catch (Unsupported &) { F.v = saved; return false; }
    if (N < loopMin) { F.v = saved; L.fails += 0; return false; }
    // attempt
    Id idStart = (Id)D.nodes.size(); size_t mk = journal.size(), pcs = PC.size(), ob = obligs.size(); auto ls = labelStats; auto mc = methodCount; u64 nf = nFail; uint32_t os = objs.size(); int cd = callDepth;
    inMap = true; mstores.clear(); mloads.clear(); mapN = N; mapObjStart = os; mapIterObjs.clear(); D.klo = 0; D.khi = N; bool ok = true; string why;
    size_t jsize = journal.size(); (void)jsize; auto ctorRunBefore = ctorsRun.size(); (void)ctorRunBefore; size_t allocs = F.allocas.size();
    try {
        headerCond(D.KV);
        int body = L.blocks.count(H.ins.back().bbs[0]) ? H.ins.back().bbs[0] : H.ins.back().bbs[1];
        Arrive a; if (body == L.header) { } else a = execFrom(F, body, L.header, L.header, nullptr);
        if (a.dead || a.returned) { ok = false; why = "dead/returned"; }
        if (PC.size() != pcs) { ok = false; why = "assumption in loop"; }
    } catch (MapAbort &m) { ok = false; why = m.why; } catch (Unsupported &u) { ok = false; why = u.what(); }
    inMap = false; D.klo = D.khi = 0; callDepth = cd;
    for (uint32_t o : mapIterObjs) objs[o].iterLocal = false;
    vector<MapStore> st2 = mstores; mstores.clear(); mloads.clear();
    if (!ok) {
        rollback(mk); while (PC.size() > pcs) popPC(); obligs.resize(ob); labelStats = ls; methodCount = mc; nFail = nf; F.v = saved; F.allocas.resize(allocs); L.fails++; mapsFail++;
        if (verbose) fprintf(stderr, "  map failed in %s (N=%lu): %s\n", f.dem.substr(0, 100).c_str(), (unsigned long)N, why.c_str());
        return false;
    }
    for (uint32_t o : mapIterObjs) clearRange(o, 0, objs[o].size);
    mapsOk++;
    for (auto &m : st2) {
        // partial (conditional) stores were merged with the old contents
        if (m.s == (i64)m.size) {
            // reads that cross a piece boundary are resolved per piece
            std::set<u64> cuts = pieceCuts(m.val, N, idStart); u64 lo = 0; cuts.insert(N);
            if (cuts.size() > 9 || cuts.size() == 1) writeBlock(m.obj, m.c0, N, m.size, m.w, D.lam(m.val), 0);
            else for (u64 hi : cuts) {
                D.klo = lo; D.khi = hi; TermDB::Subst memo; Id v = D.rebuild(m.val, memo, [&](Id y) -> Id { return (D[y].flags & 1) && !(D[y].op == O_BIG && y < idStart) ? 0xffffffffu : y; }); D.klo = D.khi = 0;
                if (hi - lo == 1) writeScalar(m.obj, m.c0 + lo * m.size, m.size, D.subst(v, D.KV, D.cst(64, lo))); else writeBlock(m.obj, m.c0 + lo * m.size, hi - lo, m.size, m.w, D.lam(v), lo);
                lo = hi;
            }
        }
        else if (m.s == -(i64)m.size) { D.klo = 0; D.khi = N; Id rv = D.lam(D.subst(m.val, D.KV, D.sub(D.cst(64, N - 1), D.KV))); D.klo = D.khi = 0; writeBlock(m.obj, m.c0 + m.s * (i64)(N - 1), N, m.size, m.w, rv, 0); }
        else {
            // several interleaved stores forming a contiguous range are written elementwise
            for (u64 k = 0; k < N; k++) writeScalar(m.obj, m.c0 + m.s * (i64)k, m.size, D.subst(m.val, D.KV, D.cst(64, k)));
        }
    }
    F.v = saved; headerCond(D.cst(64, N));
    finalPhis.clear(); for (size_t i = 0; i < np; i++) finalPhis.push_back(at(i, D.cst(64, N)));
    return true;
}
static u64 innerIter = 0; static std::chrono::steady_clock::time_point tStart; static double timeLimit = 1e9;
static Arrive execFrom(Frame &F, int bb, int prev, int stop, vector<Id> *preset)
{
    Fn &f = *F.f; bool first = true;
    while (true) {
        BB &B = f.bbs[bb];
        vector<Id> ph;
        if (preset && first) ph = *preset;
        else {
            enterPhis(F, bb, prev, ph);
            if (bb == stop && !(first && prev < 0)) { Arrive a; a.from = prev; a.phis = ph; return a; }
        }
        first = false; preset = nullptr;
        if (B.loopHeader >= 0) {
            LoopI &L = f.loops[B.loopHeader];
            if (L.candidate && !inMap && L.fails < 2 && prev >= 0 && !L.blocks.count(prev)) {
                vector<Id> fin; 
                if (tryMap(F, L, prev, fin)) { ph = fin; }
            }
            if (inMap && L.blocks.count(prev)) { if (++innerIter > 4096) { innerIter = 0; throw MapAbort{"long inner loop"}; } } else innerIter = 0;
        }
        for (size_t i = 0; i < B.phis.size(); i++) F.v[B.phis[i].dst] = ph[i];
        size_t ni = B.ins.size();
        for (size_t q = 0; q + 1 < ni; q++) {
            Ins &x = B.ins[q]; 
            if ((++steps & 0xfffff) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - tStart).count() > timeLimit) throw std::runtime_error("time limit");
            Id r = execIns(F, x); if (x.dst >= 0) F.v[x.dst] = r;
        }
        Ins &t = B.ins[ni - 1]; steps++;
        switch (t.op) {
        case Instruction::Ret: { Arrive a; a.returned = true; a.ret = t.ops.empty() ? 0 : val(F, t.ops[0]); return a; }
        case Instruction::Unreachable: { Arrive a; a.dead = true; oblig(D.FALSE_, "unreachable/abort reached in " + f.dem.substr(0, 80), "abort"); return a; }
        case Instruction::Invoke: { Id r = execIns(F, t); if (t.dst >= 0) F.v[t.dst] = r; prev = bb; bb = t.bbs[0]; continue; }
        case Instruction::Br: {
            if (t.bbs[1] < 0) { prev = bb; bb = t.bbs[0]; continue; }
            Id c = val(F, t.ops[0]); int d = decide(c);
            if (d >= 0) { prev = bb; bb = d ? t.bbs[0] : t.bbs[1]; if (f.bbs[bb].dead && inMap) throw MapAbort{"dead path"}; continue; }
            // loop-exit decisions: ask the solver so that symbolic trip counts terminate
            bool inLoop = false; for (auto &L : f.loops) if (L.blocks.count(bb) && (L.blocks.count(t.bbs[0]) != L.blocks.count(t.bbs[1]))) inLoop = true;
            if (inLoop && !inMap) {
                auto r1 = smtProve(PC, c, D.klo, D.khi, 10000); if (r1.r == SmtResult::VALID) { prev = bb; bb = t.bbs[0]; continue; }
                auto r2 = smtProve(PC, D.bnot(c), D.klo, D.khi, 10000); if (r2.r == SmtResult::VALID) { prev = bb; bb = t.bbs[1]; continue; }
            }
            Arrive a = fork(F, bb, {{c, t.bbs[0]}, {D.TRUE_, t.bbs[1]}}, 0, stop);
            if (a.dead || a.returned) return a;
            int J = B.ipdom; if (J < 0) throw Unsupported("no join");
            if (J == stop) return a;
            // continue at J with merged phis
            auto &JB = f.bbs[J]; (void)JB; prev = bb; bb = J; 
            { vector<Id> pre = a.phis; Arrive r = execFrom(F, J, -2, stop, &pre); return r; }
        }
        case Instruction::Switch: {
            auto *sw = cast<SwitchInst>(t.I); Id v = val(F, t.ops[0]); vector<std::pair<Id, int>> alts;
            int dflt = B.succs[0]; unsigned si = 1; bool done = false;
            for (auto &cs : sw->cases()) { Id c = D.eq(v, constId(const_cast<ConstantInt *>(cs.getCaseValue()))); int tgt = B.succs[cs.getSuccessorIndex()]; (void)si; if (c == D.TRUE_) { prev = bb; bb = tgt; done = true; break; } if (c != D.FALSE_) alts.push_back({c, tgt}); }
            if (done) continue;
            if (alts.empty()) { prev = bb; bb = dflt; continue; }
            alts.push_back({D.TRUE_, dflt});
            if (f.bbs[dflt].dead) { Id any = D.FALSE_; for (size_t i = 0; i + 1 < alts.size(); i++) any = D.bor(any, alts[i].first); oblig(any, "switch covers", "abort"); alts.pop_back(); alts.back().first = D.TRUE_; }
            Arrive a = fork(F, bb, alts, 0, stop); if (a.dead || a.returned) return a; int J = B.ipdom; if (J == stop) return a;
            vector<Id> pre = a.phis; return execFrom(F, J, -2, stop, &pre);
        }
        default: throw Unsupported(string("terminator ") + t.I->getOpcodeName());
        }
    }
}
// ------------------------------------------------------------------ driver
static void prepareModule()
{
    // inline only standard-library helpers; every repository function keeps its boundary
    for (auto &F : *M) {
        if (F.isDeclaration()) continue;
        StringRef n = F.getName(); F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::MinSize); F.removeFnAttr(Attribute::OptimizeForSize);
        bool std_ = n.starts_with("_ZSt") || n.starts_with("_ZNSt") || n.starts_with("_ZNKSt") || n.starts_with("_ZN9__gnu") || n.starts_with("_ZNK9__gnu");
        if (std_ && F.getInstructionCount() < 60 && !n.contains("uniform_int_distribution")) { F.removeFnAttr(Attribute::NoInline); F.addFnAttr(Attribute::AlwaysInline); }
        else { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
    }
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM; auto e = PB.parsePassPipeline(MPM, "always-inline,function(lowerinvoke,simplifycfg<no-switch-to-lookup;no-sink-common-insts>,sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg<no-switch-to-lookup;no-sink-common-insts;no-forward-switch-cond>,mergereturn,loop-simplify)");
    if (e) { errs() << "pipeline: " << toString(std::move(e)) << "\n"; exit(3); }
    MPM.run(*M, MAM);
}
static string jesc(const string &s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static int realMain(int argc, char **argv)
{
    string bc, proof, cexOut; bool list = false; string prep;
    for (int i = 1; i < argc; i++) {
        string a = argv[i];
        if (a == "--list") list = true; else if (a == "--proof") proof = argv[++i]; else if (a == "--smt-timeout") smtTimeout = atoi(argv[++i]); else if (a == "--time") timeLimit = atof(argv[++i]);
        else if (a == "-v") verbose = true; else if (a == "--cex") cexOut = argv[++i]; else if (a == "--max-fail") maxFail = atoi(argv[++i]); else if (a == "--prep") prep = argv[++i]; else bc = a;
    }
    static LLVMContext C; SMDiagnostic err; M = parseIRFile(bc, err, C);
    if (!M) { err.print("tvc", errs()); return 3; }
    if (list) { for (auto &F : *M) if (!F.isDeclaration() && F.getName().starts_with("proof_")) printf("%s\n", F.getName().str().c_str()); fflush(stdout); _exit(0); }
    DL = &M->getDataLayout();
    if (M->getNamedMetadata("tvc.prepared") == nullptr) { prepareModule(); M->getOrInsertNamedMetadata("tvc.prepared"); }
    if (!prep.empty()) { std::error_code ec; raw_fd_ostream os(prep, ec); M->print(os, nullptr); os.flush(); _exit(0); }
    // dynamic initialisers
    for (auto &F : *M) if (F.getName().starts_with("__cxx_global_var_init")) for (auto &I : instructions(F)) for (auto &o : I.operands()) { Value *v = o.get()->stripInBoundsOffsets(); if (auto *g = dyn_cast<GlobalVariable>(v)) if (!g->isConstant() || true) { auto &vec = gvCtors[g]; if (std::find(vec.begin(), vec.end(), &F) == vec.end() && !g->getName().starts_with("__dso_handle") && !g->getName().starts_with(".str")) vec.push_back(&F); } }
    Function *P = M->getFunction(proof); if (!P) { fprintf(stderr, "no proof function %s\n", proof.c_str()); return 3; }
    tStart = std::chrono::steady_clock::now(); string status = "ok", msg; int rc = 0;
    try { callFunction(P, {}); }
    catch (StopProof &) { }
    catch (Unsupported &u) { status = "unsupported"; msg = u.what(); rc = 2; }
    catch (MapAbort &u) { status = "unsupported"; msg = "map: " + u.why; rc = 2; }
    catch (std::exception &u) { status = "timeout"; msg = u.what(); rc = 2; }
    double secs = std::chrono::duration<double>(std::chrono::steady_clock::now() - tStart).count();
    u64 tot = 0, okc = 0, str = 0, smt = 0; for (auto &l : labelStats) { tot += l.second[0]; okc += l.second[1]; str += l.second[2]; smt += l.second[4]; }
    if (rc == 0 && nFail) { status = "failed"; rc = 1; }
    if (rc == 0 && tot == 0) { status = "vacuous"; rc = 2; }
    if (!cexOut.empty() && !cexLines.empty()) { FILE *f = fopen(cexOut.c_str(), "w"); for (auto &l : cexLines) fprintf(f, "%s\n", l.first.c_str()); fclose(f); }
    std::ostringstream os; os << "{\"proof\":\"" << proof << "\",\"status\":\"" << status << "\",\"msg\":\"" << jesc(msg) << "\",\"obligations\":" << tot << ",\"discharged\":" << okc << ",\"secs\":" << secs << ",\"smt_secs\":" << smtSecs << ",\"smt_queries\":" << smtQueries << ",\"smt_cache_hits\":" << smtCacheHits << ",\"steps\":" << steps << ",\"terms\":" << D.nodes.size() << ",\"maps\":" << mapsOk << ",\"maps_unrolled\":" << mapsFail << ",\"covers\":" << nCover << ",\"covers_ok\":" << nCoverOk << ",\"mem_checks\":" << nMemChecks;
    os << ",\"methods\":{"; bool fst = true; for (auto &m : methodCount) { os << (fst ? "" : ",") << "\"" << m.first << "\":" << m.second; fst = false; } os << "}";
    auto arr = [&](const char *k, std::set<string> &s) { os << ",\"" << k << "\":["; bool f = true; for (auto &x : s) { os << (f ? "" : ",") << "\"" << jesc(x) << "\""; f = false; } os << "]"; };
    arr("functions", fnsExecuted); arr("contracts_used", fnsReplaced); arr("contracts", fnsContract); arr("externs", externs); arr("assumptions", assumptionsUsed);
    os << ",\"labels\":["; fst = true; for (auto &l : labelStats) { os << (fst ? "" : ",") << "[\"" << jesc(l.first) << "\"," << l.second[0] << "," << l.second[1] << "]"; fst = false; if (labelStats.size() > 400) break; } os << "]";
    os << ",\"failed\":["; fst = true; for (auto &o : obligs) { os << (fst ? "" : ",") << "{\"label\":\"" << jesc(o.label) << "\",\"kind\":\"" << o.kind << "\",\"unknown\":" << (o.unknown ? "true" : "false") << ",\"method\":\"" << jesc(o.method) << "\",\"detail\":\"" << jesc(o.detail) << "\"}"; fst = false; } os << "]}";
    printf("%s\n", os.str().c_str()); fflush(stdout);
    _exit(rc);
}

// terms nest deeply: run on a thread with a large stack
static int gArgc, gRet; static char **gArgv;
int main(int argc, char **argv)
{
    gArgc = argc; gArgv = argv; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, (size_t)4 << 30); pthread_t t;
    if (pthread_create(&t, &at, [](void *) -> void * { gRet = realMain(gArgc, gArgv); return nullptr; }, nullptr)) return realMain(argc, argv);
    pthread_join(t, nullptr); return gRet;
}
