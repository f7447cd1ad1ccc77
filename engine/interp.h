// IR interpretation over abstract states (included by absint.cpp)
static const DataLayout* DLp;
static Module* M;

struct FnInfo
{
    Function* F;
    std::unordered_map<const Value*, int> num;
    DominatorTree DT;
    LoopInfo LI;
    std::unordered_map<const BasicBlock*, int> rpo;
    std::unordered_map<const BasicBlock*, std::vector<char>> liveIn;
    std::unordered_map<const Instruction*, int> ord;
    bool liveReady = false;
    explicit FnInfo(Function* f) : F(f)
    {
        int n = 0;
        for(auto& a : f->args()) num[&a] = n++;
        for(auto& bb : *f)
        {
            int o = 0;
            for(auto& i : bb) { num[&i] = n++; ord[&i] = o++; }
        }
        DT.recalculate(*f);
        LI.analyze(DT);
        std::vector<BasicBlock*> po;
        std::set<BasicBlock*> seen;
        std::vector<std::pair<BasicBlock*, succ_iterator>> stk;
        seen.insert(&f->getEntryBlock());
        stk.push_back({&f->getEntryBlock(), succ_begin(&f->getEntryBlock())});
        while(!stk.empty())
        {
            auto& top = stk.back();
            if(top.second == succ_end(top.first)) { po.push_back(top.first); stk.pop_back(); }
            else
            {
                BasicBlock* s = *top.second;
                ++top.second;
                if(seen.insert(s).second) stk.push_back({s, succ_begin(s)});
            }
        }
        // reverse post order, but keep loop bodies before loop exits: process exits later by using
        // loop-aware ordering through the key (loop header first), RPO alone is enough otherwise.
        int k = 0;
        for(size_t i = po.size(); i-- > 0;) rpo[po[i]] = k++;
    }
    void computeLive()
    {
        if(liveReady) return;
        liveReady = true;
        size_t n = num.size();
        for(auto& bb : *F) liveIn[&bb].assign(n, 0);
        bool ch = true;
        while(ch)
        {
            ch = false;
            for(auto it = F->end(); it != F->begin();)
            {
                --it;
                BasicBlock& bb = *it;
                std::vector<char> live(n, 0);
                for(BasicBlock* s : successors(&bb))
                {
                    auto& sl = liveIn[s];
                    for(size_t i = 0; i < n; ++i) if(sl[i]) live[i] = 1;
                    for(auto& phi : s->phis())
                    {
                        live[num[&phi]] = 0;
                    }
                    for(auto& phi : s->phis())
                        for(unsigned i = 0; i < phi.getNumIncomingValues(); ++i)
                            if(phi.getIncomingBlock(i) == &bb)
                            {
                                auto f = num.find(phi.getIncomingValue(i));
                                if(f != num.end()) live[f->second] = 1;
                            }
                }
                for(auto ii = bb.rbegin(); ii != bb.rend(); ++ii)
                {
                    live[num[&*ii]] = 0;
                    if(isa<PHINode>(*ii)) { live[num[&*ii]] = 1; continue; }
                    for(auto& op : ii->operands())
                    {
                        auto f = num.find(op.get());
                        if(f != num.end()) live[f->second] = 1;
                    }
                }
                auto& li = liveIn[&bb];
                for(size_t i = 0; i < n; ++i) if(live[i] && !li[i]) { li[i] = 1; ch = true; }
            }
        }
    }
};
static std::map<Function*, std::unique_ptr<FnInfo>> fnInfos;
static FnInfo* infoOf(Function* f)
{
    auto& p = fnInfos[f];
    if(!p) p.reset(new FnInfo(f));
    return p.get();
}

// ------------------------------------------------------------------ run context
struct Fail
{
    std::string msg, loc, trace;
    std::shared_ptr<State> st;
    bool stepLimit = false;
};
struct InputDecl { Range full; int cells = 1; int mode = 0; int sym = -1; };
struct Run
{
    std::vector<Range> cell;      // ranges per input (empty: use the declared range)
    std::vector<InputDecl> inputs; // filled while running
    std::vector<Fail> fails;
    long steps = 0, states = 0, joins = 0, asserts = 0, paths = 0;
    std::string unsupported;
    bool discovery = false, stepLimited = false, imprecise = false;
    long forks = 0;
};
static Run* R;
static std::set<const DILocation*> covered;
static const Instruction* curInst;
static std::set<const Instruction*> coveredInst;
static bool tracing = false;
static std::vector<std::string> tracePath; // library locations in execution order, without repetition
static std::set<const DILocation*> traceSeen;
static void traceInst(const Instruction* I)
{
    const DILocation* l0 = I->getDebugLoc().get();
    if(!l0 || !traceSeen.insert(l0).second || tracePath.size() > 400) return;
    for(const DILocation* l = l0; l; l = l->getInlinedAt())
    {
        std::string fn = l->getFilename().str();
        size_t p = fn.find("include/eirin/");
        if(p == std::string::npos) continue;
        if(!l->getLine()) return;
        auto* sp = l->getScope()->getSubprogram();
        std::string s = fn.substr(p) + ":" + std::to_string(l->getLine()) + " (" + (sp ? sp->getName().str() : std::string("?")) + ")";
        if(std::find(tracePath.begin(), tracePath.end(), s) == tracePath.end()) tracePath.push_back(s);
        return;
    }
}

static std::string locStr(const DebugLoc& d)
{
    if(!d) return "?";
    std::string s;
    const DILocation* l = d.get();
    // innermost location first, then inlining chain
    int n = 0;
    while(l && n < 6)
    {
        std::string f = l->getFilename().str();
        size_t p = f.find("include/eirin");
        if(p != std::string::npos) f = f.substr(p);
        else { p = f.rfind('/'); if(p != std::string::npos) f = f.substr(p + 1); }
        if(n) s += " <- ";
        auto* sc = l->getScope()->getSubprogram();
        s += f + ":" + std::to_string(l->getLine()) + (sc ? " (" + sc->getName().str() + ")" : "");
        l = l->getInlinedAt();
        ++n;
    }
    return s;
}

// ------------------------------------------------------------------ memory
static int newObj(State& st, int64_t size, const std::string& name)
{
    auto o = std::make_shared<Obj>();
    o->size = size;
    o->name = name;
    st.mem.push_back(o);
    return (int)st.mem.size() - 1;
}
static Obj& wobj(State& st, int id)
{
    auto& p = st.mem[id];
    if(p.use_count() > 1) p = std::make_shared<Obj>(*p);
    return *p;
}
static Val mkPtr(int obj, const Lin& off) { return {V_PTR, internPtr(obj, internLin(off))}; }
static Val constVal(State& st, const Constant* c);

static int globalObj(State& st, const GlobalVariable* g)
{
    auto it = st.gobj.find(g);
    if(it != st.gobj.end()) return it->second;
    int64_t sz = g->getValueType()->isSized() ? (int64_t)DLp->getTypeAllocSize(g->getValueType()) : 0;
    if(!g->hasInitializer()) sz = 1 << 20;
    int id = newObj(st, sz, g->getName().str());
    Obj& o = wobj(st, id);
    o.gv = g->hasInitializer() ? g : nullptr;
    o.zeroInit = !g->hasInitializer();
    o.writable = !g->isConstant();
    st.gobj[g] = id;
    return id;
}
static Val fpConst(const APFloat& f)
{
    if(f.isNaN() || f.isInfinity()) return {V_FP, internFp({0, 0, true})};
    if(f.isZero()) return {V_FP, internFp({internLin(lin_const(0)), 0, false})};
    // mantissa * 2^e exactly
    int e = ilogb(f);
    unsigned prec = APFloat::semanticsPrecision(f.getSemantics());
    APFloat m = scalbn(f, (int)prec - 1 - e, APFloat::rmNearestTiesToEven);
    APSInt iv(128, false);
    bool ex;
    m.convertToInteger(iv, APFloat::rmTowardZero, &ex);
    i128 v = (i128)(((u128)iv.extractBitsAsZExtValue(64, 64) << 64) | (u128)iv.extractBitsAsZExtValue(64, 0));
    int ee = e - (int)prec + 1;
    while(v != 0 && (v & 1) == 0) { v /= 2; ++ee; }
    return {V_FP, internFp({internLin(lin_const(v)), ee, false})};
}
static i128 apToI(const APInt& a)
{
    unsigned w = a.getBitWidth();
    if(w > 128) throw Unsupported{"int wider than 128"};
    APInt x = a.sext(128);
    return (i128)(((u128)x.extractBitsAsZExtValue(64, 64) << 64) | (u128)x.extractBitsAsZExtValue(64, 0));
}
static Val constVal(State& st, const Constant* c)
{
    if(auto* ci = dyn_cast<ConstantInt>(c))
    {
        if(ci->getBitWidth() == 1) return vCond(ci->isOne() ? CT : CF);
        return vConst(apToI(ci->getValue()));
    }
    if(auto* cf = dyn_cast<ConstantFP>(c)) return fpConst(cf->getValueAPF());
    if(isa<UndefValue>(c) && !isa<PoisonValue>(c) && (c->getType()->isVectorTy() || c->getType()->isAggregateType()))
    {
        unsigned n = c->getType()->isVectorTy() ? cast<FixedVectorType>(c->getType())->getNumElements() :
                     c->getType()->isStructTy() ? c->getType()->getStructNumElements() : (unsigned)c->getType()->getArrayNumElements();
        return {V_AGG, internAgg(std::vector<Val>(n))};
    }
    if(isa<PoisonValue>(c) && (c->getType()->isVectorTy() || c->getType()->isAggregateType()))
    {
        unsigned n = c->getType()->isVectorTy() ? cast<FixedVectorType>(c->getType())->getNumElements() :
                     c->getType()->isStructTy() ? c->getType()->getStructNumElements() : (unsigned)c->getType()->getArrayNumElements();
        return {V_AGG, internAgg(std::vector<Val>(n))};
    }
    if(isa<UndefValue>(c)) return {};
    if(isa<ConstantPointerNull>(c)) return mkPtr(-1, lin_const(0));
    if(auto* g = dyn_cast<GlobalVariable>(c)) return mkPtr(globalObj(st, g), lin_const(0));
    if(auto* f = dyn_cast<Function>(c))
    {
        for(size_t i = 0; i < fns.size(); ++i) if(fns[i] == f) return {V_FN, (int)i};
        fns.push_back(const_cast<Function*>(f));
        return {V_FN, (int)fns.size() - 1};
    }
    if(auto* a = dyn_cast<GlobalAlias>(c)) return constVal(st, a->getAliasee());
    if(auto* cds = dyn_cast<ConstantDataSequential>(c))
    {
        std::vector<Val> v;
        for(unsigned i = 0; i < cds->getNumElements(); ++i) v.push_back(constVal(st, cds->getElementAsConstant(i)));
        return {V_AGG, internAgg(v)};
    }
    if(auto* ca = dyn_cast<ConstantAggregate>(c))
    {
        std::vector<Val> v;
        for(auto& op : ca->operands()) v.push_back(constVal(st, cast<Constant>(op.get())));
        return {V_AGG, internAgg(v)};
    }
    if(isa<ConstantAggregateZero>(c))
    {
        Type* t = c->getType();
        unsigned n = t->isVectorTy() ? cast<FixedVectorType>(t)->getNumElements() : t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements();
        std::vector<Val> v;
        for(unsigned i = 0; i < n; ++i) v.push_back(constVal(st, c->getAggregateElement(i)));
        return {V_AGG, internAgg(v)};
    }
    if(auto* ce = dyn_cast<ConstantExpr>(c))
    {
        if(auto* gep = dyn_cast<GEPOperator>(ce))
        {
            APInt off(64, 0);
            if(!gep->accumulateConstantOffset(*DLp, off)) throw Unsupported{"constant gep"};
            Val b = constVal(st, cast<Constant>(gep->getPointerOperand()));
            if(b.k != V_PTR) throw Unsupported{"constant gep base"};
            PtrV p = ptrs[b.id];
            return mkPtr(p.obj, lin_add(lins[p.off], lin_const(off.getSExtValue())));
        }
        if(ce->getOpcode() == Instruction::BitCast || ce->getOpcode() == Instruction::AddrSpaceCast) return constVal(st, ce->getOperand(0));
        Constant* f = ConstantFoldConstant(ce, *DLp);
        if(f && f != ce) return constVal(st, f);
    }
    std::string s;
    raw_string_ostream os(s);
    c->print(os);
    throw Unsupported{"constant " + os.str()};
}
static Val getv(State& st, const Value* v)
{
    if(auto* c = dyn_cast<Constant>(v)) return constVal(st, c);
    Frame& f = st.fr.back();
    auto it = f.fi->num.find(v);
    if(it == f.fi->num.end()) throw Unsupported{"value kind"};
    return f.env[it->second];
}
static Lin asLin(State& st, Val v)
{
    if(v.k == V_INT) return lins[v.id];
    if(v.k == V_COND) return lin_const(decide(st, v.id) ? 1 : 0);
    if(v.k == V_UNDEF) throw FailEx{undefMsg("use of an uninitialised value")};
    if(v.k == V_PTR)
    {
        // address: base symbol + offset; objects lie apart, in the order of their creation (as in cmpVal)
        PtrV p = ptrs[v.id];
        if(p.obj < 0) return lins[p.off];
        int s = newSym({S_OP, lin_const(p.obj), Lin(), 0, OP_MEMO, 64}, {((i128)1 << 40) + ((i128)p.obj << 26), ((i128)1 << 40) + ((i128)p.obj << 26) + (1 << 20)});
        return lin_add(lin_sym(s), lins[p.off]);
    }
    throw Unsupported{"integer expected"};
}
static int asCond(State& st, Val v)
{
    if(v.k == V_COND) return v.id;
    if(v.k == V_INT) return mkNE(st, lins[v.id]);
    if(v.k == V_UNDEF) throw FailEx{undefMsg("control flow depends on an uninitialised value")};
    throw Unsupported{"condition expected"};
}
static std::vector<Val> aggOf(Val v, unsigned n)
{
    if(v.k == V_AGG) return aggs[v.id];
    if(v.k == V_UNDEF) return std::vector<Val>(n);
    throw Unsupported{"aggregate expected"};
}

static Lin extractBytes(State& st, const Lin& whole, int off, int n, int total)
{
    // bytes [off, off+n) of a canonical signed value of `total` bytes, canonical signed result
    Lin x = whole;
    Lin lo = mkFDIV(st, x, (i128)1 << (8 * off));
    return wrapTo(st, lo, 8 * n);
}
static Val loadInt(State& st, int oid, int64_t off, int n);

static Val constLoad(State& st, Obj& o, Type* ty, int64_t off)
{
    if(o.zeroInit) return constVal(st, Constant::getNullValue(ty));
    if(!o.gv) return {};
    Constant* c = ConstantFoldLoadFromConst(const_cast<Constant*>(o.gv->getInitializer()), ty, APInt(64, off), *DLp);
    if(!c) throw Unsupported{"load from constant"};
    return constVal(st, c);
}
static Val loadAt(State& st, int oid, int64_t off, Type* ty)
{
    if(oid < 0) throw FailEx{"null pointer access"};
    Obj& o = *st.mem[oid];
    int64_t n = (int64_t)DLp->getTypeStoreSize(ty);
    if(o.dead) throw FailEx{"access to a dead object " + o.name};
    if(off < 0 || off + n > o.size) throw FailEx{"out-of-bounds read at offset " + std::to_string(off) + " (size " + std::to_string(n) + ") of object '" + o.name + "' of size " + std::to_string(o.size)};
    if(ty->isVectorTy() || ty->isStructTy() || ty->isArrayTy())
    {
        std::vector<Val> v;
        if(auto* vt = dyn_cast<FixedVectorType>(ty))
        {
            int64_t es = (int64_t)DLp->getTypeStoreSize(vt->getElementType());
            for(unsigned i = 0; i < vt->getNumElements(); ++i) v.push_back(loadAt(st, oid, off + es * i, vt->getElementType()));
        }
        else if(auto* s = dyn_cast<StructType>(ty))
        {
            auto* sl = DLp->getStructLayout(s);
            for(unsigned i = 0; i < s->getNumElements(); ++i) v.push_back(loadAt(st, oid, off + (int64_t)sl->getElementOffset(i), s->getElementType(i)));
        }
        else
        {
            auto* at = cast<ArrayType>(ty);
            int64_t es = (int64_t)DLp->getTypeAllocSize(at->getElementType());
            for(unsigned i = 0; i < at->getNumElements(); ++i) v.push_back(loadAt(st, oid, off + es * i, at->getElementType()));
        }
        return {V_AGG, internAgg(v)};
    }
    auto it = o.cells.find(off);
    if(it != o.cells.end() && it->second.size == n)
    {
        Val v = it->second.v;
        if(ty->isIntegerTy() && ty->getIntegerBitWidth() < 8 * (unsigned)n && v.k == V_INT)
        {
            if(ty->getIntegerBitWidth() == 1) return vCond(mkNE(st, andConst(st, lins[v.id], 1, 8)));
            return vInt(wrapTo(st, lins[v.id], ty->getIntegerBitWidth()));
        }
        if(ty->isIntegerTy() && v.k == V_FP)
        { // bits of a constant (copies through integers)
            FpV x = fps[v.id];
            if(x.top || !lins[x.m].isConst() || (n != 4 && n != 8)) throw Unsupported{"fp punning"};
            double d = (double)ldexpl((long double)lins[x.m].c, x.e);
            uint64_t b;
            if(n == 4) { float g = (float)d; uint32_t q; memcpy(&q, &g, 4); b = q; return vConst((i128)(int32_t)b); }
            memcpy(&b, &d, 8);
            return vConst((i128)(int64_t)b);
        }
        if(ty->isFloatingPointTy() && v.k == V_INT)
        {
            if(!lins[v.id].isConst() || (n != 4 && n != 8)) throw Unsupported{"fp punning"};
            uint64_t b = (uint64_t)lins[v.id].c;
            return fpConst(APFloat(ty->getFltSemantics(), APInt((unsigned)(8 * n), n == 4 ? (b & 0xffffffffu) : b)));
        }
        return v;
    }
    // overlap?
    bool overlap = false;
    {
        auto j = o.cells.lower_bound(off);
        if(j != o.cells.begin())
        {
            auto p = std::prev(j);
            if(p->first + p->second.size > off) overlap = true;
        }
        if(j != o.cells.end() && j->first < off + n) overlap = true;
    }
    if(!overlap) return constLoad(st, o, ty, off);
    if(ty->isIntegerTy()) return loadInt(st, oid, off, (int)n);
    throw Unsupported{"partial load"};
}
static Val loadInt(State& st, int oid, int64_t off, int n)
{
    Obj& o = *st.mem[oid];
    // single covering cell
    auto j = o.cells.upper_bound(off);
    if(j != o.cells.begin())
    {
        auto p = std::prev(j);
        if(p->first <= off && p->first + p->second.size >= off + n)
        {
            if(p->second.v.k == V_UNDEF) return {};
            Lin w = asLin(st, p->second.v);
            return vInt(extractBytes(st, w, (int)(off - p->first), n, p->second.size));
        }
    }
    // assemble from bytes
    Lin r;
    Type* i8 = Type::getInt8Ty(M->getContext());
    for(int i = 0; i < n;)
    {
        // take whole cells where possible
        auto c = o.cells.find(off + i);
        int sz = 1;
        Val v;
        if(c != o.cells.end() && c->second.size <= n - i) { sz = c->second.size; v = c->second.v; }
        else
        {
            auto q = o.cells.upper_bound(off + i);
            bool in = false;
            if(q != o.cells.begin())
            {
                auto p = std::prev(q);
                if(p->first + p->second.size > off + i)
                {
                    in = true;
                    if(p->second.v.k != V_UNDEF)
                        v = vInt(extractBytes(st, asLin(st, p->second.v), (int)(off + i - p->first), 1, p->second.size));
                }
            }
            if(!in) v = constLoad(st, o, i8, off + i);
        }
        if(v.k == V_UNDEF) return {};
        Lin b = asLin(st, v);
        if(i + sz < n) b = unsignedOf(st, b, 8 * sz);
        if(8 * i < 127) r = lin_add(r, lin_scale(b, (i128)1 << (8 * i)));
        i += sz;
    }
    return vInt(r);
}
static void storeAt(State& st, int oid, int64_t off, int64_t n, Val v, Type* ty)
{
    if(oid < 0) throw FailEx{"null pointer access"};
    {
        Obj& o = *st.mem[oid];
        if(o.dead) throw FailEx{"access to a dead object " + o.name};
        if(off < 0 || off + n > o.size) throw FailEx{"out-of-bounds write at offset " + std::to_string(off) + " (size " + std::to_string(n) + ") of object '" + o.name + "' of size " + std::to_string(o.size)};
        if(!o.writable) throw FailEx{"write to constant object '" + o.name + "'"};
    }
    if(ty && (ty->isVectorTy() || ty->isStructTy() || ty->isArrayTy()))
    {
        if(auto* vt = dyn_cast<FixedVectorType>(ty))
        {
            auto a = aggOf(v, vt->getNumElements());
            int64_t es = (int64_t)DLp->getTypeStoreSize(vt->getElementType());
            for(unsigned i = 0; i < a.size(); ++i) storeAt(st, oid, off + es * i, es, a[i], vt->getElementType());
        }
        else if(auto* s = dyn_cast<StructType>(ty))
        {
            auto* sl = DLp->getStructLayout(s);
            auto a = aggOf(v, s->getNumElements());
            for(unsigned i = 0; i < a.size(); ++i) storeAt(st, oid, off + (int64_t)sl->getElementOffset(i), (int64_t)DLp->getTypeStoreSize(s->getElementType(i)), a[i], s->getElementType(i));
        }
        else
        {
            auto* at = cast<ArrayType>(ty);
            auto a = aggOf(v, (unsigned)at->getNumElements());
            int64_t es = (int64_t)DLp->getTypeAllocSize(at->getElementType());
            for(unsigned i = 0; i < a.size(); ++i) storeAt(st, oid, off + es * i, (int64_t)DLp->getTypeStoreSize(at->getElementType()), a[i], at->getElementType());
        }
        return;
    }
    // split overlapping cells
    std::vector<std::pair<int64_t, MemCell>> keep;
    {
        Obj& o = wobj(st, oid);
        auto j = o.cells.lower_bound(off);
        if(j != o.cells.begin() && std::prev(j)->first + std::prev(j)->second.size > off) --j;
        while(j != o.cells.end() && j->first < off + n)
        {
            if(!(j->first >= off && j->first + j->second.size <= off + n)) keep.push_back({j->first, j->second});
            j = o.cells.erase(j);
        }
    }
    for(auto& k : keep)
    {
        Lin w;
        bool und = k.second.v.k == V_UNDEF;
        if(!und) w = asLin(st, k.second.v);
        for(int b = 0; b < k.second.size; ++b)
        {
            int64_t p = k.first + b;
            if(p >= off && p < off + n) continue;
            Val bv = und ? Val() : vInt(extractBytes(st, w, b, 1, k.second.size));
            wobj(st, oid).cells[p] = {1, bv};
        }
    }
    wobj(st, oid).cells[off] = {(int)n, v};
}
static int64_t constOff(State& st, const Lin& off, int maxFork, int64_t size, int64_t step)
{
    Lin o = simp(st, off);
    if(o.isConst()) return (int64_t)o.c;
    Range r = bestRange(st, o);
    if(r.single()) return (int64_t)r.lo;
    // definitely/possibly outside?
    if(r.lo < 0)
    {
        if(!decideNonNeg(st, o)) throw FailEx{"out-of-bounds access: negative offset"};
    }
    r = bestRange(st, o);
    if(r.hi > size - step)
    {
        if(!decideLE(st, lin_add(o, lin_const(-(size - step))))) throw FailEx{"out-of-bounds access: offset beyond the object"};
        r = bestRange(st, o);
    }
    i128 g = 0;
    for(auto& t : o.t) g = gcd128(g, t.second);
    i128 cnt = (r.hi - r.lo) / g + 1;
    if(cnt > maxFork) throw Unsupported{"symbolic address with " + to_s(cnt) + " values"};
    ForkEx f;
    i128 first = r.lo;
    while((first - o.c) % g != 0) ++first;
    for(i128 v = first; v <= r.hi; v += g) f.alts.push_back({{lin_add(o, lin_const(-v)), C_EQ}});
    throw f;
}
static Val doLoad(State& st, Val p, Type* ty)
{
    if(p.k == V_UNDEF) throw FailEx{"load through an uninitialised pointer"};
    if(p.k != V_PTR) throw Unsupported{"load address"};
    PtrV pv = ptrs[p.id];
    if(pv.obj < 0) throw FailEx{"null pointer read"};
    Lin off = simp(st, lins[pv.off]);
    Obj& o = *st.mem[pv.obj];
    if(!off.isConst() && o.gv && o.gv->isConstant() && o.cells.empty() && ty->isIntegerTy())
    {
        // constant table: bounds, then piecewise-affine or hull
        int64_t n = (int64_t)DLp->getTypeStoreSize(ty);
        Range r = bestRange(st, off);
        if(r.lo < 0 && !decideNonNeg(st, off)) throw FailEx{"out-of-bounds table read: negative index in '" + o.name + "'"};
        if(r.hi > o.size - n && !decideLE(st, lin_add(off, lin_const(-(o.size - n)))))
            throw FailEx{"out-of-bounds table read beyond the end of '" + o.name + "' (size " + std::to_string(o.size) + ")"};
        r = bestRange(st, off);
        i128 g = 0;
        for(auto& t : off.t) g = gcd128(g, t.second);
        i128 first = r.lo;
        while((first - off.c) % g != 0) ++first;
        std::vector<std::pair<i128, i128>> pts;
        for(i128 v = first; v <= r.hi && pts.size() < 5000; v += g)
        {
            Val c = constLoad(st, o, ty, (int64_t)v);
            if(c.k == V_COND) throw Unsupported{"bool table"};
            if(c.k != V_INT || !lins[c.id].isConst()) throw Unsupported{"table entry"};
            pts.push_back({v, lins[c.id].c});
        }
        if(pts.empty()) throw Infeasible();
        // maximal affine runs
        std::vector<std::pair<size_t, size_t>> runs;
        for(size_t i = 0; i < pts.size();)
        {
            size_t j = i;
            if(i + 1 < pts.size())
            {
                i128 d = pts[i + 1].second - pts[i].second;
                j = i + 1;
                while(j + 1 < pts.size() && pts[j + 1].second - pts[j].second == d) ++j;
            }
            runs.push_back({i, j});
            i = j + 1;
            if(runs.size() > 64) break;
        }
        if(runs.size() == 1)
        {
            auto a = pts[runs[0].first], b = pts[runs[0].second];
            if(a.first == b.first) return vConst(a.second);
            i128 dv = b.second - a.second, dx = b.first - a.first;
            // value = a.second + dv*(off - a.first)/dx ; exact on the lattice (multiples of g)
            i128 step = dv / (dx / g); // per g
            Lin idx = lin_add(off, lin_const(-a.first));
            if(step % g == 0) return vInt(lin_add(lin_const(a.second), lin_scale(idx, step / g)));
            // divide idx by g exactly
            Lin q = mkFDIV(st, idx, g);
            return vInt(lin_add(lin_const(a.second), lin_scale(q, step)));
        }
        if(runs.size() <= 64)
        {
            ForkEx f;
            for(auto& rr : runs)
                f.alts.push_back({{lin_add(off, lin_const(-pts[rr.second].first)), C_LE}, {lin_add(lin_const(pts[rr.first].first), off, -1), C_LE}});
            throw f;
        }
        Range h{pts[0].second, pts[0].second};
        for(auto& q : pts) h = hull(h, {q.second, q.second});
        return vInt(freshLin(h));
    }
    int64_t k = constOff(st, off, 80, o.size, (int64_t)DLp->getTypeStoreSize(ty));
    return loadAt(st, pv.obj, k, ty);
}

// ------------------------------------------------------------------ floating point (exact dyadic)
static unsigned fpPrec(Type* t)
{
    if(t->isFloatTy()) return 24;
    if(t->isDoubleTy()) return 53;
    if(t->isX86_FP80Ty()) return 64;
    if(t->isHalfTy()) return 11;
    if(t->isFP128Ty()) return 113;
    throw Unsupported{"fp type"};
}
// round to nearest, ties to even: a / c for a power of two c
static Lin roundEven(State& st, Lin a, i128 c)
{
    Lin q = mkFDIV(st, lin_add(a, lin_const(c / 2)), c);
    Lin rest = lin_add(lin_add(a, lin_const(c / 2)), lin_scale(q, c), -1);
    if(!decideEQ(st, rest)) return q;
    Lin odd = lin_add(q, lin_scale(mkFDIV(st, q, 2), 2), -1);
    return decideEQ(st, odd) ? q : lin_add(q, lin_const(-1));
}
static Val fpTop() { return {V_FP, internFp({0, 0, true})}; }
static Val mkFp(State& st, Lin m, int e, unsigned prec)
{
    m = simp(st, m);
    if(m.isConst() && m.c == 0) return {V_FP, internFp({internLin(lin_const(0)), 0, false})};
    i128 g = content(m);
    int sh = 0;
    while(g && (g & 1) == 0) { g >>= 1; ++sh; }
    if(sh)
    {
        for(auto& t : m.t) t.second >>= sh; // exact, content divisible
        m.c >>= sh;
        e += sh;
    }
    Range r = bestRange(st, m, 2);
    i128 lim = prec >= 126 ? IMAX : (i128)1 << prec;
    if(r.lo < -lim || r.hi > lim || r.lo == IMIN || r.hi == IMAX)
    {
        if(m.isConst())
        {
            // round to nearest even exactly
            bool neg = m.c < 0;
            u128 v = neg ? (u128)0 - (u128)m.c : (u128)m.c;
            int bits = 0;
            for(u128 t = v; t; t >>= 1) ++bits;
            int drop = bits - (int)prec;
            u128 q = v >> drop, rem = v & (((u128)1 << drop) - 1), half = (u128)1 << (drop - 1);
            if(rem > half || (rem == half && (q & 1))) ++q;
            i128 mv = neg ? -(i128)q : (i128)q;
            return mkFp(st, lin_const(mv), e + drop, prec + 1);
        }
        // a few bits too many: round by binade
        if(prec > 64 || r.lo < -(lim << 12) || r.hi > (lim << 12)) return fpTop();
        bool neg = r.lo < 0 && (r.hi <= 0 || !decideNonNeg(st, m));
        Lin a = neg ? lin_scale(m, -1) : m;
        for(int d = 0; d <= 12; ++d)
            if(d == 12 || decideLE(st, lin_add(a, lin_const(-(lim << d)))))
            {
                Lin q = d ? roundEven(st, a, (i128)1 << d) : a;
                return {V_FP, internFp({internLin(neg ? lin_scale(q, -1) : q), e + d, false})};
            }
        return fpTop();
    }
    return {V_FP, internFp({internLin(m), e, false})};
}
static Val fpBin(State& st, unsigned opc, Val a, Val b, Type* ty)
{
    if(a.k == V_UNDEF || b.k == V_UNDEF) return {};
    if(a.k != V_FP || b.k != V_FP) throw Unsupported{"fp operand"};
    FpV x = fps[a.id], y = fps[b.id];
    if(x.top || y.top) return fpTop();
    unsigned p = fpPrec(ty);
    try
    {
        if(opc == Instruction::FAdd || opc == Instruction::FSub)
        {
            Lin mx = lins[x.m], my = lins[y.m];
            if(mx.isConst() && mx.c == 0) x.e = y.e;
            if(my.isConst() && my.c == 0) y.e = x.e;
            int e = std::min(x.e, y.e);
            if(x.e - e > 120 || y.e - e > 120) return fpTop();
            mx = lin_scale(mx, (i128)1 << (x.e - e));
            my = lin_scale(my, (i128)1 << (y.e - e));
            return mkFp(st, lin_add(mx, my, opc == Instruction::FAdd ? 1 : -1), e, p);
        }
        if(opc == Instruction::FMul)
            return mkFp(st, mulLin(st, lins[x.m], lins[y.m]), x.e + y.e, p);
        if(opc == Instruction::FDiv)
        {
            Lin my = lins[y.m];
            if(my.isConst() && (my.c == 1 || my.c == -1)) return mkFp(st, lin_scale(lins[x.m], my.c), x.e - y.e, p);
            return fpTop();
        }
    }
    catch(Overflow&) {}
    return fpTop();
}
static int fpCmp(State& st, CmpInst::Predicate pr, Val a, Val b)
{
    if(a.k == V_UNDEF || b.k == V_UNDEF) throw FailEx{undefMsg("comparison of an uninitialised value")};
    FpV x = fps[a.id], y = fps[b.id];
    auto unknown = [&]() { return mkNE(st, freshLin({0, 1})); };
    if(x.top || y.top) return unknown();
    try
    {
        Lin mx = lins[x.m], my = lins[y.m];
        if(mx.isConst() && mx.c == 0) x.e = y.e;
        if(my.isConst() && my.c == 0) y.e = x.e;
        int e = std::min(x.e, y.e);
        if(x.e - e > 100 || y.e - e > 100) return unknown();
        Lin d = lin_add(lin_scale(mx, (i128)1 << (x.e - e)), lin_scale(my, (i128)1 << (y.e - e)), -1);
        switch(pr)
        {
        case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return mkEQ(st, d);
        case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return mkNE(st, d);
        case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return mkLE(st, d);
        case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return mkLE(st, lin_add(d, lin_const(1)));
        case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return mkLE(st, lin_scale(d, -1));
        case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return mkLE(st, lin_add(lin_const(1), d, -1));
        case CmpInst::FCMP_ORD: return CT;
        case CmpInst::FCMP_UNO: return CF;
        default: break;
        }
    }
    catch(Overflow&) {}
    return unknown();
}
static Lin truncDivConst(State& st, Lin a, i128 c)
{
    if(decideNonNeg(st, a)) return mkFDIV(st, a, c);
    return lin_scale(mkFDIV(st, lin_scale(a, -1), c), -1);
}
static Val fpToInt(State& st, Val a, unsigned n, bool sgn)
{
    if(a.k == V_UNDEF) return {};
    FpV x = fps[a.id];
    Range w = width_range(n);
    if(!sgn) w = {0, n >= 127 ? IMAX : ((i128)1 << n) - 1};
    if(x.top) return vInt(freshLin(width_range(n)));
    Lin m = lins[x.m];
    if(x.e >= 0) m = lin_scale(m, (i128)1 << std::min(x.e, 120));
    else if(x.e > -120) m = truncDivConst(st, m, (i128)1 << -x.e);
    else m = lin_const(0);
    if(w.hi != IMAX && !decideLE(st, lin_add(m, lin_const(-w.hi)))) throw FailEx{"floating value out of range of the integer type (undefined conversion)"};
    if(w.lo != IMIN && !decideLE(st, lin_add(lin_const(w.lo), m, -1))) throw FailEx{"floating value out of range of the integer type (undefined conversion)"};
    return vInt(wrapTo(st, m, n));
}

// ------------------------------------------------------------------ integer operations
static Lin divTrunc(State& st, Lin a, Lin b, bool rem)
{
    a = simp(st, a);
    b = simp(st, b);
    Range rb = bestRange(st, b, 2);
    if(rb.lo <= 0 && rb.hi >= 0)
        if(decideEQ(st, b)) throw FailEx{"division by zero"};
    if(!b.isConst() && a.t.size() == b.t.size() && a.t[0].second % b.t[0].second == 0)
    {
        // an exact multiple of the divisor
        i128 k = a.t[0].second / b.t[0].second;
        if(lin_scale(b, k) == a) return lin_const(rem ? 0 : k);
    }
    bool na = !decideNonNeg(st, a), nb = !decideNonNeg(st, b);
    Lin A = na ? lin_scale(a, -1) : a, B = nb ? lin_scale(b, -1) : b;
    Lin q = mkUD(st, A, B);
    if(na != nb) q = lin_scale(q, -1);
    if(!rem) return q;
    Lin p = mulLin(st, b, q);
    Lin r = lin_add(a, p, -1);
    // remember |r| < |b| and the sign of r for variable divisors
    if(!B.isConst())
    {
        Lin rr = na ? lin_scale(r, -1) : r;
        assumeLin(st, lin_scale(rr, -1), C_LE);
        assumeLin(st, lin_add(lin_add(rr, B, -1), lin_const(1)), C_LE);
    }
    return r;
}
static Val intBin(State& st, BinaryOperator* I, unsigned opc, Val va, Val vb, unsigned n);
static Val intBinL(State& st, unsigned opc, Lin a, Lin b, unsigned n, bool nsw)
{
    try
    {
        switch(opc)
        {
        case Instruction::Add: 
        case Instruction::Sub:
        case Instruction::Mul:
            {
                Lin r = opc == Instruction::Add ? lin_add(a, b) : opc == Instruction::Sub ? lin_add(a, b, -1) : mulLin(st, a, b);
                if(nsw && gcfg.overflow && n < 128)
                {
                    Range w = width_range(n);
                    if(!decideLE(st, lin_add(r, lin_const(-w.hi))) || !decideLE(st, lin_add(lin_const(w.lo), r, -1)))
                    {
                        // poison: fine as long as nothing depends on it (a speculated operation)
                        gOverflowAt = curInst ? locStr(curInst->getDebugLoc()) : "?";
                        return {};
                    }
                }
                return vInt(wrapTo(st, r, n));
            }
        case Instruction::SDiv:
        case Instruction::SRem:
            {
                if(opc == Instruction::SRem && n < 128)
                {
                    Range w = width_range(n);
                    Range ra = bestRange(st, a, 2), rb = bestRange(st, b, 2);
                    if(ra.lo <= w.lo && rb.lo <= -1 && rb.hi >= -1 && decideEQ(st, lin_add(b, lin_const(1))) && decideEQ(st, lin_add(a, lin_const(-w.lo))))
                        throw FailEx{"signed remainder overflow (minimum % -1)"};
                }
                Lin q = divTrunc(st, a, b, opc == Instruction::SRem);
                if(opc == Instruction::SDiv && n < 128)
                {
                    Range w = width_range(n);
                    Range r = bestRange(st, q, 2);
                    if(r.hi > w.hi && !decideLE(st, lin_add(q, lin_const(-w.hi)))) throw FailEx{"signed division overflow (minimum / -1)"};
                }
                return vInt(q);
            }
        case Instruction::UDiv:
        case Instruction::URem:
            {
                a = unsignedOf(st, a, n);
                b = unsignedOf(st, b, n);
                Lin q = divTrunc(st, a, b, opc == Instruction::URem);
                return vInt(wrapTo(st, q, n));
            }
        case Instruction::Shl:
        case Instruction::LShr:
        case Instruction::AShr:
            {
                b = simp(st, b);
                if(!b.isConst())
                {
                    Range r = bestRange(st, b);
                    if(r.lo < 0 && !decideNonNeg(st, b)) throw FailEx{"shift amount out of range"};
                    if(r.hi >= (i128)n && !decideLE(st, lin_add(b, lin_const(-(i128)(n - 1))))) throw FailEx{"shift amount out of range"};
                    r = bestRange(st, b);
                    ForkEx f;
                    for(i128 v = r.lo; v <= r.hi; ++v) f.alts.push_back({{lin_add(b, lin_const(-v)), C_EQ}});
                    if(f.alts.size() == 1) b = lin_const(r.lo);
                    else throw f;
                }
                if(b.c < 0 || b.c >= (i128)n) throw FailEx{"shift amount out of range"};
                int k = (int)b.c;
                if(k >= 127) throw Overflow();
                i128 m = (i128)1 << k;
                if(opc == Instruction::Shl) return vInt(wrapTo(st, lin_scale(a, m), n));
                if(opc == Instruction::AShr) return vInt(mkFDIV(st, a, m));
                if(k == 0) return vInt(a);
                if(gcfg.bits && n <= 64)
                {
                    a = simp(st, a);
                    if(!a.isConst()) return vInt(lin_sym(newSym({S_OP, a, lin_const(k), 0, OP_LSHR, n}, {0, ((i128)1 << (n - k)) - 1})));
                }
                return vInt(wrapTo(st, mkFDIV(st, unsignedOf(st, a, n), m), n));
            }
        case Instruction::And:
        case Instruction::Or:
        case Instruction::Xor: return vInt(bitop(st, opc, a, b, n));
        default: break;
        }
    }
    catch(Overflow&)
    {
        // exact modular evaluation for constants, otherwise unknown
        a = simp(st, a);
        b = simp(st, b);
        if(a.isConst() && b.isConst())
        {
            u128 x = (u128)a.c, y = (u128)b.c, r = 0;
            bool ok = true;
            switch(opc)
            {
            case Instruction::Add: r = x + y; break;
            case Instruction::Sub: r = x - y; break;
            case Instruction::Mul: r = x * y; break;
            case Instruction::Shl: r = x << (int)b.c; break;
            case Instruction::LShr: r = x >> (int)b.c; if(n < 128) ok = false; break;
            case Instruction::AShr: r = (u128)(a.c >> (int)b.c); break;
            case Instruction::UDiv: r = x / y; break;
            case Instruction::URem: r = x % y; break;
            default: ok = false;
            }
            if(ok)
            {
                i128 v = (i128)r;
                if(n < 128)
                {
                    u128 mask = ((u128)1 << n) - 1;
                    r &= mask;
                    v = (r >> (n - 1)) & 1 ? (i128)(r | ~mask) : (i128)r;
                }
                return vConst(v);
            }
        }
        // opaque but deterministic
        if(opc == Instruction::Mul && n < 128) return vInt(mkOP(st, OP_WRAPMUL, a, b, n));
        return vInt(freshLin(width_range(n)));
    }
    throw Unsupported{"integer op"};
}
static int icmpCond(State& st, CmpInst::Predicate p, Lin a, Lin b, unsigned n)
{
    Lin d = lin_add(a, b, -1);
    switch(p)
    {
    case CmpInst::ICMP_EQ: return mkEQ(st, d);
    case CmpInst::ICMP_NE: return mkNE(st, d);
    case CmpInst::ICMP_SLE: return mkLE(st, d);
    case CmpInst::ICMP_SLT: return mkLE(st, lin_add(d, lin_const(1)));
    case CmpInst::ICMP_SGE: return mkLE(st, lin_scale(d, -1));
    case CmpInst::ICMP_SGT: return mkLE(st, lin_add(lin_const(1), d, -1));
    default: break;
    }
    // unsigned
    Range ra = bestRange(st, a, 2), rb = bestRange(st, b, 2);
    if((ra.lo >= 0 && rb.lo >= 0) || (ra.hi < 0 && rb.hi < 0)) return icmpCond(st, CmpInst::getSignedPredicate(p), a, b, n);
    if(rb.lo >= 0 && (p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_ULE))
        return mkAND(mkLE(st, lin_scale(a, -1)), icmpCond(st, CmpInst::getSignedPredicate(p), a, b, n));
    if(rb.lo >= 0) return mkOR(mkLE(st, lin_add(a, lin_const(1))), icmpCond(st, CmpInst::getSignedPredicate(p), a, b, n));
    Lin ua = unsignedOf(st, a, n), ub = unsignedOf(st, b, n);
    return icmpCond(st, CmpInst::getSignedPredicate(p), ua, ub, n);
}

// ------------------------------------------------------------------ reference functions
static void fRange(const Form& f, ld& lo, ld& hi) { lo = f.c0 - f.rad(); hi = f.c0 + f.rad(); }
static ld maxAbsOn(ld lo, ld hi, ld (*g)(ld)) { return std::max(fabsl(g(lo)), fabsl(g(hi))); }
static bool refForm(int fn, Form X, Form Y, Form& out, int plain = 0)
{
    // plain=1 prefers the interval enclosure over the first order form
    ld lo, hi;
    fRange(X, lo, hi);
    ld c = X.c0;
    switch(fn)
    {
    case 1: out = form_unary(X, sinl(c), cosl(c), 1); break;
    case 2: out = form_unary(X, cosl(c), -sinl(c), 1); break;
    case 3:
        { // tan
            ld k = floorl((c + M_PIl / 2) / M_PIl);
            if(lo <= (k - 0.5L) * M_PIl + 1e-12L || hi >= (k + 0.5L) * M_PIl - 1e-12L) return false;
            ld t = tanl(c);
            auto g2 = [](ld x) { ld t = tanl(x); return 2 * fabsl(t) * (1 + t * t); };
            out = form_unary(X, t, 1 + t * t, std::max(g2(lo), g2(hi)));
            break;
        }
    case 4:
        { // atan; |g''| = 2|x|/(1+x^2)^2 is largest at 1/sqrt(3) and decreases beyond
            ld m = lo > 0 ? lo : hi < 0 ? -hi : 0;
            ld g2 = m > 0.5774L ? 2 * m / ((1 + m * m) * (1 + m * m)) : 0.6496L;
            out = form_unary(X, atanl(c), 1 / (1 + c * c), g2);
            Form r = form_range(atanl(lo), atanl(hi));
            if(plain) out = r;
            break;
        }
    case 5:
    case 6:
        { // asin/acos
            if(lo < -1 || hi > 1)
            {
                if(X.rad() > 1e-6L) return false;
                if(c > 1) c = 1;
                if(c < -1) c = -1;
            }
            ld m = std::max(fabsl(lo), fabsl(hi));
            Form a;
            if(m < 1 && X.rad() > 0)
            {
                ld g1 = 1 / sqrtl(1 - c * c), g2 = m / powl(1 - m * m, 1.5L);
                a = form_unary(X, asinl(c), g1, g2);
            }
            else a = form_const(asinl(c));
            Form r = form_range(asinl(std::max(lo, -1.0L)), asinl(std::min(hi, 1.0L)));
            if(!(m < 1) || plain) a = r;
            if(fn == 6) a = form_add(form_const(M_PIl / 2), a, -1);
            out = a;
            break;
        }
    case 7:
    case 8:
    case 9:
        { // log2, ln, log10
            if(lo <= 0) return false;
            ld s = fn == 7 ? 1 / logl(2.0L) : fn == 8 ? 1.0L : 1 / logl(10.0L);
            out = form_unary(X, logl(c) * s, s / c, s / (lo * lo));
            Form r = form_range(logl(lo) * s, logl(hi) * s);
            if(plain) out = r;
            break;
        }
    case 10: out = form_unary(X, expl(c), expl(c), expl(hi)); break;
    case 11:
        { // sqrt
            if(lo < 0) { if(lo < -1e-9L) return false; lo = 0; }
            if(lo > 0) out = form_unary(X, sqrtl(c), 0.5L / sqrtl(c), 0.25L / (lo * sqrtl(lo)));
            Form r = form_range(sqrtl(lo), sqrtl(hi));
            if(!(lo > 0) || plain) out = r;
            break;
        }
    case 12:
        { // cbrt
            Form r = form_range(cbrtl(lo), cbrtl(hi));
            if(lo > 0 || hi < 0)
            {
                ld m = std::min(fabsl(lo), fabsl(hi));
                ld cb = cbrtl(c);
                out = form_unary(X, cb, 1 / (3 * cb * cb), 2 / (9 * powl(m, 5.0L / 3)));
                if(plain) out = r;
            }
            else out = r;
            break;
        }
    case 13: // hypot(x,y)
        {
            Form s = form_add(form_mul(X, X), form_mul(Y, Y));
            return refForm(11, s, Y, out, plain);
        }
    case 14: // pow(x,y)
        {
            Form l;
            if(!refForm(8, X, Y, l, plain)) return false;
            return refForm(10, form_mul(l, Y), Y, out, plain);
        }
    case 15: out = form_mul(X, form_const(180.0L / M_PIl)); break;
    case 16: out = form_mul(X, form_const(M_PIl / 180.0L)); break;
    case 17: out = X; break;
    case 18: { Form i; if(!form_inv(X, i)) return false; out = i; break; }
    default: throw Unsupported{"reference function"};
    }
    out = fslop(out);
    out.e += fabsl(out.c0) * 1e-18L;
    return true;
}

// ------------------------------------------------------------------ control
static std::vector<int> keyOf(State& st)
{
    std::vector<int> k;
    for(size_t i = 0; i < st.fr.size(); ++i)
    {
        Frame& f = st.fr[i];
        for(auto& l : f.loops) { k.push_back(l.hdr); k.push_back(l.count); }
        k.push_back(f.fi->rpo[f.bb]);
        k.push_back(f.fi->ord[&*f.it]);
    }
    return k;
}
static void enterBlock(State& st, BasicBlock* to)
{
    Frame& f = st.fr.back();
    BasicBlock* from = f.bb;
    // phis
    std::vector<std::pair<int, Val>> upd;
    for(auto& phi : to->phis())
    {
        Val v = getv(st, phi.getIncomingValueForBlock(from));
        upd.push_back({f.fi->num[&phi], v});
    }
    for(auto& u : upd) f.env[u.first] = u.second;
    f.bb = to;
    f.it = to->getFirstNonPHI()->getIterator();
    // loops
    while(!f.loops.empty())
    {
        bool in = false;
        for(Loop* l = f.fi->LI.getLoopFor(to); l; l = l->getParentLoop())
            if(f.fi->rpo[l->getHeader()] == f.loops.back().hdr) { in = true; break; }
        if(in) break;
        f.loops.pop_back();
    }
    if(Loop* l = f.fi->LI.getLoopFor(to))
        if(l->getHeader() == to)
        {
            int h = f.fi->rpo[to];
            if(!f.loops.empty() && f.loops.back().hdr == h) f.loops.back().count++;
            else f.loops.push_back({h, 0});
        }
}
static void pushFrame(State& st, Function* fn, const std::vector<Val>& args, CallBase* call)
{
    if(st.fr.size() > 40) throw Unsupported{"recursion depth"};
    Frame f;
    f.fi = infoOf(fn);
    f.env.assign(f.fi->num.size(), Val());
    for(size_t i = 0; i < args.size() && i < fn->arg_size(); ++i) f.env[i] = args[i];
    f.bb = &fn->getEntryBlock();
    f.it = f.bb->begin();
    f.call = call;
    st.fr.push_back(std::move(f));
}
static void setRes(State& st, const Instruction* I, Val v)
{
    Frame& f = st.fr.back();
    f.env[f.fi->num[I]] = v;
}
struct PathEnd {};
static void topReturn(State& st)
{
    if(st.expectThrow >= 0)
    {
        int c = st.expectThrow;
        if(decide(st, c)) throw FailEx{"no exception thrown where " + st.expectType + " is required"};
    }
    R->paths++;
    throw PathEnd();
}
static void finishCall(State& st, Val ret)
{
    // top frame returns
    CallBase* c = st.fr.back().call;
    st.fr.pop_back();
    if(!c->getType()->isVoidTy()) setRes(st, c, ret);
    Frame& f = st.fr.back();
    if(auto* iv = dyn_cast<InvokeInst>(c)) enterBlock(st, iv->getNormalDest());
    else f.it = std::next(c->getIterator());
}
// exception types: names are those of the type_info objects
static int typeidOf(const std::string& n)
{
    static std::map<std::string, int> ids;
    auto it = ids.find(n);
    if(it != ids.end()) return it->second;
    int id = (int)ids.size() + 1;
    return ids[n] = id;
}
static bool excIsA(const std::string& t, const std::string& base, int depth = 0)
{
    if(t == base) return true;
    if(depth > 8) return false;
    static const std::map<std::string, std::string> known = {
        {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
        {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"},
        {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt12format_error", "_ZTISt13runtime_error"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}};
    auto k = known.find(t);
    if(k != known.end()) return excIsA(k->second, base, depth + 1);
    if(t.find("__throw_") != std::string::npos)
    {
        std::string n = t.substr(t.find("__throw_") + 8);
        n = n.substr(0, n.find("PKc"));
        return excIsA("_ZTISt" + std::to_string(n.size()) + n, base, depth + 1);
    }
    if(auto* g = M->getNamedGlobal(t))
    {
        if(!g->hasInitializer()) throw Unsupported{"unknown exception type " + t};
        auto* c = dyn_cast<ConstantStruct>(g->getInitializer());
        for(unsigned i = 2; c && i < c->getNumOperands(); ++i)
            if(auto* b = dyn_cast<GlobalVariable>(c->getOperand(i)->stripPointerCasts()))
                if(b->getName().starts_with("_ZTI") && excIsA(b->getName().str(), base, depth + 1)) return true;
        return false;
    }
    throw Unsupported{"unknown exception type " + t};
}
// selector value a landing pad computes for an exception of this type: -1 when it lets the exception pass
static int selectorFor(const LandingPadInst* lp, const std::string& type)
{
    for(unsigned i = 0; i < lp->getNumClauses(); ++i)
    {
        if(lp->isFilter(i)) throw Unsupported{"exception filter"};
        auto* c = lp->getClause(i)->stripPointerCasts();
        if(isa<ConstantPointerNull>(c)) return typeidOf("");
        if(excIsA(type, c->getName().str())) return typeidOf(c->getName().str());
    }
    return lp->isCleanup() ? 0 : -1;
}
static void doThrow(State& st, const std::string& type, CallBase* at)
{
    CallBase* c = at;
    while(true)
    {
        if(auto* iv = dyn_cast_or_null<InvokeInst>(c))
        {
            if(selectorFor(iv->getLandingPadInst(), type) < 0) goto next;
            st.pathNotes.push_back("exc:" + type);
            enterBlock(st, iv->getUnwindDest());
            return;
        }
    next:
        Frame& f = st.fr.back();
        if(f.fi->F->doesNotThrow() && !f.fi->F->getName().starts_with("ob_"))
            throw FailEx{"exception " + type + " escapes a noexcept function (std::terminate)"};
        if(st.fr.size() == 1)
        {
            if(st.expectThrow < 0) throw FailEx{"unexpected exception " + type};
            int ec = st.expectThrow;
            if(!decide(st, ec)) throw FailEx{"exception " + type + " thrown although the argument is valid"};
            if(type.find(st.expectType) == std::string::npos) throw FailEx{"exception " + type + " thrown instead of " + st.expectType};
            R->paths++;
            throw PathEnd();
        }
        c = f.call;
        st.fr.pop_back();
    }
}
static std::string cstr(State& st, Val p)
{
    std::string s;
    if(p.k != V_PTR) return s;
    PtrV v = ptrs[p.id];
    Lin off = lins[v.off];
    for(int i = 0; i < 256; ++i)
    {
        Val b = loadAt(st, v.obj, (int64_t)off.c + i, Type::getInt8Ty(M->getContext()));
        if(b.k != V_INT || !lins[b.id].isConst()) break;
        if(lins[b.id].c == 0) break;
        s += (char)lins[b.id].c;
    }
    return s;
}
static double fpNum(State& st, Val v)
{
    if(v.k != V_FP) throw Unsupported{"constant double"};
    FpV f = fps[v.id];
    if(f.top || !lins[f.m].isConst()) throw Unsupported{"constant double"};
    return (double)ldexpl((ld)lins[f.m].c, f.e);
}
static void dumpForm(const char* n, Form f) { fprintf(stderr, "  %s: c0=%.10Lg c1=%.3Lg c2=%.3Lg e=%.3Lg\n", n, f.c0, f.c1, f.c2, f.e); }
static bool verbose = false;
static std::string linStr(State& st, const Lin& l, int depth = 0);
static std::string symStr(State& st, int s, int depth)
{
    Sym y = syms[s];
    std::string r;
    switch(y.k)
    {
    case S_INPUT: r = "in" + std::to_string(y.inputIdx); break;
    case S_FRESH: r = "fresh" + std::to_string(s); break;
    case S_ALIAS: r = "(" + linStr(st, y.E, depth + 1) + ")"; break;
    case S_MONO: for(auto& t : y.E.t) r += "*" + symStr(st, t.first, depth + 1) + (t.second > 1 ? "^" + to_s(t.second) : ""); break;
    case S_FDIV: r = "floor[" + (depth < 5 ? linStr(st, y.E, depth + 1) : std::string("..")) + " / " + to_s(y.c) + "]"; break;
    case S_UD: r = "udiv[" + (depth < 5 ? linStr(st, y.E, depth + 1) + " / " + linStr(st, y.B, depth + 1) : std::string("..")) + "]"; break;
    case S_OP: r = "op" + std::to_string(y.op) + "[" + (depth < 5 ? linStr(st, y.E, depth + 1) + " , " + linStr(st, y.B, depth + 1) : std::string("..")) + "]"; break;
    }
    return r;
}
static std::string linStr(State& st, const Lin& l, int depth)
{
    std::string r;
    for(auto& t : l.t) r += (r.empty() ? "" : " + ") + (t.second == 1 ? "" : to_s(t.second) + "*") + symStr(st, t.first, depth);
    if(l.c != 0 || l.t.empty()) r += (r.empty() ? "" : " + ") + to_s(l.c);
    return r;
}

static i128 msbOf(i128 v) { int k = -1; u128 u = (u128)v; while(u) u >>= 1, ++k; return k; }
// position of the highest set bit of a nonnegative form; forks until unique
static int msbFork(State& st, Lin l)
{
    l = simp(st, l);
    Range r = bestRange(st, l);
    if(r.lo < 0) r.lo = 0;
    int a = (int)msbOf(r.lo), b = (int)msbOf(r.hi);
    if(a == b) return a;
    ForkEx f;
    for(int k = a; k <= b; ++k)
    {
        i128 lo = k < 0 ? 0 : (i128)1 << k, hi = k < 0 ? 0 : ((i128)1 << (k + 1)) - 1;
        f.alts.push_back({{lin_add(l, lin_const(-hi)), C_LE}, {lin_add(lin_const(lo), l, -1), C_LE}});
    }
    throw f;
}

static void execCall(State& st, CallBase* cb);
static void advance(State& st, CallBase* cb)
{
    if(auto* iv = dyn_cast<InvokeInst>(cb)) enterBlock(st, iv->getNormalDest());
    else ++st.fr.back().it;
}
static Val mapLanes(State& st, Val a, Val b, const std::function<Val(Val, Val)>& f)
{
    auto x = aggs[a.id];
    auto y = b.k == V_AGG ? aggs[b.id] : std::vector<Val>(x.size(), b);
    std::vector<Val> r;
    for(size_t i = 0; i < x.size(); ++i) r.push_back(f(x[i], y[i]));
    return {V_AGG, internAgg(r)};
}
static Val binVal(State& st, Instruction* I, unsigned opc, Val a, Val b, Type* ty)
{
    if(auto* vt = dyn_cast<FixedVectorType>(ty))
    {
        Val x{V_AGG, internAgg(aggOf(a, vt->getNumElements()))}, y{V_AGG, internAgg(aggOf(b, vt->getNumElements()))};
        return mapLanes(st, x, y, [&](Val p, Val q) { return binVal(st, I, opc, p, q, vt->getElementType()); });
    }
    if(a.k == V_UNDEF || b.k == V_UNDEF) return {};
    if(ty->isFloatingPointTy()) return fpBin(st, opc, a, b, ty);
    unsigned n = ty->getIntegerBitWidth();
    if(n == 1)
    {
        int x = asCond(st, a), y = asCond(st, b);
        switch(opc)
        {
        case Instruction::And: case Instruction::Mul: return vCond(mkAND(x, y));
        case Instruction::Or: return vCond(mkOR(x, y));
        case Instruction::Xor: case Instruction::Add: case Instruction::Sub:
            if(y == CT) return vCond(mkNOT(x));
            if(x == CT) return vCond(mkNOT(y));
            return vCond(mkOR(mkAND(x, mkNOT(y)), mkAND(mkNOT(x), y)));
        default: throw Unsupported{"i1 op"};
        }
    }
    // boolean-valued integers keep their condition through bit operations
    if(a.k == V_COND && b.k == V_COND && (opc == Instruction::And || opc == Instruction::Or || opc == Instruction::Xor))
    {
        int x = a.id, y = b.id;
        if(opc == Instruction::And) return vCond(mkAND(x, y));
        if(opc == Instruction::Or) return vCond(mkOR(x, y));
        return vCond(mkOR(mkAND(x, mkNOT(y)), mkAND(mkNOT(x), y)));
    }
    if(a.k == V_COND && b.k == V_INT && lins[b.id].isConst())
    {
        i128 c = lins[b.id].c;
        if(opc == Instruction::And) { if(c & 1) return a; return vConst(0); }
        if(opc == Instruction::Xor && c == 1) return vCond(mkNOT(a.id));
    }
    Lin x = asLin(st, a), y = asLin(st, b);
    bool nsw = false;
    if(auto* o = dyn_cast_or_null<OverflowingBinaryOperator>(I)) nsw = o->hasNoSignedWrap();
    return intBinL(st, opc, x, y, n, nsw);
}
static Val castVal(State& st, CastInst* I, Val a, Type* from, Type* to)
{
    if(I->getOpcode() == Instruction::BitCast)
    {
        if(from == to || (from->isPointerTy() && to->isPointerTy())) return a;
        if(auto* vf = dyn_cast<FixedVectorType>(from); vf && a.k == V_AGG && aggs[a.id].size() == 2 && vf->getNumElements() == 16)
        {
            from = FixedVectorType::get(Type::getInt64Ty(I->getContext()), 2);
            if(from == to) return a;
        }
        // lane re-splitting through a scratch object
        int64_t n = (int64_t)DLp->getTypeStoreSize(from);
        int o = newObj(st, n, "bitcast");
        storeAt(st, o, 0, n, a, from);
        Val r = loadAt(st, o, 0, to);
        st.mem.pop_back();
        return r;
    }
    if(auto* vt = dyn_cast<FixedVectorType>(to))
    {
        auto* vf = cast<FixedVectorType>(from);
        auto x = aggOf(a, vf->getNumElements());
        std::vector<Val> r;
        for(auto& e : x) r.push_back(castVal(st, I, e, vf->getElementType(), vt->getElementType()));
        return {V_AGG, internAgg(r)};
    }
    if(a.k == V_UNDEF) return {};
    switch(I->getOpcode())
    {
    case Instruction::Trunc:
        if(to->getIntegerBitWidth() == 1)
        {
            if(a.k == V_COND) return a;
            return vCond(mkEQ(st, lin_add(andConst(st, asLin(st, a), 1, 8), lin_const(-1))));
        }
        if(a.k == V_COND) return a;
        return vInt(wrapTo(st, asLin(st, a), to->getIntegerBitWidth()));
    case Instruction::ZExt:
        if(a.k == V_COND) return a;
        return vInt(unsignedOf(st, asLin(st, a), from->getIntegerBitWidth()));
    case Instruction::SExt:
        if(from->isIntegerTy(1)) return vConst(decide(st, asCond(st, a)) ? -1 : 0);
        return a;
    case Instruction::SIToFP:
        return mkFp(st, asLin(st, a), 0, fpPrec(to));
    case Instruction::UIToFP:
        {
            if(from->isIntegerTy(1)) return mkFp(st, asLin(st, a), 0, fpPrec(to));
            return mkFp(st, unsignedOf(st, asLin(st, a), from->getIntegerBitWidth()), 0, fpPrec(to));
        }
    case Instruction::FPToSI: return fpToInt(st, a, to->getIntegerBitWidth(), true);
    case Instruction::FPToUI: return fpToInt(st, a, to->getIntegerBitWidth(), false);
    case Instruction::FPExt: return a;
    case Instruction::FPTrunc:
        {
            FpV f = fps[a.id];
            if(f.top) return a;
            return mkFp(st, lins[f.m], f.e, fpPrec(to));
        }
    case Instruction::PtrToInt: return a.k == V_PTR ? vInt(asLin(st, a)) : a;
    case Instruction::IntToPtr:
        {
            if(a.k == V_PTR) return a;
            Lin l = asLin(st, a);
            if(l.isConst() && l.c == 0) return mkPtr(-1, lin_const(0));
            // base symbol + offset back to a pointer
            for(auto& t : l.t)
                if(t.second == 1 && syms[t.first].k == S_OP && syms[t.first].op == OP_MEMO)
                    return mkPtr((int)syms[t.first].E.c, lin_add(l, lin_sym(t.first), -1));
            throw Unsupported{"inttoptr"};
        }
    default: throw Unsupported{"cast"};
    }
}
static int cmpVal(State& st, CmpInst::Predicate p, Val a, Val b, Type* ty)
{
    if(ty->isFloatingPointTy()) return fpCmp(st, p, a, b);
    if(a.k == V_UNDEF || b.k == V_UNDEF) throw FailEx{undefMsg("comparison of an uninitialised value")};
    if(ty->isPointerTy())
    {
        if(a.k == V_FN || b.k == V_FN)
        {
            bool eq = a == b;
            return (p == CmpInst::ICMP_EQ) == eq ? CT : CF;
        }
        PtrV x = ptrs[a.id], y = ptrs[b.id];
        if(x.obj == y.obj)
        {
            Lin d = lin_add(lins[x.off], lins[y.off], -1);
            return icmpCond(st, CmpInst::isUnsigned(p) ? CmpInst::getSignedPredicate(p) : p, d, lin_const(0), 64);
        }
        if(p == CmpInst::ICMP_EQ) return CF;
        if(p == CmpInst::ICMP_NE) return CT;
        if(x.obj < 0 || y.obj < 0)
        {
            bool less = x.obj < 0;
            if(p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_ULE) return less ? CT : CF;
            return less ? CF : CT;
        }
        // unrelated objects (std::less on pointers): unspecified but total
        bool less = x.obj < y.obj;
        if(p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_ULE) return less ? CT : CF;
        return less ? CF : CT;
    }
    unsigned n = ty->getIntegerBitWidth();
    if(n == 1)
    {
        int x = asCond(st, a), y = asCond(st, b);
        if(p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)
        {
            int e = mkOR(mkAND(x, y), mkAND(mkNOT(x), mkNOT(y)));
            return p == CmpInst::ICMP_EQ ? e : mkNOT(e);
        }
        return icmpCond(st, p, lin_const(decide(st, x) ? (CmpInst::isSigned(p) ? -1 : 1) : 0), lin_const(decide(st, y) ? (CmpInst::isSigned(p) ? -1 : 1) : 0), 8);
    }
    if(a.k == V_COND && b.k == V_INT && lins[b.id].isConst() && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE))
    {
        i128 c = lins[b.id].c;
        int r = c == 0 ? mkNOT(a.id) : c == 1 ? a.id : CF;
        return p == CmpInst::ICMP_EQ ? r : mkNOT(r);
    }
    Lin x = asLin(st, a), y = asLin(st, b);
    try { return icmpCond(st, p, x, y, n); }
    catch(Overflow&)
    {
        x = simp(st, x); y = simp(st, y);
        if(x.isConst() && y.isConst())
        {
            bool r = false;
            u128 ux = (u128)x.c, uy = (u128)y.c;
            switch(p)
            {
            case CmpInst::ICMP_ULT: r = ux < uy; break;
            case CmpInst::ICMP_ULE: r = ux <= uy; break;
            case CmpInst::ICMP_UGT: r = ux > uy; break;
            case CmpInst::ICMP_UGE: r = ux >= uy; break;
            case CmpInst::ICMP_SLT: r = x.c < y.c; break;
            case CmpInst::ICMP_SLE: r = x.c <= y.c; break;
            case CmpInst::ICMP_SGT: r = x.c > y.c; break;
            case CmpInst::ICMP_SGE: r = x.c >= y.c; break;
            default: r = false;
            }
            return r ? CT : CF;
        }
        return mkNE(st, freshLin({0, 1}));
    }
}

// executes one instruction; returns false when a new block was entered (scheduling point)
static bool execInst(State& st)
{
    Frame& f = st.fr.back();
    Instruction* I = &*f.it;
    curInst = I;
    R->steps++;
    coveredInst.insert(I);
    if(tracing) traceInst(I);
    if(auto* bo = dyn_cast<BinaryOperator>(I))
    {
        Val a = getv(st, bo->getOperand(0)), b = getv(st, bo->getOperand(1));
        setRes(st, I, binVal(st, I, bo->getOpcode(), a, b, I->getType()));
        ++st.fr.back().it;
        return true;
    }
    switch(I->getOpcode())
    {
    case Instruction::FNeg:
        {
            Val a = getv(st, I->getOperand(0));
            if(a.k == V_FP && !fps[a.id].top)
            {
                FpV x = fps[a.id];
                a = {V_FP, internFp({internLin(lin_scale(lins[x.m], -1)), x.e, false})};
            }
            setRes(st, I, a);
            break;
        }
    case Instruction::ICmp:
    case Instruction::FCmp:
        {
            auto* c = cast<CmpInst>(I);
            Val a = getv(st, c->getOperand(0)), b = getv(st, c->getOperand(1));
            Type* ty = c->getOperand(0)->getType();
            if(auto* vt = dyn_cast<FixedVectorType>(ty))
            {
                auto x = aggOf(a, vt->getNumElements()), y = aggOf(b, vt->getNumElements());
                std::vector<Val> r;
                for(size_t i = 0; i < x.size(); ++i) r.push_back(vCond(cmpVal(st, c->getPredicate(), x[i], y[i], vt->getElementType())));
                setRes(st, I, {V_AGG, internAgg(r)});
            }
            else if(gcfg.overflow && (a.k == V_UNDEF || b.k == V_UNDEF)) setRes(st, I, {}); // a speculated comparison
            else setRes(st, I, vCond(cmpVal(st, c->getPredicate(), a, b, ty)));
            break;
        }
    case Instruction::Select:
        {
            auto* s = cast<SelectInst>(I);
            Val c = getv(st, s->getCondition()), a = getv(st, s->getTrueValue()), b = getv(st, s->getFalseValue());
            if(c.k == V_AGG)
            {
                auto cc = aggs[c.id];
                auto x = aggOf(a, (unsigned)cc.size()), y = aggOf(b, (unsigned)cc.size());
                std::vector<Val> r;
                for(size_t i = 0; i < cc.size(); ++i) r.push_back(decide(st, asCond(st, cc[i])) ? x[i] : y[i]);
                setRes(st, I, {V_AGG, internAgg(r)});
                break;
            }
            int k = asCond(st, c);
            if(a == b) { setRes(st, I, a); break; }
            if(I->getType()->isIntegerTy(1) && a.k == V_COND && b.k == V_COND)
            {
                setRes(st, I, vCond(mkOR(mkAND(k, a.id), mkAND(mkNOT(k), b.id))));
                break;
            }
            setRes(st, I, decide(st, k) ? a : b);
            break;
        }
    case Instruction::Alloca:
        {
            auto* a = cast<AllocaInst>(I);
            auto sz = a->getAllocationSize(*DLp);
            if(!sz) throw Unsupported{"variable alloca"};
            int o = newObj(st, (int64_t)sz->getFixedValue(), a->getName().str().empty() ? "local" : a->getName().str());
            setRes(st, I, mkPtr(o, lin_const(0)));
            break;
        }
    case Instruction::Load:
        setRes(st, I, doLoad(st, getv(st, cast<LoadInst>(I)->getPointerOperand()), I->getType()));
        break;
    case Instruction::Store:
        {
            auto* s = cast<StoreInst>(I);
            Val p = getv(st, s->getPointerOperand()), v = getv(st, s->getValueOperand());
            if(p.k == V_UNDEF) throw FailEx{"store through an uninitialised pointer"};
            if(p.k != V_PTR) throw Unsupported{"store address"};
            PtrV pv = ptrs[p.id];
            if(pv.obj < 0) throw FailEx{"null pointer write"};
            int64_t n = (int64_t)DLp->getTypeStoreSize(s->getValueOperand()->getType());
            int64_t off = constOff(st, lins[pv.off], 80, st.mem[pv.obj]->size, n);
            storeAt(st, pv.obj, off, n, v, s->getValueOperand()->getType());
            break;
        }
    case Instruction::GetElementPtr:
        {
            auto* g = cast<GEPOperator>(I);
            Val b = getv(st, g->getPointerOperand());
            if(b.k == V_UNDEF) { setRes(st, I, {}); break; }
            if(b.k != V_PTR) throw Unsupported{"gep base"};
            MapVector<Value*, APInt> vars;
            APInt c(64, 0);
            if(!g->collectOffset(*DLp, 64, vars, c)) throw Unsupported{"gep"};
            PtrV p = ptrs[b.id];
            Lin off = lin_add(lins[p.off], lin_const(c.getSExtValue()));
            for(auto& v : vars)
            {
                Val iv = getv(st, v.first);
                Lin il = asLin(st, iv);
                off = lin_add(off, lin_scale(il, v.second.getSExtValue()));
            }
            setRes(st, I, mkPtr(p.obj, simp(st, off)));
            break;
        }
    case Instruction::ExtractValue:
        {
            auto* e = cast<ExtractValueInst>(I);
            Val a = getv(st, e->getAggregateOperand());
            for(unsigned i : e->indices())
            {
                if(a.k == V_UNDEF) break;
                if(a.k == V_EXC) { a = i == 0 ? mkPtr(-1, lin_const(0)) : vConst(a.id); break; }
                a = aggs[a.id][i];
            }
            setRes(st, I, a);
            break;
        }
    case Instruction::InsertValue:
        {
            auto* e = cast<InsertValueInst>(I);
            Val a = getv(st, e->getAggregateOperand()), v = getv(st, e->getInsertedValueOperand());
            std::function<Val(Val, Type*, unsigned)> ins = [&](Val cur, Type* ty, unsigned d) -> Val
            {
                if(d == e->getNumIndices()) return v;
                unsigned n = ty->isStructTy() ? ty->getStructNumElements() : (unsigned)ty->getArrayNumElements();
                auto x = aggOf(cur, n);
                unsigned i = e->getIndices()[d];
                Type* et = ty->isStructTy() ? ty->getStructElementType(i) : ty->getArrayElementType();
                x[i] = ins(x[i], et, d + 1);
                return {V_AGG, internAgg(x)};
            };
            setRes(st, I, ins(a, I->getType(), 0));
            break;
        }
    case Instruction::ExtractElement:
        {
            auto a = aggOf(getv(st, I->getOperand(0)), cast<FixedVectorType>(I->getOperand(0)->getType())->getNumElements());
            Lin i = simp(st, asLin(st, getv(st, I->getOperand(1))));
            if(!i.isConst() || i.c < 0 || i.c >= (i128)a.size()) throw Unsupported{"lane index"};
            setRes(st, I, a[(size_t)i.c]);
            break;
        }
    case Instruction::InsertElement:
        {
            auto a = aggOf(getv(st, I->getOperand(0)), cast<FixedVectorType>(I->getType())->getNumElements());
            Lin i = simp(st, asLin(st, getv(st, I->getOperand(2))));
            if(!i.isConst() || i.c < 0 || i.c >= (i128)a.size()) throw Unsupported{"lane index"};
            a[(size_t)i.c] = getv(st, I->getOperand(1));
            setRes(st, I, {V_AGG, internAgg(a)});
            break;
        }
    case Instruction::ShuffleVector:
        {
            auto* s = cast<ShuffleVectorInst>(I);
            unsigned n = cast<FixedVectorType>(s->getOperand(0)->getType())->getNumElements();
            auto a = aggOf(getv(st, s->getOperand(0)), n), b = aggOf(getv(st, s->getOperand(1)), n);
            std::vector<Val> r;
            for(int m : s->getShuffleMask()) r.push_back(m < 0 ? Val() : m < (int)n ? a[m] : b[m - n]);
            setRes(st, I, {V_AGG, internAgg(r)});
            break;
        }
    case Instruction::Freeze: setRes(st, I, getv(st, I->getOperand(0))); break;
    case Instruction::Br:
        {
            auto* b = cast<BranchInst>(I);
            BasicBlock* to;
            if(b->isUnconditional()) to = b->getSuccessor(0);
            else
            {
                int c = asCond(st, getv(st, b->getCondition()));
                to = decide(st, c) ? b->getSuccessor(0) : b->getSuccessor(1);
            }
            enterBlock(st, to);
            return false;
        }
    case Instruction::Switch:
        {
            auto* s = cast<SwitchInst>(I);
            Val cv = getv(st, s->getCondition());
            if(cv.k == V_UNDEF) throw FailEx{undefMsg("control flow depends on an uninitialised value")};
            Lin x = simp(st, asLin(st, cv));
            Range r = bestRange(st, x);
            if(r.single()) x = lin_const(r.lo);
            if(x.isConst())
            {
                BasicBlock* to = s->getDefaultDest();
                for(auto& c : s->cases()) if(apToI(c.getCaseValue()->getValue()) == x.c) to = c.getCaseSuccessor();
                enterBlock(st, to);
                return false;
            }
            std::vector<i128> vals;
            for(auto& c : s->cases()) vals.push_back(apToI(c.getCaseValue()->getValue()));
            std::sort(vals.begin(), vals.end());
            // default only?
            ForkEx fx;
            i128 lo = r.lo;
            bool any = false;
            for(i128 v : vals)
            {
                if(v < r.lo || v > r.hi) continue;
                any = true;
                if(lo < v) fx.alts.push_back({{lin_add(x, lin_const(-(v - 1))), C_LE}, {lin_add(lin_const(lo), x, -1), C_LE}});
                fx.alts.push_back({{lin_add(x, lin_const(-v)), C_EQ}});
                lo = v + 1;
            }
            if(!any)
            {
                enterBlock(st, s->getDefaultDest());
                return false;
            }
            if(lo <= r.hi) fx.alts.push_back({{lin_add(x, lin_const(-r.hi)), C_LE}, {lin_add(lin_const(lo), x, -1), C_LE}});
            throw fx;
        }
    case Instruction::Ret:
        {
            Val v;
            if(I->getNumOperands()) v = getv(st, I->getOperand(0));
            if(st.fr.size() == 1) topReturn(st);
            finishCall(st, v);
            return false;
        }
    case Instruction::Unreachable: throw FailEx{"unreachable code reached (undefined behaviour or missing return)"};
    case Instruction::LandingPad:
        {
            std::string t;
            for(auto& n : st.pathNotes) if(n.rfind("exc:", 0) == 0) t = n.substr(4);
            setRes(st, I, {V_EXC, std::max(0, selectorFor(cast<LandingPadInst>(I), t))});
            break;
        }
    case Instruction::Resume:
        {
            std::string t = "exception";
            for(auto& n : st.pathNotes) if(n.rfind("exc:", 0) == 0) t = n.substr(4);
            // leaves this frame
            CallBase* c = nullptr;
            Frame& fr = st.fr.back();
            if(st.fr.size() == 1) { doThrow(st, t, nullptr); return false; }
            c = fr.call;
            st.fr.pop_back();
            doThrow(st, t, c);
            return false;
        }
    case Instruction::Call:
    case Instruction::Invoke:
        {
            execCall(st, cast<CallBase>(I));
            return isa<CallInst>(I);
        }
    case Instruction::Fence: break;
    default:
        if(auto* ci = dyn_cast<CastInst>(I))
        {
            Val r;
            try { r = castVal(st, ci, getv(st, ci->getOperand(0)), ci->getSrcTy(), ci->getDestTy()); }
            catch(Overflow&)
            {
                if(ci->getDestTy()->isIntegerTy() && ci->getSrcTy()->isIntegerTy())
                {
                    Lin x = simp(st, asLin(st, getv(st, ci->getOperand(0))));
                    unsigned n = ci->getDestTy()->getIntegerBitWidth();
                    r = vInt(freshLin(width_range(n)));
                }
                else throw;
            }
            setRes(st, I, r);
            break;
        }
        throw Unsupported{std::string("instruction ") + I->getOpcodeName()};
    }
    ++st.fr.back().it;
    return true;
}
#include "calls.h"
#include "prep.h"
#include "driver.h"
