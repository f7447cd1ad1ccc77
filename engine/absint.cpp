// Trace-partitioned abstract interpreter over LLVM IR.
// It decides obligations (functions "ob_*" of a harness that calls the library's public API) by
// proving that no abstract state reaches a failing construct.  Domains: integer linear forms over
// hash-consed symbols with intervals, floor-division definitions and linear constraints; first-order
// real affine forms for numerical accuracy; exact dyadic floating point values; byte-addressed memory.
#include "core.h"
#include "llvm/ADT/APSInt.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/IR/IntrinsicsX86.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <csignal>
#include <unistd.h>
using namespace llvm;

static double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------ configuration of one obligation
enum CfgKey { CFG_MAXDISJ = 1, CFG_FORMS, CFG_EXPAND, CFG_FORKZEXT, CFG_STEPS, CFG_OVERFLOW, CFG_NOBISECT, CFG_BITS, CFG_SLOWOK };
struct Config
{
    int maxDisj = 4096, forms = 0, expand = 0, forkzext = 1, overflow = 0, nobisect = 0, bits = 0, slowok = 0;
    long steps = 4000000;
};
static Config gcfg;

// ------------------------------------------------------------------ symbols
enum SK : uint8_t { S_INPUT, S_FRESH, S_ALIAS, S_MONO, S_FDIV, S_UD, S_OP };
struct Sym
{
    SK k;
    Lin E, B;
    i128 c = 0;
    int op = 0;
    unsigned w = 0;
    Range init;
    int inputIdx = -1;
    std::vector<int> deps;
};
struct SymKey
{
    SK k; Lin E, B; i128 c; int op; unsigned w;
    bool operator==(const SymKey& o) const { return k == o.k && op == o.op && w == o.w && c == o.c && E == o.E && B == o.B; }
};
struct SymKeyHash
{
    size_t operator()(const SymKey& s) const
    {
        LinHash h;
        return h(s.E) * 31 + h(s.B) * 17 + (size_t)s.c * 131 + s.k * 7 + s.op * 1000003 + s.w;
    }
};
static std::vector<Sym> syms;
static std::vector<std::vector<int>> users;
static std::unordered_map<SymKey, int, SymKeyHash> symIndex;

static int newSym(SymKey key, Range init, int inputIdx = -1, bool unique = false)
{
    if(!unique)
    {
        auto it = symIndex.find(key);
        if(it != symIndex.end()) return it->second;
    }
    int id = (int)syms.size();
    Sym s;
    s.k = key.k; s.E = key.E; s.B = key.B; s.c = key.c; s.op = key.op; s.w = key.w; s.init = init; s.inputIdx = inputIdx;
    for(auto& p : s.E.t) s.deps.push_back(p.first);
    for(auto& p : s.B.t) s.deps.push_back(p.first);
    std::sort(s.deps.begin(), s.deps.end());
    s.deps.erase(std::unique(s.deps.begin(), s.deps.end()), s.deps.end());
    syms.push_back(s);
    users.emplace_back();
    for(int d : s.deps) users[d].push_back(id);
    if(!unique) symIndex[key] = id;
    return id;
}

// ------------------------------------------------------------------ values
enum VK : uint8_t { V_UNDEF, V_INT, V_COND, V_PTR, V_FP, V_AGG, V_FN, V_EXC };
struct Val
{
    VK k = V_UNDEF;
    int id = 0;
    bool operator==(const Val& o) const { return k == o.k && id == o.id; }
};
static std::vector<Lin> lins;
static std::unordered_map<Lin, int, LinHash> linIndex;
static int internLin(const Lin& l)
{
    auto it = linIndex.find(l);
    if(it != linIndex.end()) return it->second;
    int id = (int)lins.size();
    lins.push_back(l);
    linIndex.emplace(l, id);
    return id;
}
enum CK : uint8_t { C_TRUE, C_FALSE, C_LE, C_EQ, C_NE, C_AND, C_OR };
struct Cond
{
    CK k;
    int a = 0, b = 0; // lin id or cond ids
    bool operator<(const Cond& o) const { return std::tie(k, a, b) < std::tie(o.k, o.a, o.b); }
};
static std::vector<Cond> conds;
static std::map<Cond, int> condIndex;
static int internCond(Cond c)
{
    auto it = condIndex.find(c);
    if(it != condIndex.end()) return it->second;
    int id = (int)conds.size();
    conds.push_back(c);
    condIndex[c] = id;
    return id;
}
struct PtrV { int obj; int off; bool operator<(const PtrV& o) const { return std::tie(obj, off) < std::tie(o.obj, o.off); } };
static std::vector<PtrV> ptrs;
static std::map<PtrV, int> ptrIndex;
static int internPtr(int obj, int off)
{
    PtrV p{obj, off};
    auto it = ptrIndex.find(p);
    if(it != ptrIndex.end()) return it->second;
    int id = (int)ptrs.size();
    ptrs.push_back(p);
    ptrIndex[p] = id;
    return id;
}
struct FpV { int m; int e; bool top; bool operator<(const FpV& o) const { return std::tie(m, e, top) < std::tie(o.m, o.e, o.top); } };
static std::vector<FpV> fps;
static std::map<FpV, int> fpIndex;
static int internFp(FpV p)
{
    auto it = fpIndex.find(p);
    if(it != fpIndex.end()) return it->second;
    int id = (int)fps.size();
    fps.push_back(p);
    fpIndex[p] = id;
    return id;
}
static std::vector<std::vector<Val>> aggs;
static int internAgg(std::vector<Val> v)
{
    int id = (int)aggs.size();
    aggs.push_back(std::move(v));
    return id;
}
static std::vector<Function*> fns;

static Val vInt(const Lin& l) { return {V_INT, internLin(l)}; }
static Val vConst(i128 c) { return vInt(lin_const(c)); }
static Val vCond(int c) { return {V_COND, c}; }

static void resetTables()
{
    syms.clear(); users.clear(); symIndex.clear();
    lins.clear(); linIndex.clear();
    conds.clear(); condIndex.clear();
    ptrs.clear(); ptrIndex.clear();
    fps.clear(); fpIndex.clear();
    aggs.clear(); fns.clear();
    internCond({C_TRUE}); internCond({C_FALSE});
}
static const int CT = 0, CF = 1;

// ------------------------------------------------------------------ state
struct MemCell { int size; Val v; };
struct Obj
{
    int64_t size = 0;
    const GlobalVariable* gv = nullptr; // constant initialiser backing unwritten bytes
    bool zeroInit = false;
    bool dead = false;
    bool writable = true;
    std::string name;
    std::map<int64_t, MemCell> cells;
};
struct FnInfo;
struct LoopPos { int hdr; int count; };
struct Frame
{
    FnInfo* fi = nullptr;
    std::vector<Val> env;
    BasicBlock* bb = nullptr;
    BasicBlock::iterator it;
    std::vector<LoopPos> loops;
    CallBase* call = nullptr; // call instruction in the caller
};
struct State
{
    std::vector<Range> rng;
    std::vector<char> has;
    std::vector<std::pair<Lin, Range>> cons;
    std::vector<std::shared_ptr<Obj>> mem;
    std::map<const GlobalVariable*, int> gobj;
    std::vector<Frame> fr;
    int expectThrow = -1; // cond id
    std::string expectType;
    std::vector<std::string> pathNotes;
    bool joined = false;
    const void* forkAt = nullptr;
    int forkCount = 0;
};

struct Assumption { Lin e; CK k; };
struct ForkEx { std::vector<std::vector<Assumption>> alts; };
struct Infeasible {};
struct Unsupported { std::string what; };
struct FailEx { std::string msg; }; // definite for this state
static std::string gOverflowAt; // where a signed operation overflowed last (its result is unusable)
static std::string undefMsg(const char* m) { return gOverflowAt.empty() ? m : std::string(m) + " (signed overflow at " + gOverflowAt + ")"; }

static Range rangeOf(State& st, const Lin& l);
static Range symRange(State& st, int s);

static Range mulRange(Range a, Range b)
{
    i128 v[4] = {sat_mul(a.lo, b.lo), sat_mul(a.lo, b.hi), sat_mul(a.hi, b.lo), sat_mul(a.hi, b.hi)};
    Range r{v[0], v[0]};
    for(int i = 1; i < 4; ++i) r = hull(r, {v[i], v[i]});
    return r;
}
static Range powRange(Range a, int p)
{
    Range r{1, 1};
    if(p % 2 == 0)
    {
        Range m = a;
        if(a.lo >= 0) {}
        else if(a.hi <= 0) m = {a.hi == IMIN ? IMAX : -a.hi, a.lo == IMIN ? IMAX : -a.lo};
        else m = {0, std::max(a.hi, a.lo == IMIN ? IMAX : -a.lo)};
        for(int i = 0; i < p; ++i) r = mulRange(r, m);
        return r;
    }
    for(int i = 0; i < p; ++i) r = mulRange(r, a);
    if(a.lo < 0 && a.hi > 0)
    {
        // odd power is monotone
        i128 lo = 1, hi = 1;
        for(int i = 0; i < p; ++i) lo = sat_mul(lo, a.lo), hi = sat_mul(hi, a.hi);
        r = isect(r, {lo, hi});
    }
    return r;
}
static Range opRange(const Sym& s, State& st);

static Range defRange(State& st, int id)
{
    const Sym s = syms[id]; // copy: recursive calls may grow the table
    Range r = s.init;
    switch(s.k)
    {
    case S_INPUT:
    case S_FRESH: return r;
    case S_ALIAS: return isect(r, rangeOf(st, s.E));
    case S_MONO:
        {
            Range p{1, 1};
            for(auto& t : s.E.t) p = mulRange(p, powRange(symRange(st, t.first), (int)t.second));
            return isect(r, p);
        }
    case S_FDIV:
        {
            Range e = rangeOf(st, s.E);
            return isect(r, {e.lo == IMIN ? IMIN : floor_div(e.lo, s.c), e.hi == IMAX ? IMAX : floor_div(e.hi, s.c)});
        }
    case S_UD:
        {
            Range a = rangeOf(st, s.E), b = rangeOf(st, s.B);
            if(a.lo < 0) a.lo = 0;
            if(b.lo < 1) b.lo = 1;
            if(b.hi < 1 || a.hi < 0) return {1, 0}; // contradiction: this state is not reachable
            i128 lo = b.hi == IMAX ? 0 : floor_div(a.lo, b.hi);
            i128 hi = a.hi == IMAX ? IMAX : floor_div(a.hi, b.lo);
            return isect(r, {lo, hi});
        }
    case S_OP: return isect(r, opRange(s, st));
    }
    return r;
}
static Range symRange(State& st, int s)
{
    if((size_t)s < st.has.size() && st.has[s]) return st.rng[s];
    Range r = defRange(st, s);
    if((size_t)s >= st.has.size())
    {
        st.has.resize(syms.size(), 0);
        st.rng.resize(syms.size());
    }
    st.has[s] = 1;
    st.rng[s] = r;
    return r;
}
static Range rangeOf(State& st, const Lin& l)
{
    Range r{l.c, l.c};
    for(auto& p : l.t)
    {
        Range s = symRange(st, p.first);
        i128 a = sat_mul(s.lo, p.second), b = sat_mul(s.hi, p.second);
        if(a > b) std::swap(a, b);
        r.lo = sat_add(r.lo, a);
        if(a == IMIN) r.lo = IMIN;
        r.hi = (r.hi == IMAX || b == IMAX) ? IMAX : sat_add(r.hi, b);
    }
    return r;
}

// definitional constraints of a symbol: P in [lo,hi]
static void defCons(State& st, int s, std::vector<std::pair<Lin, Range>>& out)
{
    const Sym& y = syms[s];
    try
    {
        if(y.k == S_FDIV)
        {
            Lin p = lin_add(lin_scale(lin_sym(s), y.c), y.E, -1);
            out.push_back({p, {-(y.c - 1), 0}});
        }
        else if(y.k == S_ALIAS)
            out.push_back({lin_add(lin_sym(s), y.E, -1), {0, 0}});
    }
    catch(Overflow&) {}
}
static int monoSym(std::vector<std::pair<int, i128>> f);
static int findMono(int a, int b)
{
    if(a == b) return -1;
    SymKey k{S_MONO, Lin(), Lin(), 0, 0, 0};
    k.E.t = a < b ? std::vector<std::pair<int, i128>>{{a, 1}, {b, 1}} : std::vector<std::pair<int, i128>>{{b, 1}, {a, 1}};
    auto it = symIndex.find(k);
    return it == symIndex.end() ? -1 : it->second;
}
// m = h * y with h = floor(v / c): v*y - c*h*y lies between 0 and (c-1)*y
static void fdivMonoCons(State& st, int m, std::vector<std::pair<Lin, Range>>& out)
{
    const Sym z = syms[m];
    if(z.E.t.size() != 2) return;
    for(int i = 0; i < 2; ++i)
    {
        int h = z.E.t[i].first, y = z.E.t[1 - i].first;
        if(z.E.t[0].second != 1 || z.E.t[1].second != 1) return;
        const Sym d = syms[h];
        if(d.k != S_FDIV || d.E.t.size() != 1 || d.E.t[0].second != 1 || d.E.c != 0) continue;
        int vy = findMono(d.E.t[0].first, y);
        if(vy < 0) continue;
        try
        {
            Range ry = symRange(st, y);
            Lin p = lin_add(lin_sym(vy), lin_scale(lin_sym(m), d.c), -1);
            Lin p2 = lin_add(p, lin_sym(y), -(d.c - 1));
            if(ry.lo >= 0) { out.push_back({p, {0, IMAX}}); out.push_back({p2, {IMIN, 0}}); }
            else if(ry.hi <= 0) { out.push_back({p, {IMIN, 0}}); out.push_back({p2, {0, IMAX}}); }
        }
        catch(Overflow&) {}
    }
}
static void udCons(State& st, int s, std::vector<std::pair<Lin, Range>>& out)
{
    // q = UD(A,B):  A - B q in [0, B-1]
    const Sym y = syms[s];
    try
    {
        if(y.B.t.size() != 1 || y.B.c != 0) return;
        int b = y.B.t[0].first;
        std::vector<std::pair<int, i128>> f;
        if(b < s) f = {{b, 1}, {s, 1}};
        else if(b > s) f = {{s, 1}, {b, 1}};
        else return;
        SymKey k{S_MONO, Lin(), Lin(), 0, 0, 0};
        k.E.t = f;
        auto it = symIndex.find(k);
        if(it == symIndex.end()) return;
        Lin p = lin_add(y.E, lin_scale(lin_sym(it->second), y.B.t[0].second), -1);
        Range rb = rangeOf(st, y.B);
        out.push_back({p, {0, rb.hi == IMAX ? IMAX : rb.hi - 1}});
        Lin p2 = lin_add(p, y.B, -1);
        out.push_back({p2, {IMIN, -1}});
    }
    catch(Overflow&) {}
}

// best range: base interval, improved by eliminating symbols through definitions and constraints
static Range elimRange(State& st, const Lin& l, int depth, int& budget);
static void tryElim(State& st, const Lin& l, const Lin& P, Range pr, int sym, int depth, int& budget, Range& best)
{
    if(budget-- <= 0) return;
    i128 e = 0, p = 0;
    for(auto& t : l.t) if(t.first == sym) e = t.second;
    for(auto& t : P.t) if(t.first == sym) p = t.second;
    if(e == 0 || p == 0) return;
    try
    {
        i128 ap = p < 0 ? -p : p;
        i128 g = gcd128(e, ap);
        i128 scale = ap / g;                 // multiply l by scale
        i128 k = ck_mul(e, scale) / p;       // l*scale - k*P eliminates sym
        Lin pl = P;
        Lin rest = lin_add(lin_scale(l, scale), pl, ck_mul(k, -1));
        if(rest.t.size() > 14) return;
        Range rr = depth > 0 ? elimRange(st, rest, depth - 1, budget) : rangeOf(st, rest);
        Range kp = mulRange({k, k}, pr);
        i128 lo = (rr.lo == IMIN || kp.lo == IMIN) ? IMIN : sat_add(rr.lo, kp.lo);
        i128 hi = (rr.hi == IMAX || kp.hi == IMAX) ? IMAX : sat_add(rr.hi, kp.hi);
        if(lo != IMIN) lo = ceil_div(lo, scale);
        if(hi != IMAX) hi = floor_div(hi, scale);
        best = isect(best, {lo, hi});
    }
    catch(Overflow&) {}
}
static void normCons(const Lin& e, Lin& lin, i128& k);
static Range elimRange(State& st, const Lin& l, int depth, int& budget)
{
    Range best = rangeOf(st, l);
    if(!l.t.empty() && !st.cons.empty())
    {
        // a stored constraint with the same direction
        Lin n;
        i128 k;
        normCons(l, n, k);
        for(auto& c : st.cons)
            if(c.first == n)
            {
                Range kp = mulRange({k, k}, c.second);
                best = isect(best, {kp.lo == IMIN ? IMIN : sat_add(kp.lo, l.c), kp.hi == IMAX ? IMAX : sat_add(kp.hi, l.c)});
            }
    }
    if(l.t.size() <= 1 && (l.t.empty() || syms[l.t[0].first].k == S_INPUT)) return best;
    if(budget <= 0) return best;
    // highest symbols first
    int n = 0;
    for(size_t i = l.t.size(); i-- > 0 && n < 3;)
    {
        int s = l.t[i].first;
        std::vector<std::pair<Lin, Range>> ds;
        defCons(st, s, ds);
        if(syms[s].k == S_MONO)
        {
            for(auto& f : syms[s].E.t) if(syms[f.first].k == S_UD) udCons(st, f.first, ds);
            fdivMonoCons(st, s, ds);
        }
        if(syms[s].k == S_FDIV)
            // floor divisions of the same term by c and by a multiple of c
            for(auto& o : l.t)
                if(o.first != s && syms[o.first].k == S_FDIV && syms[o.first].E == syms[s].E)
                {
                    i128 c = syms[s].c, c2 = syms[o.first].c;
                    if(c2 % c == 0) ds.push_back({lin_add(lin_sym(s), lin_sym(o.first), -(c2 / c)), {0, c2 / c - 1}});
                    else if(c % c2 == 0) ds.push_back({lin_add(lin_sym(o.first), lin_sym(s), -(c / c2)), {0, c / c2 - 1}});
                }
        for(auto& d : ds) tryElim(st, l, d.first, d.second, s, depth - 1, budget, best);
        if(!ds.empty()) ++n;
    }
    for(auto& c : st.cons)
    {
        // constraint sharing a symbol; eliminate the highest shared one
        int sh = -1;
        for(auto& a : c.first.t)
            for(auto& b : l.t)
                if(a.first == b.first) sh = a.first;
        if(sh >= 0) tryElim(st, l, c.first, c.second, sh, std::min(depth - 1, 1), budget, best);
    }
    return best;
}

// ------------------------------------------------------------------ real forms
struct FormCtx
{
    State& st;
    std::vector<char> have;
    std::vector<Form> memo;
    FormCtx(State& s) : st(s) {}
    Form ofSym(int s);
    Form ofLin(const Lin& l)
    {
        Form r = form_const((ld)l.c);
        for(auto& t : l.t) r = form_add(r, ofSym(t.first), (ld)t.second);
        return r;
    }
};
static Form rangeForm(Range r) { return form_range((ld)r.lo, (ld)r.hi); }
Form FormCtx::ofSym(int s)
{
    if((size_t)s < have.size() && have[s]) return memo[s];
    const Sym y = syms[s];
    Range r = symRange(st, s);
    Form f = rangeForm(r);
    Form g;
    bool ok = false;
    switch(y.k)
    {
    case S_INPUT:
        if(y.inputIdx < 2 && y.inputIdx >= 0)
        {
            ld mid = ((ld)r.lo + (ld)r.hi) / 2, rad = ((ld)r.hi - (ld)r.lo) / 2;
            g = Form{mid, y.inputIdx == 0 ? rad : 0, y.inputIdx == 1 ? rad : 0, 0};
            g = fslop(g);
            ok = true;
        }
        break;
    case S_ALIAS: g = ofLin(y.E); ok = true; break;
    case S_MONO:
        {
            g = form_const(1);
            bool first = true;
            for(auto& t : y.E.t)
            {
                Form b = ofSym(t.first);
                for(int i = 0; i < (int)t.second; ++i)
                {
                    if(first) g = b, first = false;
                    else g = form_mul(g, b);
                }
            }
            ok = true;
            break;
        }
    case S_FDIV:
        {
            Form e = ofLin(y.E);
            ld c = (ld)y.c;
            g = Form{(e.c0 - (c - 1) / 2) / c, e.c1 / c, e.c2 / c, e.e / c + (c - 1) / (2 * c)};
            g = fslop(g);
            ok = true;
            break;
        }
    case S_UD:
        {
            Form a = ofLin(y.E), b = ofLin(y.B), bi;
            if(form_inv(b, bi))
            {
                // a/b computed as quotient form with second-order remainder
                Form q = form_mul(a, bi);
                // alternative: q0 = a0/b0 ; a/b = q0 + (a - q0 b)/b
                ld q0 = a.c0 / b.c0;
                Form num = form_add(a, b, -q0);
                Form alt = form_mul(num, bi);
                alt = form_add(alt, form_const(q0));
                if(alt.rad() < q.rad()) q = alt;
                q.c0 -= 0.5L;
                q.e += 0.5L;
                g = fslop(q);
                ok = true;
            }
            break;
        }
    default: break;
    }
    if(ok && g.rad() <= f.rad()) f = g;
    else if(ok && (g.c1 != 0 || g.c2 != 0) && g.e < f.rad() && g.rad() <= 2 * f.rad()) f = g;
    if((size_t)s >= have.size()) { have.resize(syms.size(), 0); memo.resize(syms.size()); }
    have[s] = 1;
    memo[s] = f;
    return f;
}
static Range formToRange(const Form& f)
{
    ld lo = f.c0 - f.rad(), hi = f.c0 + f.rad();
    Range r;
    if(lo > -8.0e37L && lo < 8.0e37L) r.lo = (i128)ceill(lo - 0.001L - fabsl(lo) * 1e-18L);
    if(hi > -8.0e37L && hi < 8.0e37L) r.hi = (i128)floorl(hi + 0.001L + fabsl(hi) * 1e-18L);
    return r;
}

static Range bestRange(State& st, const Lin& l, int depth = 4)
{
    Range b = rangeOf(st, l);
    if(l.t.empty() || b.single()) return b;
    if(gcfg.forms)
    {
        FormCtx fc(st);
        b = isect(b, formToRange(fc.ofLin(l)));
    }
    if(depth <= 0) return b;
    int budget = 160;
    return isect(b, elimRange(st, l, depth, budget));
}

// ------------------------------------------------------------------ simplification against the state
static Lin simp(State& st, const Lin& l)
{
    bool need = false;
    for(auto& p : l.t)
    {
        Range r = symRange(st, p.first);
        if(r.lo == r.hi) { need = true; break; }
    }
    if(!need) return l;
    Lin r;
    r.c = l.c;
    for(auto& p : l.t)
    {
        Range q = symRange(st, p.first);
        if(q.lo == q.hi) r.c = ck_add(r.c, ck_mul(q.lo, p.second));
        else r.t.push_back(p);
    }
    return r;
}

// ------------------------------------------------------------------ assumptions
static bool refineSym(State& st, int s, Range r, std::vector<int>& work)
{
    Range o = symRange(st, s);
    Range n = isect(o, r);
    if(n.empty()) return false;
    if(!(n == o))
    {
        st.rng[s] = n;
        work.push_back(s);
    }
    return true;
}
// l in [r.lo, r.hi]
static bool tightenLin(State& st, const Lin& l, Range r, std::vector<int>& work)
{
    Range b = rangeOf(st, l);
    if(isect(b, r).empty()) return false;
    if(l.t.size() > 24) return true;
    for(auto& p : l.t)
    {
        Range s = symRange(st, p.first);
        i128 a = sat_mul(s.lo, p.second), c = sat_mul(s.hi, p.second);
        if(a > c) std::swap(a, c);
        // rest = l - p
        i128 restLo, restHi;
        if(b.lo == IMIN || a == IMIN) restLo = IMIN; else restLo = b.lo - a;
        if(b.hi == IMAX || c == IMAX) restHi = IMAX; else restHi = b.hi - c;
        if(a == IMIN || c == IMAX || b.lo == IMIN || b.hi == IMAX)
        {
            // recompute rest explicitly
            Lin rest;
            rest.c = l.c;
            for(auto& q : l.t) if(q.first != p.first) rest.t.push_back(q);
            Range rr = rangeOf(st, rest);
            restLo = rr.lo; restHi = rr.hi;
        }
        Range tr; // range of p.second * sym
        tr.lo = (r.lo == IMIN || restHi == IMAX) ? IMIN : sat_add(r.lo, -restHi);
        tr.hi = (r.hi == IMAX || restLo == IMIN) ? IMAX : sat_add(r.hi, -restLo);
        Range sr;
        i128 k = p.second;
        if(k > 0)
        {
            sr.lo = tr.lo == IMIN ? IMIN : ceil_div(tr.lo, k);
            sr.hi = tr.hi == IMAX ? IMAX : floor_div(tr.hi, k);
        }
        else
        {
            i128 nk = -k;
            sr.lo = tr.hi == IMAX ? IMIN : ceil_div(-tr.hi, nk);
            sr.hi = tr.lo == IMIN ? IMAX : floor_div(-tr.lo, nk);
        }
        if(!refineSym(st, p.first, sr, work)) return false;
    }
    return true;
}
static i128 isqrt_floor(i128 v)
{
    if(v <= 0) return 0;
    ld g = sqrtl((ld)v);
    i128 r = (i128)g;
    while(r > 0 && (r > (i128)13043817825332782212ull || r * r > v)) --r;
    while(r < (i128)13043817825332782211ull && (r + 1) * (r + 1) <= v) ++r;
    return r;
}
static bool propagate(State& st, std::vector<int>& work)
{
    int steps = 0;
    std::vector<int> next;
    for(size_t wi = 0; wi < work.size(); ++wi)
    {
        if(++steps > 120) return true;
        int s = work[wi];
        const Sym y = syms[s];
        Range r = symRange(st, s);
        // backwards through the definition
        if(y.k == S_FDIV)
        {
            Range e{r.lo == IMIN ? IMIN : sat_mul(r.lo, y.c), r.hi == IMAX ? IMAX : sat_add(sat_mul(r.hi, y.c), y.c - 1)};
            if(!tightenLin(st, y.E, e, work)) return false;
        }
        else if(y.k == S_ALIAS)
        {
            if(!tightenLin(st, y.E, r, work)) return false;
        }
        else if(y.k == S_MONO)
        {
            if(y.E.t.size() == 1 && y.E.t[0].second == 2)
            {
                if(r.hi != IMAX)
                {
                    i128 b = isqrt_floor(r.hi);
                    if(!refineSym(st, y.E.t[0].first, {-b, b}, work)) return false;
                    Range q = symRange(st, y.E.t[0].first);
                    if(r.lo > 0)
                    {
                        i128 lb = isqrt_floor(r.lo - 1) + 1;
                        if(q.lo > -lb && !refineSym(st, y.E.t[0].first, {lb, IMAX}, work)) return false;
                        q = symRange(st, y.E.t[0].first);
                        if(q.hi < lb && !refineSym(st, y.E.t[0].first, {IMIN, -lb}, work)) return false;
                    }
                }
            }
            else if(y.E.t.size() == 2 && y.E.t[0].second == 1 && y.E.t[1].second == 1)
            {
                for(int k = 0; k < 2; ++k)
                {
                    int a = y.E.t[k].first, b = y.E.t[1 - k].first;
                    Range rb = symRange(st, b);
                    if(rb.lo > 0 && rb.hi != IMAX)
                    {
                        // a*b in r -> a in [ceil(min), floor(max)]
                        Range ra;
                        if(r.lo != IMIN) ra.lo = r.lo >= 0 ? ceil_div(r.lo, rb.hi) : ceil_div(r.lo, rb.lo);
                        if(r.hi != IMAX) ra.hi = r.hi >= 0 ? floor_div(r.hi, rb.lo) : floor_div(r.hi, rb.hi);
                        if(!refineSym(st, a, ra, work)) return false;
                    }
                    else if(rb.hi < 0 && rb.lo != IMIN)
                    {
                        Range ra;
                        i128 bl = -rb.hi, bh = -rb.lo; // |b|
                        if(r.hi != IMAX) ra.lo = -r.hi >= 0 ? ceil_div(-r.hi, bh) : ceil_div(-r.hi, bl);
                        if(r.lo != IMIN) ra.hi = -r.lo >= 0 ? floor_div(-r.lo, bl) : floor_div(-r.lo, bh);
                        if(!refineSym(st, a, ra, work)) return false;
                    }
                }
            }
        }
        else if(y.k == S_UD)
        {
            // A >= q*B, A <= q*B + B-1
            Range rb = rangeOf(st, y.B);
            if(rb.lo > 0)
            {
                Range e;
                if(r.lo > 0) e.lo = sat_mul(r.lo, rb.lo);
                if(r.hi != IMAX && rb.hi != IMAX) e.hi = sat_add(sat_mul(sat_add(r.hi, 1), rb.hi), -1);
                if(!tightenLin(st, y.E, e, work)) return false;
                Range ra = rangeOf(st, y.E);
                if(r.lo > 0 && ra.hi != IMAX) { if(!tightenLin(st, y.B, {IMIN, floor_div(ra.hi, r.lo)}, work)) return false; }
                if(r.hi != IMAX && ra.lo > 0) { if(!tightenLin(st, y.B, {floor_div(ra.lo, sat_add(r.hi, 1)) + 1, IMAX}, work)) return false; }
            }
        }
        // forwards to users already known in this state
        for(size_t ui = 0; ui < users[s].size(); ++ui)
        {
            int u = users[s][ui];
            if((size_t)u < st.has.size() && st.has[u])
            {
                Range d = defRange(st, u);
                if(!refineSym(st, u, d, work)) return false;
            }
        }
        for(auto& c : st.cons)
        {
            bool in = false;
            for(auto& t : c.first.t) if(t.first == s) { in = true; break; }
            if(in && !tightenLin(st, c.first, c.second, work)) return false;
        }
    }
    return true;
}
static void normCons(const Lin& e, Lin& lin, i128& k)
{
    // e = k*lin + c with content 1, leading coefficient positive
    i128 g = 0;
    for(auto& t : e.t) g = gcd128(g, t.second);
    if(e.t[0].second < 0) g = -g;
    lin.c = 0;
    for(auto& t : e.t) lin.t.push_back({t.first, t.second / g});
    k = g;
}
// e <= 0
static bool assumeLE(State& st, Lin e)
{
    e = simp(st, e);
    if(e.t.empty()) return e.c <= 0;
    Range b = bestRange(st, e);
    if(b.lo > 0) return false;
    if(b.hi <= 0) return true;
    Lin l;
    i128 k;
    normCons(e, l, k);
    Range r; // k*l <= -c
    if(e.c == IMIN) return true;
    if(k > 0) r.hi = floor_div(-e.c, k);
    else r.lo = ceil_div(e.c, -k);
    std::vector<int> work;
    if(l.t.size() == 1)
    {
        if(!refineSym(st, l.t[0].first, r, work)) return false;
    }
    else
    {
        bool found = false;
        for(auto& c : st.cons)
            if(c.first == l)
            {
                c.second = isect(c.second, r);
                if(c.second.empty()) return false;
                r = c.second;
                found = true;
            }
        if(!found)
        {
            st.cons.push_back({l, r});
            if(st.cons.size() > 60) st.cons.erase(st.cons.begin());
        }
        if(!tightenLin(st, l, r, work)) return false;
        if(gcfg.forms)
        {
            // use the affine form to narrow an input: l in r with l ~ c0 + c1 t1 +- (|c2| + e)
            FormCtx fc(st);
            Form f = fc.ofLin(l);
            for(int idx = 0; idx < 2; ++idx)
            {
                ld ci = idx ? f.c2 : f.c1, co = idx ? f.c1 : f.c2;
                if(ci == 0) continue;
                int is = -1;
                for(size_t q = 0; q < syms.size(); ++q) if(syms[q].k == S_INPUT && syms[q].inputIdx == idx) is = (int)q;
                if(is < 0) continue;
                Range ir = symRange(st, is);
                ld slack = fabsl(co) + f.e + 1;
                ld tlo = -1, thi = 1;
                if(r.hi != IMAX) { ld v = ((ld)r.hi + slack - f.c0) / ci; if(ci > 0) thi = std::min(thi, v); else tlo = std::max(tlo, v); }
                if(r.lo != IMIN) { ld v = ((ld)r.lo - slack - f.c0) / ci; if(ci > 0) tlo = std::max(tlo, v); else thi = std::min(thi, v); }
                if(tlo > thi + 1e-9L) return false;
                ld mid = ((ld)ir.lo + (ld)ir.hi) / 2, rad = ((ld)ir.hi - (ld)ir.lo) / 2;
                ld nlo = mid + rad * tlo, nhi = mid + rad * thi;
                Range nr{(i128)floorl(nlo - 1 - fabsl(nlo) * 1e-17L), (i128)ceill(nhi + 1 + fabsl(nhi) * 1e-17L)};
                if(!refineSym(st, is, nr, work)) return false;
            }
        }
    }
    return propagate(st, work);
}
static bool assumeLin(State& st, const Lin& e, CK k)
{
    try
    {
        if(k == C_LE) return assumeLE(st, e);
        if(k == C_EQ) return assumeLE(st, e) && assumeLE(st, lin_scale(e, -1));
        if(k == C_NE)
        {
            Range b = bestRange(st, e);
            if(b.single() && b.lo == 0) return false;
            Lin p = e;
            if(b.lo == 0) return assumeLE(st, lin_add(lin_const(1), e, -1));
            if(b.hi == 0) return assumeLE(st, lin_add(lin_const(1), e));
            return true;
        }
    }
    catch(Overflow&) { return true; }
    return true;
}

// ------------------------------------------------------------------ symbol constructors
static bool gImprecise = false; // a value was abstracted away in this run
static Lin freshLin(Range r, unsigned w = 0)
{
    gImprecise = true;
    int s = newSym({S_FRESH, Lin(), Lin(), (i128)syms.size(), 0, w}, r, -1, true);
    return lin_sym(s);
}
static int aliasSym(const Lin& l) { return newSym({S_ALIAS, l, Lin(), 0, 0, 0}, Range()); }

static Lin mkUD(State& st, Lin A, Lin B);
static Lin mkFDIV(State& st, Lin E, i128 c)
{
    E = simp(st, E);
    Lin out;
    const Lin E0 = E;
    const i128 c0 = c;
    while(true)
    {
        if(c == 1) return lin_add(out, E);
        if(E.t.empty()) { out.c = ck_add(out.c, floor_div(E.c, c)); return out; }
        // gcd of coefficients and c
        i128 g = c;
        for(auto& t : E.t) g = gcd128(g, t.second);
        if(g > 1)
        {
            for(auto& t : E.t) t.second /= g;
            E.c = floor_div(E.c, g);
            c /= g;
            continue;
        }
        bool ch = false;
        Lin E2;
        E2.c = E.c;
        for(auto& t : E.t)
        {
            i128 k = t.second / c; // truncation keeps the sign of small coefficients
            i128 rem = t.second - k * c;
            if(k != 0) { out = lin_add(out, lin_sym(t.first), k); ch = true; }
            if(rem != 0) E2.t.push_back({t.first, rem});
        }
        i128 kc = floor_div(E2.c, c);
        if(kc != 0) { out.c = ck_add(out.c, kc); E2.c -= kc * c; ch = true; }
        E = E2;
        if(ch) continue;
        // nested floor division
        if(E.t.size() == 1 && E.t[0].second == 1 && syms[E.t[0].first].k == S_FDIV)
        {
            Sym y = syms[E.t[0].first];
            Lin n = y.E;
            n.c = ck_add(n.c, ck_mul(E.c, y.c));
            c = ck_mul(c, y.c);
            E = n;
            continue;
        }
        // floor(floor(A / B) / c) = floor((A / c) / B) when c divides A
        if(E.t.size() == 1 && E.t[0].second == 1 && E.c == 0 && syms[E.t[0].first].k == S_UD)
        {
            Sym y = syms[E.t[0].first];
            bool all = y.E.c % c == 0;
            for(auto& t : y.E.t) if(t.second % c) all = false;
            if(all)
            {
                Lin A = y.E;
                A.c /= c;
                for(auto& t : A.t) t.second /= c;
                Lin u = mkUD(st, A, y.B);
                Range q = rangeOf(st, E);
                if(u.t.size() == 1 && u.t[0].second == 1 && u.c == 0 && q.lo != IMIN && q.hi != IMAX)
                {
                    std::vector<int> work;
                    refineSym(st, u.t[0].first, Range{floor_div(q.lo, c), floor_div(q.hi, c)}, work);
                    assumeLin(st, lin_add(lin_scale(u, c), E, -1), C_LE);
                    assumeLin(st, lin_add(lin_add(E, lin_scale(u, c), -1), lin_const(1 - c)), C_LE);
                }
                return lin_add(out, u);
            }
        }
        break;
    }
    Range r = rangeOf(st, E);
    if(r.lo != IMIN && r.hi != IMAX && floor_div(r.lo, c) == floor_div(r.hi, c))
    {
        out.c = ck_add(out.c, floor_div(r.lo, c));
        return out;
    }
    r = bestRange(st, E, 3);
    if(r.lo != IMIN && r.hi != IMAX && floor_div(r.lo, c) == floor_div(r.hi, c))
    {
        out.c = ck_add(out.c, floor_div(r.lo, c));
        return out;
    }
    Range r0;
    if(!out.t.empty() && !gcfg.forms)
    {
        r0 = bestRange(st, E0, 3);
        if(r0.lo != IMIN && r0.hi != IMAX && floor_div(r0.lo, c0) == floor_div(r0.hi, c0)) return lin_const(floor_div(r0.lo, c0));
    }
    int s = newSym({S_FDIV, E, Lin(), c, 0, 0}, Range());
    std::vector<int> work;
    Range q{r.lo == IMIN ? IMIN : floor_div(r.lo, c), r.hi == IMAX ? IMAX : floor_div(r.hi, c)};
    refineSym(st, s, q, work);
    Lin R = lin_add(out, lin_sym(s));
    if(!out.t.empty() && !gcfg.forms)
    {
        // splitting off whole multiples must not lose what is known about the quotient as a whole
        Range rr = rangeOf(st, R);
        if(r0.lo != IMIN && r0.hi != IMAX)
        {
            Range q0{floor_div(r0.lo, c0), floor_div(r0.hi, c0)};
            if(q0.lo > rr.lo) assumeLin(st, lin_add(lin_const(q0.lo), R, -1), C_LE);
            if(q0.hi < rr.hi) assumeLin(st, lin_add(R, lin_const(-q0.hi)), C_LE);
        }
    }
    return R;
}
static i128 content(const Lin& l)
{
    i128 g = l.c;
    for(auto& t : l.t) g = gcd128(g, t.second);
    return g < 0 ? -g : g;
}
static Lin mkUD(State& st, Lin A, Lin B) // A >= 0, B > 0
{
    A = simp(st, A);
    B = simp(st, B);
    if(B.isConst()) return mkFDIV(st, A, B.c);
    i128 g = gcd128(content(A), content(B));
    if(g > 1)
    {
        for(auto& t : A.t) t.second /= g;
        A.c /= g;
        for(auto& t : B.t) t.second /= g;
        B.c /= g;
    }
    if(A == B) return lin_const(1);
    Range a = bestRange(st, A, 2), b = bestRange(st, B, 2);
    if(a.hi != IMAX && b.lo > a.hi) return lin_const(0);
    int s = newSym({S_UD, A, B, 0, 0, 0}, {0, IMAX});
    std::vector<int> work;
    if(a.lo < 0) a.lo = 0;
    if(b.lo < 1) b.lo = 1;
    refineSym(st, s, {b.hi == IMAX ? 0 : floor_div(a.lo, b.hi), a.hi == IMAX ? IMAX : floor_div(a.hi, b.lo)}, work);
    if(gcfg.forms)
    {
        FormCtx fc(st);
        refineSym(st, s, formToRange(fc.ofSym(s)), work);
    }
    return lin_sym(s);
}
static int monoSym(std::vector<std::pair<int, i128>> f)
{
    SymKey k{S_MONO, Lin(), Lin(), 0, 0, 0};
    k.E.t = std::move(f);
    return newSym(k, Range());
}
static void addFactors(std::map<int, i128>& f, int s)
{
    if(syms[s].k == S_MONO)
        for(auto& t : syms[s].E.t) f[t.first] += t.second;
    else f[s] += 1;
}
static Lin mulSyms(State& st, int a, int b)
{
    std::map<int, i128> f;
    addFactors(f, a);
    addFactors(f, b);
    std::vector<std::pair<int, i128>> v(f.begin(), f.end());
    int s = monoSym(v);
    if(gcfg.forms)
    {
        FormCtx fc(st);
        std::vector<int> work;
        refineSym(st, s, formToRange(fc.ofSym(s)), work);
    }
    return lin_sym(s);
}
static Lin mulLin(State& st, Lin a, Lin b)
{
    a = simp(st, a);
    b = simp(st, b);
    if(a.isConst()) return lin_scale(b, a.c);
    if(b.isConst()) return lin_scale(a, b.c);
    i128 ka = content(a), kb = content(b);
    if(a.t[0].second < 0) ka = -ka;
    if(b.t[0].second < 0) kb = -kb;
    auto div = [](Lin l, i128 k) { for(auto& t : l.t) t.second /= k; l.c /= k; return l; };
    a = div(a, ka);
    b = div(b, kb);
    i128 k = ck_mul(ka, kb);
    bool sa = a.t.size() == 1 && a.c == 0, sb = b.t.size() == 1 && b.c == 0;
    size_t na = a.t.size() + (a.c != 0), nb = b.t.size() + (b.c != 0);
    if(!(sa && sb) && gcfg.expand && na * nb <= (size_t)gcfg.expand)
    {
        Lin r;
        for(auto& x : a.t)
            for(auto& y : b.t)
            {
                Lin m = mulSyms(st, x.first, y.first);
                r = lin_add(r, m, ck_mul(x.second, y.second));
            }
        Lin al = a, bl = b;
        al.c = 0;
        bl.c = 0;
        r = lin_add(r, al, b.c);
        r = lin_add(r, bl, a.c);
        r.c = ck_add(r.c, ck_mul(a.c, b.c));
        return lin_scale(r, k);
    }
    int A = sa ? a.t[0].first : aliasSym(a);
    int B = sb ? b.t[0].first : aliasSym(b);
    return lin_scale(mulSyms(st, A, B), k);
}

// opaque operations
enum { OP_AND = 1, OP_OR, OP_XOR, OP_CTPOP, OP_CTTZ, OP_WRAPMUL, OP_MEMO, OP_WRAP, OP_LSHR };
static i128 topbit_bound(i128 v) // smallest 2^k - 1 >= v
{
    i128 m = 0;
    while(m < v) m = m * 2 + 1;
    return m;
}
static Range opRange(const Sym& s, State& st)
{
    Range a = rangeOf(st, s.E), b = rangeOf(st, s.B);
    Range w = width_range(s.w);
    switch(s.op)
    {
    case OP_AND:
        if(a.lo >= 0 && b.lo >= 0) return {0, std::min(a.hi, b.hi)};
        if(a.lo >= 0) return {0, a.hi};
        if(b.lo >= 0) return {0, b.hi};
        return w;
    case OP_OR:
        if(a.lo >= 0 && b.lo >= 0) return {std::max(a.lo, b.lo), topbit_bound(std::max(a.hi, b.hi))};
        return w;
    case OP_XOR:
        if(a.lo >= 0 && b.lo >= 0) return {0, topbit_bound(std::max(a.hi, b.hi))};
        return w;
    default: return s.init;
    }
}

// ------------------------------------------------------------------ conditions
static int mkLE(State& st, Lin l)
{
    l = simp(st, l);
    if(l.t.empty()) return l.c <= 0 ? CT : CF;
    return internCond({C_LE, internLin(l)});
}
static int mkEQ(State& st, Lin l)
{
    l = simp(st, l);
    if(l.t.empty()) return l.c == 0 ? CT : CF;
    return internCond({C_EQ, internLin(l)});
}
static int mkNE(State& st, Lin l)
{
    l = simp(st, l);
    if(l.t.empty()) return l.c != 0 ? CT : CF;
    return internCond({C_NE, internLin(l)});
}
static int mkAND(int a, int b)
{
    if(a == CF || b == CF) return CF;
    if(a == CT) return b;
    if(b == CT) return a;
    return internCond({C_AND, a, b});
}
static int mkOR(int a, int b)
{
    if(a == CT || b == CT) return CT;
    if(a == CF) return b;
    if(b == CF) return a;
    return internCond({C_OR, a, b});
}
static int mkNOT(int c)
{
    Cond k = conds[c];
    switch(k.k)
    {
    case C_TRUE: return CF;
    case C_FALSE: return CT;
    case C_LE: // !(l<=0) : 1 - l <= 0
        return internCond({C_LE, internLin(lin_add(lin_const(1), lins[k.a], -1))});
    case C_EQ: return internCond({C_NE, k.a});
    case C_NE: return internCond({C_EQ, k.a});
    case C_AND: return mkOR(mkNOT(k.a), mkNOT(k.b));
    case C_OR: return mkAND(mkNOT(k.a), mkNOT(k.b));
    }
    return CT;
}
// 1 true, 0 false, -1 unknown
// rebuilds symbols whose operands the state has meanwhile determined
static Lin rebuild(State& st, const Lin& l, int depth)
{
    Lin out;
    out.c = l.c;
    for(auto& t : l.t)
    {
        int s = t.first;
        Range r = symRange(st, s);
        if(r.single()) { out.c = ck_add(out.c, ck_mul(r.lo, t.second)); continue; }
        Lin n = lin_sym(s);
        if(depth > 0)
        {
            const Sym y = syms[s];
            if(y.k == S_FDIV)
            {
                Lin e = rebuild(st, y.E, depth - 1);
                if(!(e == y.E)) n = mkFDIV(st, e, y.c);
            }
            else if(y.k == S_UD)
            {
                Lin a = rebuild(st, y.E, depth - 1), b = rebuild(st, y.B, depth - 1);
                if(!(a == y.E) || !(b == y.B))
                {
                    Range rb = rangeOf(st, b);
                    if(rb.lo > 0 && rangeOf(st, a).lo >= 0) n = mkUD(st, a, b);
                }
            }
            else if(y.k == S_MONO)
            {
                bool ch = false;
                std::vector<Lin> fs;
                for(auto& f : y.E.t)
                {
                    Lin q = rebuild(st, lin_sym(f.first), depth - 1);
                    if(!(q == lin_sym(f.first))) ch = true;
                    for(int i = 0; i < (int)f.second; ++i) fs.push_back(q);
                }
                if(ch)
                {
                    n = fs[0];
                    for(size_t i = 1; i < fs.size(); ++i) n = mulLin(st, n, fs[i]);
                }
            }
        }
        out = lin_add(out, n, t.second);
    }
    return out;
}
static int evalLin1(State& st, CK k, Lin l);
static int evalLin(State& st, CK k, Lin l)
{
    int v = evalLin1(st, k, l);
    if(v >= 0 || l.t.size() > 12) return v;
    try
    {
        Lin n = rebuild(st, l, 3);
        if(n == l) return v;
        return evalLin1(st, k, n);
    }
    catch(Overflow&) { return v; }
}
static int evalLin1(State& st, CK k, Lin l)
{
    try { l = simp(st, l); } catch(Overflow&) { return -1; }
    Range r = rangeOf(st, l);
    for(int pass = 0; pass < 2; ++pass)
    {
        if(k == C_LE)
        {
            if(r.hi <= 0) return 1;
            if(r.lo > 0) return 0;
        }
        else
        {
            if(r.lo > 0 || r.hi < 0) return k == C_NE;
            if(r.lo == 0 && r.hi == 0) return k == C_EQ;
            if(pass == 1 && !l.t.empty())
            {
                // divisibility: gcd of coefficients must divide the constant
                i128 g = 0;
                for(auto& t : l.t) g = gcd128(g, t.second);
                if(g > 1 && l.c % g != 0) return k == C_NE;
            }
        }
        if(pass == 0)
        {
            if(l.t.size() <= 1 && !(l.t.size() == 1 && (gcfg.forms || syms[l.t[0].first].k != S_INPUT))) break;
            r = bestRange(st, l);
        }
    }
    return -1;
}
static int evalCond(State& st, int c)
{
    Cond k = conds[c];
    switch(k.k)
    {
    case C_TRUE: return 1;
    case C_FALSE: return 0;
    case C_AND:
        {
            int a = evalCond(st, k.a);
            if(a == 0) return 0;
            int b = evalCond(st, k.b);
            if(b == 0) return 0;
            return a == 1 && b == 1 ? 1 : -1;
        }
    case C_OR:
        {
            int a = evalCond(st, k.a);
            if(a == 1) return 1;
            int b = evalCond(st, k.b);
            if(b == 1) return 1;
            return a == 0 && b == 0 ? 0 : -1;
        }
    default: return evalLin(st, k.k, lins[k.a]);
    }
}
static bool forkSmall(State& st, const Lin& l, int maxv)
{
    // prefer forking a floor-division symbol with very few values (wrap classes, signs)
    for(size_t i = l.t.size(); i-- > 0;)
    {
        int s = l.t[i].first;
        Range r = symRange(st, s);
        if(syms[s].k == S_FDIV && r.lo != IMIN && r.hi != IMAX && r.hi - r.lo < maxv && r.hi > r.lo)
        {
            ForkEx f;
            for(i128 v = r.lo; v <= r.hi; ++v) f.alts.push_back({{lin_add(lin_sym(s), lin_const(-v)), C_EQ}});
            throw f;
        }
    }
    return false;
}
[[noreturn]] static void forkLin(State& st, CK k, Lin l)
{
    l = simp(st, l);
    if(l.t.size() > 1) forkSmall(st, l, 3);
    ForkEx f;
    if(k == C_LE)
    {
        f.alts.push_back({{l, C_LE}});
        f.alts.push_back({{lin_add(lin_const(1), l, -1), C_LE}});
    }
    else
    {
        f.alts.push_back({{l, C_EQ}});
        f.alts.push_back({{lin_add(l, lin_const(1)), C_LE}});
        f.alts.push_back({{lin_add(lin_const(1), l, -1), C_LE}});
    }
    throw f;
}
static bool decide(State& st, int c)
{
    int v = evalCond(st, c);
    if(v >= 0) return v == 1;
    // first undecided leaf
    Cond k = conds[c];
    while(k.k == C_AND || k.k == C_OR)
    {
        if(evalCond(st, k.a) < 0) k = conds[k.a];
        else k = conds[k.b];
    }
    forkLin(st, k.k, lins[k.a]);
}
static bool decideLE(State& st, const Lin& l) // l <= 0 ?
{
    int v = evalLin(st, C_LE, l);
    if(v >= 0) return v == 1;
    forkLin(st, C_LE, l);
}
static bool decideEQ(State& st, const Lin& l)
{
    int v = evalLin(st, C_EQ, l);
    if(v >= 0) return v == 1;
    forkLin(st, C_EQ, l);
}
static bool decideNonNeg(State& st, const Lin& l) { return decideLE(st, lin_scale(l, -1)); }

// ------------------------------------------------------------------ width handling
// machine-word mode: linear forms modulo 2^n in normal form, shifts and masks as uninterpreted functions of them
static i128 modc(i128 c, unsigned n)
{
    i128 m = (i128)1 << n;
    c %= m;
    if(c < 0) c += m;
    return c >= m / 2 ? c - m : c;
}
static Lin wrapBits(State& st, Lin l, unsigned n)
{
    for(bool again = true; again;)
    {
        again = false;
        Lin r = lin_const(modc(l.c, n));
        for(auto& p : l.t)
        {
            i128 k = modc(p.second, n);
            if(k == 0) continue;
            if(syms[p.first].k == S_OP && syms[p.first].op == OP_WRAP && syms[p.first].w >= n)
            {
                Lin e = syms[p.first].E;
                e.c = modc(e.c, n);
                for(auto& q : e.t) q.second = modc(q.second, n);
                r = lin_add(r, lin_scale(e, k));
                again = true;
            }
            else r = lin_add(r, lin_scale(lin_sym(p.first), k));
        }
        l = r;
    }
    Lin r = lin_const(modc(l.c, n));
    for(auto& p : l.t) if(i128 k = modc(p.second, n)) r.t.push_back({p.first, k});
    if(r.isConst()) return r;
    Range w = width_range(n), g = rangeOf(st, r);
    if(g.lo >= w.lo && g.hi <= w.hi) return r;
    return lin_sym(newSym({S_OP, r, Lin(), 0, OP_WRAP, n}, w));
}
static Lin wrapTo(State& st, Lin l, unsigned n)
{
    l = simp(st, l);
    if(gcfg.bits && n < 64 + 1 && !l.isConst()) return wrapBits(st, l, n);
    Range w = width_range(n);
    Range r = rangeOf(st, l);
    if(r.lo >= w.lo && r.hi <= w.hi && (n < 128 || (r.lo != IMIN && r.hi != IMAX))) return l;
    if(n >= 128)
    {
        if(r.lo != IMIN && r.hi != IMAX) return l;
        throw Overflow();
    }
    r = bestRange(st, l);
    if(r.lo >= w.lo && r.hi <= w.hi) return l;
    i128 m = (i128)1 << n;
    if(r.lo != IMIN && r.hi != IMAX && r.lo > IMIN / 2 && r.hi < IMAX / 2)
    {
        i128 k0 = floor_div(r.lo - w.lo, m), k1 = floor_div(r.hi - w.lo, m);
        if(k0 == k1) return lin_add(l, lin_const(-k0 * m));
        if(k1 - k0 < 4 && gcfg.forkzext)
        {
            ForkEx f;
            for(i128 k = k0; k <= k1; ++k)
            {
                Lin d = lin_add(l, lin_const(-k * m));
                f.alts.push_back({{lin_add(d, lin_const(-w.hi)), C_LE}, {lin_add(lin_const(w.lo), d, -1), C_LE}});
            }
            throw f;
        }
    }
    Lin q = mkFDIV(st, lin_add(l, lin_const(-w.lo)), m);
    Lin res = lin_add(l, lin_scale(q, -m));
    // keep the known range through an alias-free constraint
    return res;
}
// unsigned view of a canonical signed value of width n
static Lin unsignedOf(State& st, Lin l, unsigned n, bool mayFork = true)
{
    l = simp(st, l);
    Range r = rangeOf(st, l);
    if(r.lo >= 0) return l;
    if(n >= 128)
    {
        if(decideNonNeg(st, l)) return l;
        throw Overflow();
    }
    i128 m = (i128)1 << n;
    if(r.hi < 0) return lin_add(l, lin_const(m));
    r = bestRange(st, l);
    if(r.lo >= 0) return l;
    if(r.hi < 0) return lin_add(l, lin_const(m));
    if(mayFork && gcfg.forkzext)
    {
        if(decideNonNeg(st, l)) return l;
        return lin_add(l, lin_const(m));
    }
    Lin q = mkFDIV(st, l, m);
    return lin_add(l, lin_scale(q, -m));
}
static bool isPow2(i128 v) { return v > 0 && (v & (v - 1)) == 0; }
static int log2i(i128 v) { int k = 0; while(v > 1) v >>= 1, ++k; return k; }

static Lin mkOP(State& st, int op, Lin a, Lin b, unsigned w);
// x & mask for an arbitrary constant mask (two's complement, width n); result canonical signed
static Lin andConst(State& st, Lin x, i128 mask, unsigned n)
{
    // mask given as canonical signed
    x = simp(st, x);
    if(mask == 0) return lin_const(0);
    if(mask == -1) return x;
    if(x.isConst()) return lin_const(x.c & mask);
    if(gcfg.bits)
    {
        x = wrapBits(st, x, n);
        return x.isConst() ? lin_const(x.c & mask) : mkOP(st, OP_AND, x, lin_const(mask), n);
    }
    if(mask < 0)
    {
        // x & mask = x - (x & ~mask)
        return lin_add(x, andConst(st, x, ~mask, n), -1);
    }
    Lin r;
    unsigned b = 0;
    while(b < n)
    {
        while(b < n && !((mask >> b) & 1)) ++b;
        if(b >= n) break;
        unsigned e = b;
        while(e < n && ((mask >> e) & 1)) ++e;
        // bits [b,e)
        Lin lo = mkFDIV(st, x, (i128)1 << b);
        Lin hi = mkFDIV(st, x, (i128)1 << e);
        Lin part = lin_add(lo, lin_scale(hi, (i128)1 << (e - b)), -1);
        r = lin_add(r, lin_scale(part, (i128)1 << b));
        b = e;
    }
    return r;
}
static Lin mkOP(State& st, int op, Lin a, Lin b, unsigned w)
{
    if((op == OP_AND || op == OP_OR || op == OP_XOR) && LinHash()(b) < LinHash()(a)) std::swap(a, b);
    int s = newSym({S_OP, a, b, 0, op, w}, width_range(w));
    return lin_sym(s);
}
// number of low zero bits of a linear form (known)
static int lowZeros(const Lin& l)
{
    i128 g = content(l);
    if(g == 0) return 127;
    int k = 0;
    while(!(g & 1)) g >>= 1, ++k;
    return k;
}
static Lin bitop(State& st, unsigned opc, Lin a, Lin b, unsigned n)
{
    a = simp(st, a);
    b = simp(st, b);
    if(a.isConst() && !b.isConst()) std::swap(a, b);
    if(a == b) return opc == Instruction::Xor ? lin_const(0) : a;
    if(b.isConst())
    {
        if(opc == Instruction::And) return andConst(st, a, b.c, n);
        Lin x = andConst(st, a, b.c, n);
        Lin r = lin_add(a, b);
        return lin_add(r, x, opc == Instruction::Or ? -1 : -2);
    }
    // disjoint bits: a multiple of 2^k, 0 <= b < 2^k
    for(int sw = 0; sw < 2; ++sw)
    {
        Range rb = bestRange(st, b, 2);
        int z = lowZeros(a);
        if(rb.lo >= 0 && z < 126 && rb.hi < ((i128)1 << z))
            return opc == Instruction::And ? lin_const(0) : lin_add(a, b);
        std::swap(a, b);
    }
    // sign masks: one operand in {-1, 0}
    for(int sw = 0; sw < 2; ++sw)
    {
        Range rb = bestRange(st, b, 2);
        if(rb.lo == -1 && rb.hi == 0 && gcfg.forkzext)
        {
            bool zero = decideEQ(st, b);
            if(opc == Instruction::And) return zero ? lin_const(0) : a;
            if(opc == Instruction::Or) return zero ? a : lin_const(-1);
            return zero ? a : lin_add(lin_const(-1), a, -1);
        }
        if(rb.single())
            return bitop(st, opc, a, lin_const(rb.lo), n);
        std::swap(a, b);
    }
    return mkOP(st, opc == Instruction::And ? OP_AND : opc == Instruction::Or ? OP_OR : OP_XOR, a, b, n);
}
#include "interp.h"
