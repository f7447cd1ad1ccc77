// scheduling, joins, partition refinement, reporting (included by interp.h)

// ------------------------------------------------------------------ joins
struct NoJoin {};
struct Joiner
{
    State& A;
    State& B;
    std::map<std::pair<int, int>, Val> memo;
    Val lin(int a, int b)
    {
        auto k = std::make_pair(a, b);
        auto it = memo.find(k);
        if(it != memo.end()) return it->second;
        Lin la = lins[a], lb = lins[b];
        Val r;
        try
        {
            Lin d = lin_add(la, lb, -1);
            if(d.isConst() && !la.t.empty())
            {
                Lin p = la;
                p.c = 0;
                r = vInt(lin_add(p, freshLin(hull({la.c, la.c}, {lb.c, lb.c}))));
            }
            else r = vInt(freshLin(hull(bestRange(A, la), bestRange(B, lb))));
        }
        catch(Overflow&) { throw NoJoin(); }
        memo[k] = r;
        return r;
    }
    Val val(Val a, Val b)
    {
        if(a == b) return a;
        if(a.k == V_UNDEF || b.k == V_UNDEF) return {};
        if(a.k != b.k) throw NoJoin();
        switch(a.k)
        {
        case V_INT: return lin(a.id, b.id);
        case V_COND:
            {
                int x = evalCond(A, a.id), y = evalCond(B, b.id);
                if(x == y && x >= 0) return vCond(x ? CT : CF);
                return vCond(mkNE(A, freshLin({0, 1})));
            }
        case V_PTR:
            {
                PtrV x = ptrs[a.id], y = ptrs[b.id];
                if(x.obj != y.obj) throw NoJoin();
                Val o = lin(x.off, y.off);
                return {V_PTR, internPtr(x.obj, o.id)};
            }
        case V_FP: return fpTop();
        case V_AGG:
            {
                auto x = aggs[a.id], y = aggs[b.id];
                if(x.size() != y.size()) throw NoJoin();
                std::vector<Val> r;
                for(size_t i = 0; i < x.size(); ++i) r.push_back(val(x[i], y[i]));
                return {V_AGG, internAgg(r)};
            }
        default: throw NoJoin();
        }
    }
};
static State joinStates(State& a, State& b)
{
    if(a.fr.size() != b.fr.size() || a.mem.size() != b.mem.size() || a.expectThrow != b.expectThrow || a.gobj != b.gobj || a.pathNotes != b.pathNotes) throw NoJoin();
    Joiner J{a, b, {}};
    State r = a;
    r.joined = true;
    for(size_t i = 0; i < a.fr.size(); ++i)
    {
        if(a.fr[i].fi != b.fr[i].fi || a.fr[i].bb != b.fr[i].bb || a.fr[i].it != b.fr[i].it) throw NoJoin();
        auto* fi = a.fr[i].fi;
        const std::vector<char>* live = nullptr;
        if(i + 1 == a.fr.size() && a.fr[i].it == a.fr[i].bb->getFirstNonPHI()->getIterator()) { fi->computeLive(); live = &fi->liveIn[a.fr[i].bb]; }
        for(size_t j = 0; j < r.fr[i].env.size(); ++j)
        {
            if(live && !(*live)[j]) { r.fr[i].env[j] = Val(); continue; }
            r.fr[i].env[j] = J.val(a.fr[i].env[j], b.fr[i].env[j]);
        }
    }
    for(size_t i = 0; i < a.mem.size(); ++i)
    {
        if(a.mem[i] == b.mem[i]) continue;
        Obj &x = *a.mem[i], &y = *b.mem[i];
        if(x.size != y.size || x.gv != y.gv || x.zeroInit != y.zeroInit || x.dead != y.dead) throw NoJoin();
        auto o = std::make_shared<Obj>(x);
        if(x.cells.size() != y.cells.size()) throw NoJoin();
        auto p = x.cells.begin();
        for(auto& q : y.cells)
        {
            if(p->first != q.first || p->second.size != q.second.size) throw NoJoin();
            o->cells[q.first].v = J.val(p->second.v, q.second.v);
            ++p;
        }
        r.mem[i] = o;
    }
    size_t n = std::max(a.has.size(), b.has.size());
    r.has.assign(syms.size(), 0);
    r.rng.assign(syms.size(), Range());
    for(size_t s = 0; s < n; ++s)
    {
        bool ha = s < a.has.size() && a.has[s], hb = s < b.has.size() && b.has[s];
        if(!ha && !hb) continue;
        Range h = hull(symRange(a, (int)s), symRange(b, (int)s));
        if(r.has.size() <= s) { r.has.resize(syms.size(), 0); r.rng.resize(syms.size()); }
        r.has[s] = 1;
        r.rng[s] = h;
    }
    r.cons.clear();
    for(auto& c : a.cons)
    {
        Range h = hull(c.second, bestRange(b, c.first, 1));
        if(h.lo != IMIN || h.hi != IMAX) r.cons.push_back({c.first, h});
    }
    return r;
}

// ------------------------------------------------------------------ one analysis of a cell
static const size_t MAXFAILS = 6;
static void execBlock(State& st0, std::vector<State>& out)
{
    // runs until the next scheduling point; forks are explored with a local stack
    std::vector<State> stack;
    stack.push_back(std::move(st0));
    while(!stack.empty())
    {
        State st = std::move(stack.back());
        stack.pop_back();
        bool keep = false;
        int local = 0;
        try
        {
            while(true)
            {
                if(R->steps > gcfg.steps)
                {
                    if(gcfg.slowok)
                    {
                        if(R->unsupported.empty()) R->unsupported = "step bound at " + (curInst ? locStr(curInst->getDebugLoc()) : std::string("?"));
                        R->stepLimited = true;
                    }
                    if(!R->stepLimited)
                    {
                        R->stepLimited = true;
                        Fail f;
                        f.msg = "analysis step bound exceeded (non-terminating loop?)";
                        f.loc = curInst ? locStr(curInst->getDebugLoc()) : "?";
                        f.st = std::make_shared<State>(st);
                        f.stepLimit = true;
                        R->fails.push_back(f);
                    }
                    break;
                }
                if(!execInst(st)) { keep = true; break; }
                if(++local > 100000) { keep = true; break; }
            }
        }
        catch(ForkEx& fx)
        {
            const void* at = curInst;
            if(st.forkAt == at) st.forkCount++;
            else st.forkAt = at, st.forkCount = 0;
            if(st.forkCount > 4000) { if(R->unsupported.empty()) R->unsupported = "fork bound at " + locStr(curInst->getDebugLoc()); return; }
            R->forks++;
            bool first = true;
            std::vector<State> alts;
            for(auto& alt : fx.alts)
            {
                State s = st;
                bool ok = true;
                try
                {
                    for(auto& as : alt) if(!assumeLin(s, as.e, as.k)) { ok = false; break; }
                }
                catch(Overflow&) {}
                if(ok) alts.push_back(std::move(s));
                first = false;
            }
            (void)first;
            if(stack.size() > 3000 || R->forks > 400000) { if(R->unsupported.empty()) R->unsupported = "too many alternatives"; return; }
            if(R->discovery && alts.size() > 1) alts.resize(1);
            for(size_t i = alts.size(); i-- > 0;) stack.push_back(std::move(alts[i]));
            continue;
        }
        catch(FailEx& fe)
        {
            Fail f;
            f.msg = fe.msg;
            f.loc = curInst ? locStr(curInst->getDebugLoc()) : "?";
            f.st = std::make_shared<State>(std::move(st));
            R->fails.push_back(f);
            if(R->fails.size() >= MAXFAILS) return;
            continue;
        }
        catch(Infeasible&) { continue; }
        catch(PathEnd&) { continue; }
        catch(Unsupported& u)
        {
            if(R->unsupported.empty()) R->unsupported = u.what + " at " + (curInst ? locStr(curInst->getDebugLoc()) : "?");
            return;
        }
        catch(Overflow&)
        {
            if(R->unsupported.empty()) R->unsupported = std::string("coefficient overflow at ") + (curInst ? locStr(curInst->getDebugLoc()) : "?");
            return;
        }
        if(keep) out.push_back(std::move(st));
    }
}
struct Options
{
    long maxCells = 3000;
    double timePerItem = 60, totalEnd = 1e300;
    int jobs = 8;
    int chunk = 0;
    bool overflow = false; // the result of a signed overflow is unusable
};
static Options opt;
static double deadline = 0;
static void runOnce(Function* ob, Run& run)
{
    resetTables();
    gcfg = Config();
    gcfg.overflow = opt.overflow;
    gOverflowAt.clear();
    gImprecise = false;
    struct Guard { Run& r; ~Guard() { r.imprecise = gImprecise; } } guard{run};
    R = &run;
    curInst = nullptr;
    State init;
    pushFrame(init, ob, {}, nullptr);
    std::map<std::vector<int>, std::vector<State>> work;
    std::vector<State> out;
    work[keyOf(init)].push_back(std::move(init));
    long iter = 0;
    while(!work.empty())
    {
        if(run.fails.size() >= MAXFAILS || !run.unsupported.empty() || run.stepLimited) return;
        if((++iter & 63) == 0 && deadline > 0 && now() > deadline) { run.unsupported = "time budget"; return; }
        auto it = work.begin();
        std::vector<State> grp = std::move(it->second);
        work.erase(it);
        run.states += (long)grp.size();
        if((int)grp.size() > gcfg.maxDisj)
        {
            // order by first input, then merge neighbours
            std::vector<int> ins;
            for(auto& d : run.inputs) ins.push_back(d.sym);
            std::sort(grp.begin(), grp.end(), [&](const State& x, const State& y)
            {
                for(int s : ins) if(s >= 0)
                {
                    Range a = symRange(const_cast<State&>(x), s), b = symRange(const_cast<State&>(y), s);
                    if(a.lo != b.lo) return a.lo < b.lo;
                }
                return false;
            });
            bool any = true;
            while((int)grp.size() > gcfg.maxDisj && any)
            {
                any = false;
                std::vector<State> n;
                for(size_t i = 0; i < grp.size();)
                {
                    if(i + 1 < grp.size() && grp.size() - i + n.size() > (size_t)gcfg.maxDisj)
                    {
                        try
                        {
                            State j = joinStates(grp[i], grp[i + 1]);
                            run.joins++;
                            n.push_back(std::move(j));
                            i += 2;
                            any = true;
                            continue;
                        }
                        catch(NoJoin&) {}
                    }
                    n.push_back(std::move(grp[i]));
                    ++i;
                }
                grp.swap(n);
            }
        }
        for(auto& s : grp)
        {
            out.clear();
            execBlock(s, out);
            if(run.fails.size() >= MAXFAILS || !run.unsupported.empty()) return;
            // fast path: a lone state keeps running
            while(out.size() == 1 && work.empty() && grp.size() == 1)
            {
                State t = std::move(out[0]);
                out.clear();
                if((++iter & 63) == 0 && deadline > 0 && now() > deadline) { run.unsupported = "time budget"; return; }
                run.states++;
                execBlock(t, out);
                if(run.stepLimited) return;
                if(run.fails.size() >= MAXFAILS || !run.unsupported.empty()) return;
            }
            for(auto& o : out) { auto k = keyOf(o); work[k].push_back(std::move(o)); }
        }
        if(run.discovery && run.steps > 3000) return;
    }
}

// ------------------------------------------------------------------ partition refinement
typedef std::vector<Range> Cell;
struct ItemResult
{
    long cells = 0, states = 0, steps = 0, asserts = 0, paths = 0, forks = 0, joins = 0, undecided = 0;
    std::string undecidedWhy;
    std::vector<std::string> fails; // JSON objects
    double t = 0;
    double wErr = 0, wRatio = 0;
};


static std::string jesc(const std::string& s)
{
    std::string r;
    for(char c : s)
    {
        if(c == '"' || c == '\\') { r += '\\'; r += c; }
        else if((unsigned char)c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
static std::vector<Range> splitUniform(Range r, int n)
{
    std::vector<Range> v;
    u128 w = (u128)(r.hi - r.lo) + 1;
    if((u128)n > w) n = (int)w;
    i128 lo = r.lo;
    for(int i = 0; i < n; ++i)
    {
        i128 hi = i + 1 == n ? r.hi : r.lo + (i128)(w / n) * (i + 1) - 1;
        v.push_back({lo, hi});
        lo = hi + 1;
    }
    return v;
}
static std::vector<Range> initialCells(const InputDecl& d)
{
    if(d.cells <= 1) return {d.full};
    if(d.mode == 0) return splitUniform(d.full, d.cells);
    // geometric: octaves on both sides of zero, each octave split into `cells`
    std::vector<Range> v;
    std::vector<i128> cuts;
    if(d.full.lo < 0)
    {
        std::vector<Range> neg;
        i128 m = -d.full.lo, lo = std::max<i128>(1, d.full.hi < 0 ? -d.full.hi : 1);
        for(i128 b = 1; b <= m; b *= 2)
        {
            Range o{std::max(b, lo), std::min(2 * b - 1, m)};
            if(o.empty()) continue;
            for(auto& q : splitUniform(o, d.cells)) neg.push_back({-q.hi, -q.lo});
        }
        for(size_t i = neg.size(); i-- > 0;) v.push_back(neg[i]);
    }
    if(d.full.lo <= 0 && d.full.hi >= 0) v.push_back({0, 0});
    if(d.full.hi > 0)
    {
        i128 m = d.full.hi, lo = std::max<i128>(1, d.full.lo);
        for(i128 b = 1; b <= m && b > 0; b *= 2)
        {
            Range o{std::max(b, lo), std::min(2 * b - 1, m)};
            if(o.empty()) continue;
            for(auto& q : splitUniform(o, d.cells)) v.push_back(q);
        }
    }
    return v;
}
static bool isPoint(const Cell& c) { for(auto& r : c) if(!r.single()) return false; return true; }
static std::string cellStr(const Cell& c)
{
    std::string s = "[";
    for(size_t i = 0; i < c.size(); ++i) s += (i ? "," : "") + std::string("[\"") + to_s(c[i].lo) + "\",\"" + to_s(c[i].hi) + "\"]";
    return s + "]";
}
static uint64_t rngState = 88172645463325252ull;
static uint64_t rnd() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }

static void accumulate(ItemResult& ir, Run& r)
{
    ir.states += r.states; ir.steps += r.steps; ir.forks += r.forks; ir.joins += r.joins;
}
// a failure of a one-point cell without loss of precision is definite
static bool pointFails(Function* ob, const Cell& c, ItemResult& ir, Fail& out)
{
    Run r;
    r.cell = c;
    runOnce(ob, r);
    accumulate(ir, r);
    if(r.imprecise || !r.unsupported.empty() || r.joins) return false;
    if(r.fails.empty()) return false;
    out = r.fails[0];
    out.st.reset();
    return true;
}
static void reportFail(Function* ob, ItemResult& ir, const Fail& f, const Cell& c)
{
    // the library constructs on the failing path
    tracing = true;
    tracePath.clear();
    traceSeen.clear();
    {
        Run r;
        r.cell = c;
        runOnce(ob, r);
    }
    tracing = false;
    std::string path;
    for(size_t i = 0; i < tracePath.size(); ++i)
    {
        if(i >= 24 && i + 24 < tracePath.size()) continue;
        path += (path.empty() ? "" : ",") + std::string("\"") + jesc(tracePath[i]) + "\"";
    }
    ir.fails.push_back("{\"msg\":\"" + jesc(f.msg) + "\",\"loc\":\"" + jesc(f.loc) + "\",\"witness\":" + cellStr(c) + ",\"path\":[" + path + "]}");
}
static std::vector<Cell> candidates(Run& run)
{
    // points suggested by the failing states
    std::vector<Cell> pts;
    std::set<std::string> seen;
    size_t n = run.inputs.size();
    for(auto& f : run.fails)
    {
        if(!f.st) continue;
        for(int k = 0; k < 10; ++k)
        {
            State s = *f.st;
            Cell c(n);
            bool ok = true;
            for(size_t q = 0; q < n && ok; ++q)
            {
                size_t i = (k & 1) ? n - 1 - q : q;
                int sy = run.inputs[i].sym;
                if(sy < 0) { ok = false; break; }
                Range r = symRange(s, sy);
                i128 v;
                switch(k)
                {
                case 0: v = r.lo; break;
                case 1: v = r.hi; break;
                case 2: v = r.lo + (r.hi - r.lo) / 2; break;
                case 3: v = (r.lo <= 0 && r.hi >= 0) ? 0 : r.lo + (r.hi - r.lo) / 3; break;
                default: v = r.lo + (i128)(((u128)rnd() << 32 ^ rnd()) % ((u128)(r.hi - r.lo) + 1)); break;
                }
                c[i] = {v, v};
                try { if(!assumeLin(s, lin_add(lin_sym(sy), lin_const(-v)), C_EQ)) ok = false; }
                catch(Overflow&) {}
            }
            if(!ok) continue;
            if(seen.insert(cellStr(c)).second) pts.push_back(c);
        }
    }
    return pts;
}
static ItemResult processItem(Function* ob, std::vector<Cell> cells)
{
    ItemResult ir;
    double t0 = now();
    double limit = std::min(t0 + opt.timePerItem, opt.totalEnd);
    worstErr = worstRatio = 0;
    long budget = opt.maxCells + (long)cells.size();
    std::vector<std::pair<Cell, int>> stack;
    for(size_t i = cells.size(); i-- > 0;) stack.push_back({cells[i], 0});
    long sinceSearch = 0;
    while(!stack.empty())
    {
        Cell c = stack.back().first;
        int depth = stack.back().second;
        stack.pop_back();
        if(budget-- <= 0 || now() > limit)
        {
            ir.undecided += (long)stack.size() + 1;
            if(ir.undecidedWhy.empty()) ir.undecidedWhy = budget <= 0 ? "cell budget" : "time budget";
            break;
        }
        Run r;
        r.cell = c;
        deadline = limit;
        runOnce(ob, r);
        ir.cells++;
        accumulate(ir, r);
        // inputs that the discovery run did not reach
        while(c.size() < r.inputs.size()) c.push_back(r.inputs[c.size()].full);
        if(r.fails.empty() && r.unsupported.empty())
        {
            ir.asserts += r.asserts;
            ir.paths += r.paths;
            continue;
        }
        if(verbose)
        {
            fprintf(stderr, "cell %s: %s\n", cellStr(c).c_str(), r.unsupported.empty() ? "" : ("unsupported " + r.unsupported).c_str());
            for(auto& f : r.fails) fprintf(stderr, "   may-fail: %s @ %s%s\n", f.msg.c_str(), f.loc.c_str(), f.st && f.st->joined ? " (joined)" : "");
        }
        bool point = isPoint(c);
        if(point)
        {
            if(r.unsupported.empty() && !r.imprecise && !r.joins)
            {
                reportFail(ob, ir, r.fails[0], c);
                if(ir.fails.size() >= 2) break;
                continue;
            }
            ir.undecided++;
            if(ir.undecidedWhy.empty()) ir.undecidedWhy = r.unsupported.empty() ? "imprecise: " + r.fails[0].msg + " @ " + r.fails[0].loc : r.unsupported;
            continue;
        }
        // look for a definite failing point
        bool found = false;
        if(sinceSearch++ < 40 || sinceSearch % 16 == 0)
        {
            std::vector<Cell> pts = candidates(r);
            if(!r.unsupported.empty())
                for(int k = 0; k < 3; ++k)
                {
                    Cell p = c;
                    for(auto& q : p) { i128 v = k == 0 ? q.lo : k == 1 ? q.hi : q.lo + (q.hi - q.lo) / 2; q = {v, v}; }
                    pts.push_back(p);
                }
            std::vector<Fail> saved = std::move(r.fails);
            std::string uns = r.unsupported;
            for(auto& p : pts)
            {
                Fail f;
                if(pointFails(ob, p, ir, f))
                {
                    reportFail(ob, ir, f, p);
                    found = true;
                    break;
                }
            }
            r.fails = std::move(saved);
        }
        if(found) break;
        std::string why = r.fails.empty() ? r.unsupported : "not excluded: " + r.fails[0].msg + " @ " + r.fails[0].loc;
        if((!r.unsupported.empty() && depth >= 12) || depth > 120)
        {
            ir.undecided++;
            if(ir.undecidedWhy.empty()) ir.undecidedWhy = why;
            continue;
        }
        ir.undecidedWhy = ""; // refined below
        // bisect the input that is widest relative to its declared range
        int best = -1;
        ld bw = 0;
        for(size_t i = 0; i < c.size(); ++i)
        {
            if(c[i].single()) continue;
            ld w = (ld)c[i].hi - (ld)c[i].lo;
            const InputDecl& d = r.inputs.size() > i ? r.inputs[i] : InputDecl();
            ld full = d.full.lo == IMIN ? 1 : (ld)d.full.hi - (ld)d.full.lo + 1;
            ld score = d.mode == 1 ? logl(1 + w) / 64 + w / (1 + fabsl((ld)c[i].lo)) : w / full;
            if(best < 0 || score > bw) best = (int)i, bw = score;
        }
        Range q = c[best];
        i128 mid = q.lo + (q.hi - q.lo) / 2;
        if(q.lo < 0 && q.hi > 0) mid = -1;
        Cell a = c, b = c;
        a[best] = {q.lo, mid};
        b[best] = {mid + 1, q.hi};
        stack.push_back({b, depth + 1});
        stack.push_back({a, depth + 1});
        if(now() > limit || budget <= 0)
        {
            ir.undecided += (long)stack.size();
            ir.undecidedWhy = why;
            break;
        }
    }
    deadline = 0;
    ir.t = now() - t0;
    ir.wErr = worstErr;
    ir.wRatio = worstRatio;
    return ir;
}

int main(int argc, char** argv)
{
    std::string file, only, out;
    std::vector<std::string> cellArg;
    for(int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if(a == "-v") verbose = true;
        else if(a == "--only") only = next();
        else if(a == "--out") out = next();
        else if(a == "--jobs") opt.jobs = atoi(next().c_str());
        else if(a == "--overflow") opt.overflow = true;
        else if(a == "--max-cells") opt.maxCells = atol(next().c_str());
        else if(a == "--total") opt.totalEnd = now() + atof(next().c_str());
        else if(a == "--time") opt.timePerItem = atof(next().c_str());
        else if(a == "--cell") cellArg.push_back(next());
        else file = a;
    }
    LLVMContext ctx;
    SMDiagnostic err;
    auto mod = parseIRFile(file, err, ctx);
    if(!mod) { err.print("absint", errs()); return 3; }
    M = mod.get();
    DLp = &M->getDataLayout();
    normalise(*M);
    std::vector<Function*> obs;
    for(auto& f : *M)
        if(f.getName().starts_with("ob_") && !f.isDeclaration() && (only.empty() || f.getName().contains(only))) obs.push_back(&f);
    if(obs.empty()) { fprintf(stderr, "no obligations in %s\n", file.c_str()); return 3; }
    struct Item { int ob; std::vector<Cell> cells; };
    std::vector<Item> items;
    std::vector<std::string> early(obs.size());
    for(size_t i = 0; i < obs.size(); ++i)
    {
        Run r;
        r.discovery = true;
        deadline = now() + 10;
        try { runOnce(obs[i], r); } catch(PathEnd&) {}
        std::vector<Cell> cells{{}};
        if(!cellArg.empty())
        {
            Cell c;
            for(auto& s : cellArg)
            {
                long long lo, hi;
                if(sscanf(s.c_str(), "%lld,%lld", &lo, &hi) == 2) c.push_back({lo, hi});
            }
            cells = {c};
        }
        else for(auto& d : r.inputs)
        {
            auto v = initialCells(d);
            std::vector<Cell> n;
            for(auto& c : cells) for(auto& q : v) { Cell x = c; x.push_back(q); n.push_back(x); }
            cells.swap(n);
        }
        size_t chunk = std::max<size_t>(1, cells.size() / (size_t)(opt.jobs * 6));
        for(size_t k = 0; k < cells.size(); k += chunk)
        {
            Item it{(int)i, {}};
            for(size_t j = k; j < std::min(cells.size(), k + chunk); ++j) it.cells.push_back(cells[j]);
            items.push_back(it);
        }
    }
    // shared progress: next item, failing obligations
    struct Shared { std::atomic<int> next; std::atomic<int> failed[4096]; };
    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    // heavy items first within interleaving of obligations is unnecessary; keep order
    std::vector<std::pair<pid_t, FILE*>> kids;
    int jobs = std::max(1, std::min<int>(opt.jobs, (int)items.size()));
    std::vector<FILE*> tmp;
    for(int w = 0; w < jobs; ++w)
    {
        FILE* f = tmpfile();
        fflush(nullptr);
        pid_t p = fork();
        if(p == 0)
        {
            std::map<int, long> dummy;
            while(true)
            {
                int k = sh->next.fetch_add(1);
                if(k >= (int)items.size() || now() > opt.totalEnd) break;
                if(sh->failed[items[k].ob].load() >= 2) continue;
                ItemResult r = processItem(obs[items[k].ob], items[k].cells);
                if(!r.fails.empty()) sh->failed[items[k].ob].fetch_add((int)r.fails.size());
                fprintf(f, "R %d %ld %ld %ld %ld %ld %ld %ld %ld %.3f %.9g %.9g\n", items[k].ob, r.cells, r.states, r.steps, r.asserts, r.paths, r.forks, r.joins, r.undecided, r.t, r.wErr, r.wRatio);
                if(r.undecided) fprintf(f, "U %d %s\n", items[k].ob, jesc(r.undecidedWhy).c_str());
                for(auto& s : r.fails) fprintf(f, "F %d %s\n", items[k].ob, s.c_str());
                fflush(f);
            }
            std::map<std::string, std::set<int>> lines;
            std::set<std::string> fnames;
            long n = 0;
            for(auto* I : coveredInst)
                for(const DILocation* l = I->getDebugLoc().get(); l; l = l->getInlinedAt())
                {
                    std::string fn = l->getFilename().str();
                    size_t p2 = fn.find("include/eirin/");
                    if(p2 == std::string::npos) continue;
                    ++n;
                    if(l->getLine()) lines[fn.substr(p2)].insert((int)l->getLine());
                    if(auto* sp = l->getScope()->getSubprogram()) fnames.insert(sp->getName().str());
                }
            for(auto& kv : lines)
            {
                fprintf(f, "L %s", kv.first.c_str());
                for(int x : kv.second) fprintf(f, " %d", x);
                fprintf(f, "\n");
            }
            for(auto& s : fnames) fprintf(f, "N %s\n", s.c_str());
            fprintf(f, "E\n");
            fflush(f);
            _exit(0);
        }
        kids.push_back({p, f});
    }
    int bad = 0;
    for(auto& k : kids)
    {
        int stt = 0;
        while(waitpid(k.first, &stt, WNOHANG) == 0)
        {
            usleep(3000);
            if(now() > opt.totalEnd + 15) kill(k.first, SIGKILL);
        }
        if(!WIFEXITED(stt) || WEXITSTATUS(stt) != 0) bad++;
    }
    struct Agg { long done = 0, items = 0; long v[8] = {0}; double t = 0, we = 0, wr = 0; std::string why; std::vector<std::string> fails; };
    std::vector<Agg> ag(obs.size());
    for(auto& it : items) ag[it.ob].items++;
    std::map<std::string, std::set<int>> lines;
    std::set<std::string> fnames;
    for(auto& k : kids)
    {
        rewind(k.second);
        char* buf = nullptr;
        size_t cap = 0;
        bool ended = false;
        while(getline(&buf, &cap, k.second) > 0)
        {
            std::string s = buf;
            while(!s.empty() && s.back() == '\n') s.pop_back();
            std::istringstream is(s.substr(1));
            int o;
            switch(s[0])
            {
            case 'R': { is >> o; ag[o].done++; for(int i = 0; i < 8; ++i) { long x; is >> x; ag[o].v[i] += x; } double t, we, wr; is >> t >> we >> wr; ag[o].t += t; ag[o].we = std::max(ag[o].we, we); ag[o].wr = std::max(ag[o].wr, wr); break; }
            case 'U': { is >> o; std::string rest; std::getline(is, rest); ag[o].why = rest; break; }
            case 'F': { is >> o; std::string rest; std::getline(is, rest); ag[o].fails.push_back(rest); break; }
            case 'L': { std::string fn; is >> fn; int x; while(is >> x) lines[fn].insert(x); break; }
            case 'N': { std::string fn; is >> fn; fnames.insert(fn); break; }
            case 'E': ended = true; break;
            }
        }
        if(!ended) bad++;
        fclose(k.second);
    }
    std::ostringstream js;
    js << "{\"file\":\"" << jesc(file) << "\",\"crashed_workers\":" << bad << ",\"obligations\":[";
    int nfail = 0, nund = 0;
    for(size_t i = 0; i < obs.size(); ++i)
    {
        auto& a = ag[i];
        std::string status = !a.fails.empty() ? "FAIL" : (a.v[7] || a.v[0] == 0 || a.done < a.items) ? "UNDECIDED" : "PROVED";
        if(status == "UNDECIDED" && a.why.empty()) a.why = "analysis incomplete (" + std::to_string(a.items - a.done) + " of " + std::to_string(a.items) + " work items lost or out of time)";
        if(status == "FAIL") nfail++;
        if(status == "UNDECIDED") nund++;
        auto* sp = obs[i]->getSubprogram();
        js << (i ? "," : "") << "\n{\"name\":\"" << obs[i]->getName().str() << "\",\"line\":" << (sp ? sp->getLine() : 0) << ",\"status\":\"" << status << "\",\"cells\":" << a.v[0] << ",\"states\":" << a.v[1]
           << ",\"steps\":" << a.v[2] << ",\"asserts\":" << a.v[3] << ",\"paths\":" << a.v[4] << ",\"forks\":" << a.v[5] << ",\"joins\":" << a.v[6] << ",\"undecided_cells\":" << a.v[7]
           << ",\"cpu_s\":" << a.t << ",\"worst_error\":" << a.we << ",\"worst_ratio\":" << a.wr << ",\"why\":\"" << a.why << "\",\"fails\":[";
        for(size_t k = 0; k < a.fails.size(); ++k) js << (k ? "," : "") << a.fails[k];
        js << "]}";
        if(out.empty() || verbose)
            fprintf(stderr, "%-9s %-44s cells=%ld paths=%ld asserts=%ld steps=%ld t=%.2f%s%s\n", status.c_str(), obs[i]->getName().str().c_str(), a.v[0], a.v[4], a.v[3], a.v[2], a.t,
                    a.wr > 0 ? (" err/tol=" + std::to_string(a.wr)).c_str() : "", a.why.empty() ? "" : (" why=" + a.why).c_str());
        if((out.empty() || verbose) && !a.fails.empty()) fprintf(stderr, "     %s\n", a.fails[0].c_str());
    }
    js << "],\"lines\":{";
    bool first = true;
    for(auto& kv : lines)
    {
        js << (first ? "" : ",") << "\"" << jesc(kv.first) << "\":[";
        bool f2 = true;
        for(int x : kv.second) { js << (f2 ? "" : ",") << x; f2 = false; }
        js << "]";
        first = false;
    }
    js << "},\"functions\":[";
    first = true;
    for(auto& s : fnames) { js << (first ? "" : ",") << "\"" << jesc(s) << "\""; first = false; }
    js << "]}\n";
    if(!out.empty()) { std::ofstream o(out); o << js.str(); }
    return bad ? 3 : nfail ? 1 : nund ? 2 : 0;
}
