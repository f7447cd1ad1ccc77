// calls: intrinsics, obligation primitives, external library functions (included by interp.h)
static void nearCheck(State& st, CallBase* cb)
{
    // __sa_near(fn, fbits, x, y, r, tolAbs, tolRel)
    auto li = [&](int i) { return simp(st, asLin(st, getv(st, cb->getArgOperand(i)))); };
    Lin fnl = li(0), fb = li(1), x = li(2), y = li(3), r = li(4);
    if(!fnl.isConst() || !fb.isConst()) throw Unsupported{"near arguments"};
    double ta = fpNum(st, getv(st, cb->getArgOperand(5))), tr = fpNum(st, getv(st, cb->getArgOperand(6)));
    int fn = (int)fnl.c;
    ld sc = ldexpl(1.0L, -(int)fb.c);
    FormCtx fc(st);
    auto scaled = [&](const Lin& l) { Form f = fc.ofLin(l); f.c0 *= sc; f.c1 *= sc; f.c2 *= sc; f.e *= sc; return f; };
    Form X = scaled(x), Y = scaled(y), RR = scaled(r), ref;
    R->asserts++;
    bool ok = refForm(fn, X, Y, ref);
    if(ok)
    {
        Form d = form_add(RR, ref, -1);
        ld bound = fabsl(d.c0) + d.rad();
        ld refMin = std::max(0.0L, fabsl(ref.c0) - ref.rad());
        Form alt;
        if(refForm(fn, X, Y, alt, 1))
        {
            Form d2 = form_add(RR, alt, -1);
            bound = std::min(bound, fabsl(d2.c0) + d2.rad());
            refMin = std::max(refMin, fabsl(alt.c0) - alt.rad());
        }
        ld tol = ta + tr * refMin;
        if(bound <= tol)
        {
            extern double worstRatio; extern double worstErr;
            worstErr = std::max(worstErr, (double)bound);
            worstRatio = std::max(worstRatio, (double)(bound / (tol > 0 ? tol : 1e-300L)));
            return;
        }
        if(verbose)
        {
            fprintf(stderr, "near fails fn=%d bound=%.6Lg tol=%.6Lg\n", fn, bound, tol);
            dumpForm("X", X); dumpForm("R", RR); dumpForm("ref", ref);
            fprintf(stderr, "  r = %s\n", linStr(st, r).substr(0, 300).c_str());
        }
        char buf[256];
        ld rv = RR.c0, re = ref.c0;
        snprintf(buf, sizeof buf, "result %.9Lg differs from reference %.9Lg beyond tolerance %.4Lg (argument about %.9Lg)", rv, re, tol, X.c0);
        throw FailEx{buf};
    }
    throw FailEx{"reference function undefined on this argument range"};
}
double worstErr = 0, worstRatio = 0;

static void memCopy(State& st, Val d, Val s, int64_t n)
{
    if(n == 0) return;
    if(d.k != V_PTR || s.k != V_PTR) throw Unsupported{"memcpy pointer"};
    PtrV dp = ptrs[d.id], sp = ptrs[s.id];
    if(dp.obj < 0 || sp.obj < 0) throw FailEx{"memory copy through null"};
    int64_t so = constOff(st, lins[sp.off], 80, st.mem[sp.obj]->size, n);
    int64_t dO = constOff(st, lins[dp.off], 80, st.mem[dp.obj]->size, n);
    if(so < 0 || so + n > st.mem[sp.obj]->size) throw FailEx{"out-of-bounds read in memory copy of " + std::to_string(n) + " bytes from '" + st.mem[sp.obj]->name + "'"};
    if(dO < 0 || dO + n > st.mem[dp.obj]->size) throw FailEx{"out-of-bounds write in memory copy of " + std::to_string(n) + " bytes to '" + st.mem[dp.obj]->name + "'"};
    // gather source pieces
    std::vector<std::pair<int64_t, MemCell>> pieces;
    Type* i8 = Type::getInt8Ty(M->getContext());
    for(int64_t i = 0; i < n;)
    {
        Obj& so_ = *st.mem[sp.obj];
        auto it = so_.cells.find(so + i);
        if(it != so_.cells.end() && it->second.size <= n - i)
        {
            pieces.push_back({i, it->second});
            i += it->second.size;
            continue;
        }
        // constant-backed words
        if(so_.gv && so_.cells.empty() && n - i >= 8 && n > 64)
        {
            pieces.push_back({i, {8, loadAt(st, sp.obj, so + i, Type::getInt64Ty(M->getContext()))}});
            i += 8;
            continue;
        }
        auto q = so_.cells.upper_bound(so + i);
        bool in = q != so_.cells.begin() && std::prev(q)->first + std::prev(q)->second.size > so + i;
        if(!in && !so_.gv && !so_.zeroInit) { pieces.push_back({i, {1, Val()}}); ++i; continue; }
        pieces.push_back({i, {1, loadAt(st, sp.obj, so + i, i8)}});
        ++i;
    }
    for(auto& p : pieces) storeAt(st, dp.obj, dO + p.first, p.second.size, p.second.v, nullptr);
}

static void execCall(State& st, CallBase* cb)
{
    Function* callee = cb->getCalledFunction();
    if(!callee)
    {
        if(cb->isInlineAsm()) throw Unsupported{"inline asm"};
        Val f = getv(st, cb->getCalledOperand());
        if(f.k == V_FN) callee = fns[f.id];
        else throw Unsupported{"indirect call"};
    }
    auto arg = [&](unsigned i) { return getv(st, cb->getArgOperand(i)); };
    auto larg = [&](unsigned i) { return simp(st, asLin(st, arg(i))); };
    auto carg = [&](unsigned i)
    {
        Lin l = larg(i);
        if(!l.isConst()) throw Unsupported{"constant argument expected in " + callee->getName().str()};
        return l.c;
    };
    auto done = [&]() { advance(st, cb); };
    auto res = [&](Val v) { setRes(st, cb, v); };
    if(callee->isIntrinsic())
    {
        auto id = callee->getIntrinsicID();
        unsigned n = cb->getType()->isIntegerTy() ? cb->getType()->getIntegerBitWidth() : 0;
        switch(id)
        {
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end:
            return done();
        case Intrinsic::invariant_start: return done();
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
        case Intrinsic::expect_with_probability:
            res(arg(0));
            return done();
        case Intrinsic::is_constant: res(vCond(CF)); return done();
        case Intrinsic::objectsize: res(vConst(-1)); return done();
        case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: throw FailEx{"trap reached"};
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
            {
                Lin n2 = larg(2);
                if(!n2.isConst())
                {
                    Range r = bestRange(st, n2);
                    if(r.single()) n2 = lin_const(r.lo);
                    else if(r.hi - r.lo < 300)
                    {
                        ForkEx f;
                        for(i128 v = r.lo; v <= r.hi; ++v) f.alts.push_back({{lin_add(n2, lin_const(-v)), C_EQ}});
                        throw f;
                    }
                    else throw Unsupported{"memcpy length"};
                }
                memCopy(st, arg(0), arg(1), (int64_t)n2.c);
                return done();
            }
        case Intrinsic::memset:
            {
                Val d = arg(0), b = arg(1);
                Lin n2 = larg(2);
                if(!n2.isConst()) throw Unsupported{"memset length"};
                if(n2.c == 0) return done();
                PtrV dp = ptrs[d.id];
                if(dp.obj < 0) throw FailEx{"memset through null"};
                int64_t off = constOff(st, lins[dp.off], 80, st.mem[dp.obj]->size, (int64_t)n2.c);
                Lin bl = asLin(st, b);
                if(off < 0 || off + (int64_t)n2.c > st.mem[dp.obj]->size) throw FailEx{"out-of-bounds memset of '" + st.mem[dp.obj]->name + "'"};
                if(bl.isConst() && bl.c == 0 && off == 0 && n2.c == st.mem[dp.obj]->size)
                {
                    Obj& o = wobj(st, dp.obj);
                    o.cells.clear();
                    o.gv = nullptr;
                    o.zeroInit = true;
                }
                else for(int64_t i = 0; i < (int64_t)n2.c; ++i) storeAt(st, dp.obj, off + i, 1, b, nullptr);
                return done();
            }
        case Intrinsic::abs:
            {
                Lin a = larg(0);
                if(decideNonNeg(st, a)) res(vInt(a));
                else res(vInt(wrapTo(st, lin_scale(a, -1), n)));
                return done();
            }
        case Intrinsic::smax: case Intrinsic::smin:
            {
                Lin a = larg(0), b = larg(1);
                bool le = decideLE(st, lin_add(a, b, -1));
                res(vInt((id == Intrinsic::smin) == le ? a : b));
                return done();
            }
        case Intrinsic::umax: case Intrinsic::umin:
            {
                Lin a = larg(0), b = larg(1);
                bool le = decide(st, icmpCond(st, CmpInst::ICMP_ULE, a, b, n));
                res(vInt((id == Intrinsic::umin) == le ? a : b));
                return done();
            }
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
            {
                unsigned w = cb->getArgOperand(0)->getType()->getIntegerBitWidth();
                bool u = id == Intrinsic::uadd_with_overflow || id == Intrinsic::usub_with_overflow || id == Intrinsic::umul_with_overflow;
                Lin a = larg(0), b = larg(1);
                if(u) { a = unsignedOf(st, a, w); b = unsignedOf(st, b, w); }
                Lin r = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? lin_add(a, b) :
                        (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? lin_add(a, b, -1) : mulLin(st, a, b);
                if(w >= 127) throw Unsupported{"wide overflow intrinsic"};
                Range rr = width_range(w);
                if(u) rr = {0, ((i128)1 << w) - 1};
                bool ov = !decideLE(st, lin_add(r, lin_const(-rr.hi))) || !decideLE(st, lin_add(lin_const(rr.lo), r, -1));
                Val v = ov ? vInt(wrapTo(st, r, w)) : vInt(u ? wrapTo(st, r, w) : r);
                res({V_AGG, internAgg({v, vCond(ov ? CT : CF)})});
                return done();
            }
        case Intrinsic::usub_sat:
            {
                Lin a = unsignedOf(st, larg(0), n), b = unsignedOf(st, larg(1), n);
                if(decideLE(st, lin_add(a, b, -1))) res(vConst(0));
                else res(vInt(wrapTo(st, lin_add(a, b, -1), n)));
                return done();
            }
        case Intrinsic::ctlz:
            {
                Lin a = unsignedOf(st, larg(0), n);
                int m = msbFork(st, a);
                res(vConst((i128)n - 1 - m));
                return done();
            }
        case Intrinsic::ctpop: case Intrinsic::cttz:
            {
                Lin a = larg(0);
                if(a.isConst())
                {
                    i128 c = 0;
                    if(id == Intrinsic::ctpop) { for(unsigned i = 0; i < n; ++i) c += (a.c >> i) & 1; }
                    else { while(c < (i128)n && !((a.c >> (int)c) & 1)) ++c; }
                    res(vConst(c));
                }
                else res(vInt(lin_sym(newSym({S_OP, a, Lin(), 0, id == Intrinsic::ctpop ? OP_CTPOP : OP_CTTZ, n}, {0, (i128)n}))));
                return done();
            }
        case Intrinsic::fshl: case Intrinsic::fshr:
            {
                Lin a = unsignedOf(st, larg(0), n, false), b = unsignedOf(st, larg(1), n, false), k = larg(2);
                k = andConst(st, k, n - 1, n);
                if(!k.isConst())
                {
                    Range r = bestRange(st, k);
                    ForkEx f;
                    for(i128 v = r.lo; v <= r.hi; ++v) f.alts.push_back({{lin_add(k, lin_const(-v)), C_EQ}});
                    throw f;
                }
                int s = (int)k.c;
                if(s == 0) { res(id == Intrinsic::fshl ? vInt(larg(0)) : vInt(larg(1))); return done(); }
                int l = id == Intrinsic::fshl ? s : (int)n - s;
                // (a << l) | (b >> (n-l))
                Lin hi = lin_scale(lin_add(a, lin_scale(mkFDIV(st, a, (i128)1 << (n - l)), (i128)1 << (n - l)), -1), (i128)1 << l);
                Lin lo = mkFDIV(st, b, (i128)1 << (n - l));
                res(vInt(wrapTo(st, lin_add(hi, lo), n)));
                return done();
            }
        case Intrinsic::fabs:
            {
                Val a = arg(0);
                FpV x = fps[a.id];
                if(!x.top && !decideNonNeg(st, lins[x.m])) a = {V_FP, internFp({internLin(lin_scale(lins[x.m], -1)), x.e, false})};
                res(a);
                return done();
            }
        case Intrinsic::floor: case Intrinsic::trunc: case Intrinsic::ceil: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven:
            {
                Val a = arg(0);
                FpV x = fps[a.id];
                if(x.top || x.e >= 0) { res(a); return done(); }
                if(x.e < -100) { res(fpTop()); return done(); }
                i128 c = (i128)1 << -x.e;
                Lin m = lins[x.m], q;
                if(id == Intrinsic::floor) q = mkFDIV(st, m, c);
                else if(id == Intrinsic::ceil) q = lin_scale(mkFDIV(st, lin_scale(m, -1), c), -1);
                else if(id == Intrinsic::trunc) q = truncDivConst(st, m, c);
                else if(id == Intrinsic::round)
                    q = decideNonNeg(st, m) ? mkFDIV(st, lin_add(m, lin_const(c / 2)), c) : lin_scale(mkFDIV(st, lin_add(lin_const(c / 2), m, -1), c), -1);
                else q = roundEven(st, m, c); // the default rounding mode
                res(mkFp(st, q, 0, fpPrec(cb->getType())));
                return done();
            }
        case Intrinsic::fmuladd: case Intrinsic::fma:
            res(fpBin(st, Instruction::FAdd, fpBin(st, Instruction::FMul, arg(0), arg(1), cb->getType()), arg(2), cb->getType()));
            return done();
        case Intrinsic::ldexp:
            {
                Val a = arg(0);
                FpV x = fps[a.id];
                Lin k = larg(1);
                if(x.top || !k.isConst()) res(fpTop());
                else res(mkFp(st, lins[x.m], x.e + (int)k.c, fpPrec(cb->getType())));
                return done();
            }
        case Intrinsic::bswap:
            {
                Lin a = unsignedOf(st, larg(0), n, false), r;
                unsigned nb = n / 8;
                for(unsigned i = 0; i < nb; ++i)
                {
                    Lin b = lin_add(mkFDIV(st, a, (i128)1 << (8 * i)), lin_scale(mkFDIV(st, a, (i128)1 << (8 * i + 8)), 256), -1);
                    r = lin_add(r, lin_scale(b, (i128)1 << (8 * (nb - 1 - i))));
                }
                res(vInt(wrapTo(st, r, n)));
                return done();
            }
        case Intrinsic::eh_typeid_for: res(vConst(typeidOf(cb->getArgOperand(0)->stripPointerCasts()->getName().str()))); return done();
        case Intrinsic::x86_sse3_ldu_dq: // as two 64-bit lanes when it is only re-cast (see castVal)
            {
                Type* t = cb->getType();
                bool casts = true;
                for(User* u : cb->users()) casts = casts && isa<BitCastInst>(u);
                if(casts) t = FixedVectorType::get(Type::getInt64Ty(cb->getContext()), 2);
                res(doLoad(st, arg(0), t));
                return done();
            }
        case Intrinsic::x86_avx2_psrli_q: case Intrinsic::x86_avx2_pslli_q: case Intrinsic::x86_sse2_psrli_q: case Intrinsic::x86_sse2_pslli_q:
            {
                i128 k = carg(1);
                Val a = arg(0);
                bool left = id == Intrinsic::x86_avx2_pslli_q || id == Intrinsic::x86_sse2_pslli_q;
                unsigned ne = cast<FixedVectorType>(cb->getType())->getNumElements();
                auto x = aggOf(a, ne);
                std::vector<Val> r;
                for(auto& e : x)
                {
                    if(e.k == V_UNDEF) { r.push_back({}); continue; }
                    if(k > 63) { r.push_back(vConst(0)); continue; }
                    r.push_back(intBinL(st, left ? Instruction::Shl : Instruction::LShr, asLin(st, e), lin_const(k), 64, false));
                }
                res({V_AGG, internAgg(r)});
                return done();
            }
        default: throw Unsupported{"intrinsic " + callee->getName().str()};
        }
    }
    StringRef nm = callee->getName();
    if(nm.starts_with("__sa_"))
    {
        if(nm == "__sa_in")
        {
            i128 lo = carg(0), hi = carg(1);
            int cells = (int)carg(2), mode = (int)carg(3);
            // inputs are identified by their order on the path; obligations declare them first
            size_t idx = 0;
            for(auto& n : st.pathNotes) if(n == "in") ++idx;
            st.pathNotes.push_back("in");
            Range r{lo, hi};
            if(idx < R->cell.size() && !R->cell[idx].empty()) r = isect(r, R->cell[idx]);
            if(r.empty()) throw Infeasible();
            if(idx >= R->cell.size() && !r.single()) gImprecise = true; // not a point, whatever the cell says
            int s = newSym({S_INPUT, Lin(), Lin(), (i128)idx, 0, 64}, r, (int)idx);
            syms[s].init = r;
            if(idx >= R->inputs.size()) R->inputs.resize(idx + 1);
            R->inputs[idx] = {{lo, hi}, cells, mode, s};
            symRange(st, s);
            st.rng[s] = r;
            res(vInt(lin_sym(s)));
            return done();
        }
        if(nm == "__sa_fail") throw FailEx{"assertion failed: " + cstr(st, arg(0)) + (cb->arg_size() > 1 ? " [line " + to_s(carg(1)) + "]" : "")};
        if(nm == "__sa_stop") throw Infeasible();
        if(nm == "__sa_count") { R->asserts++; return done(); }
        if(nm == "__sa_near") { nearCheck(st, cb); return done(); }
        if(nm == "__sa_config")
        {
            int k = (int)carg(0), v = (int)carg(1);
            switch(k)
            {
            case CFG_MAXDISJ: gcfg.maxDisj = v; break;
            case CFG_FORMS: gcfg.forms = v; break;
            case CFG_EXPAND: gcfg.expand = v; break;
            case CFG_FORKZEXT: gcfg.forkzext = v; break;
            case CFG_STEPS: gcfg.steps = v; break;
            case CFG_OVERFLOW: gcfg.overflow = v; break;
            case CFG_BITS: gcfg.bits = v; gcfg.forkzext = !v; break;
            case CFG_SLOWOK: gcfg.slowok = v; break;
            case CFG_NOBISECT: gcfg.nobisect = v; break;
            }
            return done();
        }
        if(nm == "__sa_expect_throw")
        {
            st.expectThrow = asCond(st, arg(0));
            st.expectType = cstr(st, arg(1));
            return done();
        }
        if(nm == "__sa_fresh")
        {
            // unconstrained value in [lo,hi] (not split); distinct per call site and path position
            bool was = gImprecise;
            res(vInt(freshLin({carg(0), carg(1)})));
            gImprecise = was;
            return done();
        }
        if(nm == "__sa_show")
        {
            if(verbose)
            {
                Lin l = larg(1);
                Range r = bestRange(st, l);
                fprintf(stderr, "show %s: %s in [%s, %s]\n", cstr(st, arg(0)).c_str(), linStr(st, l).c_str(), to_s(r.lo).c_str(), to_s(r.hi).c_str());
            }
            return done();
        }
        if(nm == "__sa_alloc")
        {
            int o = newObj(st, (int64_t)carg(0), "buffer");
            res(mkPtr(o, lin_const(0)));
            return done();
        }
        if(nm == "__sa_kill")
        {
            Val p = arg(0);
            wobj(st, ptrs[p.id].obj).dead = true;
            return done();
        }
        throw Unsupported{"primitive " + nm.str()};
    }
    // models provided by the harness for external functions
    if(callee->isDeclaration())
    {
        if(Function* m = M->getFunction(("sa_model_" + nm).str()))
        {
            std::vector<Val> a;
            for(unsigned i = 0; i < cb->arg_size(); ++i) a.push_back(arg(i));
            pushFrame(st, m, a, cb);
            return;
        }
    }
    else
    {
        if(nm == "__clang_call_terminate")
        {
            std::string t = "exception";
            for(auto& n : st.pathNotes) if(n.rfind("exc:", 0) == 0) t = n.substr(4);
            throw FailEx{"exception " + t + " escapes a noexcept function (std::terminate)"};
        }
        std::vector<Val> a;
        for(unsigned i = 0; i < cb->arg_size(); ++i) a.push_back(arg(i));
        pushFrame(st, callee, a, cb);
        return;
    }
    if(nm == "__cxa_allocate_exception")
    {
        int o = newObj(st, (int64_t)carg(0), "exception");
        res(mkPtr(o, lin_const(0)));
        return done();
    }
    if(nm == "__cxa_throw")
    {
        std::string t = "?";
        if(auto* g = dyn_cast<GlobalVariable>(cb->getArgOperand(1)->stripPointerCasts())) t = g->getName().str();
        doThrow(st, t, cb);
        return;
    }
    if(nm == "__cxa_free_exception" || nm == "__cxa_begin_catch" || nm == "__cxa_end_catch" || nm == "__cxa_guard_abort" || nm == "__cxa_atexit")
    {
        if(!cb->getType()->isVoidTy()) res(cb->getType()->isPointerTy() ? mkPtr(-1, lin_const(0)) : vConst(0));
        return done();
    }
    if(nm == "__cxa_guard_release")
    {
        PtrV g = ptrs[arg(0).id];
        Type* b = Type::getInt8Ty(cb->getContext());
        storeAt(st, g.obj, 0, 1, vConst(1), b);
        return done();
    }
    if(nm == "__cxa_guard_acquire") { res(vConst(1)); return done(); }
    if(nm.contains("invalid_argumentC") || nm.contains("invalid_argumentD") || nm.contains("out_of_rangeC") || nm.contains("out_of_rangeD") || nm.contains("_errorC1E") || nm.contains("_errorC2E") || nm.contains("_errorD1E") || nm.contains("_errorD2E") || nm.contains("_errorD0E") || nm.contains("_errorC1EPKc")) return done();
    if(nm == "_ZSt9terminatev" || nm == "abort" || nm == "exit" || nm == "_Exit" || nm == "__assert_fail" || nm == "_ZSt21__glibcxx_assert_failPKciS0_S0_")
        throw FailEx{"call to " + nm.str()};
    if(nm.starts_with("_ZSt") && nm.contains("__throw_"))
    {
        doThrow(st, nm.str(), cb);
        return;
    }
    if(nm == "_Znwm" || nm == "_Znam" || nm == "_Znwj" || nm == "_Znaj" || nm == "malloc")
    {
        Lin n2 = larg(0);
        if(!n2.isConst())
        {
            Range r = bestRange(st, n2);
            if(!r.single()) throw Unsupported{"allocation size"};
            n2 = lin_const(r.lo);
        }
        int o = newObj(st, (int64_t)n2.c, "heap");
        res(mkPtr(o, lin_const(0)));
        return done();
    }
    if(nm == "_ZdlPv" || nm == "_ZdlPvm" || nm == "_ZdlPvj" || nm == "_ZdaPv" || nm == "free")
    {
        Val p = arg(0);
        if(p.k == V_PTR && ptrs[p.id].obj >= 0) wobj(st, ptrs[p.id].obj).dead = true;
        return done();
    }
    if(nm == "isdigit" || nm == "isspace" || nm == "isupper" || nm == "islower")
    {
        Lin c = larg(0);
        auto in = [&](int a, int b) { return mkAND(mkLE(st, lin_add(c, lin_const(-b))), mkLE(st, lin_add(lin_const(a), c, -1))); };
        int k = nm == "isdigit" ? in('0', '9') : nm == "isspace" ? mkOR(in(9, 13), in(32, 32)) : nm == "isupper" ? in('A', 'Z') : in('a', 'z');
        res(vCond(k));
        return done();
    }
    if(nm == "strlen")
    {
        Val p = arg(0);
        PtrV v = ptrs[p.id];
        int64_t o = (int64_t)lins[v.off].c;
        int64_t i = 0;
        while(true)
        {
            Val b = loadAt(st, v.obj, o + i, Type::getInt8Ty(M->getContext()));
            if(decideEQ(st, asLin(st, b))) break;
            ++i;
        }
        res(vConst(i));
        return done();
    }
    if(nm == "ldexp" || nm == "ldexpf" || nm == "scalbn")
    {
        Val a = arg(0);
        FpV x = fps[a.id];
        Lin k = larg(1);
        if(x.top || !k.isConst()) res(fpTop());
        else res(mkFp(st, lins[x.m], x.e + (int)k.c, fpPrec(cb->getType())));
        return done();
    }
    {
        // the C library's functions at a constant argument (correctly rounded, as compilers fold them); unknown otherwise
        static const std::map<std::string, long double (*)(long double)> libm = {{"sin", sinl}, {"cos", cosl}, {"tan", tanl}, {"atan", atanl}, {"asin", asinl}, {"acos", acosl}, {"exp", expl}, {"log", logl}, {"log2", log2l}, {"log10", log10l}, {"cbrt", cbrtl}};
        auto it = libm.find(nm.str());
        if(it != libm.end() && cb->getType()->isDoubleTy())
        {
            FpV x = fps[arg(0).id];
            if(x.top || !lins[x.m].isConst()) { res(fpTop()); return done(); }
            double d = (double)it->second(ldexpl((long double)lins[x.m].c, x.e));
            res(fpConst(APFloat(d)));
            return done();
        }
    }
    throw Unsupported{"external function " + nm.str()};
}
