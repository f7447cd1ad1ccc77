// effects BITCODE OUT.json: interprocedural effect analysis.
// Roots are the functions eff_* (no floating point allowed) and efp_* (floating point allowed).
// For each root every function reachable through direct calls is inspected, instruction by instruction:
//   - an access to (or escape of the address of) a mutable or thread-local global: state beyond the arguments
//     (a function-local static whose guarded initialiser depends on no argument and that is written nowhere else is a constant)
//   - volatile or atomic access other than to locals, fences, non-empty inline assembly, target intrinsics
//   - floating point arithmetic, comparison or conversion that depends on the input
//   - calls of external functions: denied ones (environment, clock, locale, random, I/O, math library) are violations,
//     known harmless ones are accepted, anything else leaves the root undecided
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Analysis/ValueTracking.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <fstream>
#include <iostream>
using namespace llvm;
static std::string locStr(const Instruction& I)
{
    std::string s;
    for(const DILocation* l = I.getDebugLoc().get(); l; l = l->getInlinedAt())
    {
        std::string f = l->getFilename().str();
        size_t p = f.find("/include/eirin/");
        if(p != std::string::npos) f = f.substr(p + 1);
        if(!s.empty()) s += " <- ";
        s += f + ":" + std::to_string(l->getLine()) + " (" + l->getScope()->getSubprogram()->getName().str() + ")";
        if(s.size() > 600) break;
    }
    return s.empty() ? "in " + demangle(I.getFunction()->getName().str()) : s;
}
static std::string jesc(const std::string& s)
{
    std::string o;
    for(char c : s)
        if(c == '"' || c == '\\') { o += '\\'; o += c; }
        else if((unsigned char)c < 32) o += ' ';
        else o += c;
    return o;
}
struct Fail { std::string msg, loc; };
static bool starts(StringRef s, const char* p) { return s.starts_with(p); }
// 1 harmless, -1 denied, 0 unknown
static int classify(StringRef n, std::string& why)
{
    static const std::set<std::string> ok = {
        "__divti3", "__modti3", "__udivti3", "__umodti3", "__muloti4", "__multi3", "__ashlti3", "__ashrti3", "__lshrti3", "__floattidf", "__floattisf", "__floatuntidf", "__floatuntisf",
        "__fixdfti", "__fixsfti", "__fixunsdfti", "__fixunssfti", "__floattixf", "__fixxfti",
        "__cxa_allocate_exception", "__cxa_free_exception", "__cxa_throw", "__cxa_begin_catch", "__cxa_end_catch", "__cxa_rethrow", "__gxx_personality_v0", "__clang_call_terminate", "_Unwind_Resume",
        "_ZSt9terminatev", "abort", "memcpy", "memmove", "memset", "memcmp", "memchr", "strlen", "bcmp", "abs", "labs", "llabs",
        "_Znwm", "_Znam", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "malloc", "free",
        "isdigit", "isspace_l", "__sa_count", "__sa_fail", "__assert_fail", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "__cxa_call_unexpected"};
    static const std::set<std::string> bad = {
        "rand", "srand", "random", "srandom", "rand_r", "drand48", "lrand48", "arc4random", "getrandom", "time", "clock", "gettimeofday", "clock_gettime", "timespec_get", "getenv", "secure_getenv", "setenv", "putenv",
        "setlocale", "localeconv", "newlocale", "uselocale", "strtod", "strtof", "strtold", "atof", "sscanf", "scanf", "printf", "fprintf", "puts", "putchar", "fputs", "fputc", "putc", "fwrite", "write", "fflush", "fopen", "open", "read", "fread",
        "vprintf", "vfprintf", "snprintf", "sprintf", "vsnprintf", "fesetround", "fegetround", "fesetenv", "fegetenv", "feclearexcept", "fetestexcept", "__errno_location", "exit", "_exit", "quick_exit", "atexit", "getpid", "sysconf", "pthread_self",
        "signal", "raise", "syscall", "getauxval", "sched_getcpu", "strtol", "strtoll", "strtoul", "strtoull", "atoi", "atol", "setvbuf", "tolower", "toupper", "isalpha", "isalnum", "isspace", "isupper", "islower", "isprint", "iswdigit", "towlower"};
    static const std::set<std::string> libm = {
        "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sinh", "cosh", "tanh", "exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "pow", "sqrt", "cbrt", "hypot", "floor", "ceil", "round", "lround", "llround", "rint", "lrint", "nearbyint", "trunc", "fmod", "modf",
        "frexp", "ldexp", "scalbn", "fabs", "fma", "remainder", "fmin", "fmax", "ilogb", "logb", "nextafter", "copysign"};
    std::string s = n.str();
    if(ok.count(s)) return 1;
    if(bad.count(s)) { why = "calls " + s + ", whose result or effect lies outside the arguments"; return -1; }
    std::string b = s;
    if(!b.empty() && (b.back() == 'f' || b.back() == 'l') && libm.count(b.substr(0, b.size() - 1))) b.pop_back();
    if(libm.count(b)) { why = "calls the math library's " + s + ", whose result depends on the platform"; return -1; }
    if(starts(n, "_ZNSt6chrono") || starts(n, "_ZNSt13random_device") || starts(n, "_ZNSt6locale") || starts(n, "_ZNKSt6locale") || starts(n, "_ZStlsISt") || starts(n, "_ZNSolsE") || starts(n, "_ZNSo") || starts(n, "_ZStls"))
    {
        why = "calls " + demangle(s) + ", which depends on or changes state beyond the arguments";
        return -1;
    }
    // exception objects and the string class work on the objects passed only
    if(starts(n, "_ZNSt7__cxx1112basic_string") || starts(n, "_ZNKSt7__cxx1112basic_string") || starts(n, "_ZSt20__throw") || starts(n, "_ZSt24__throw") || starts(n, "_ZSt19__throw") || starts(n, "_ZSt17__throw") || starts(n, "_ZSt16__throw") || starts(n, "_ZSt25__throw") || starts(n, "_ZSt28__throw"))
        return 1;
    for(const char* e : {"St9exception", "St11logic_error", "St12domain_error", "St16invalid_argument", "St12out_of_range", "St13runtime_error", "St11range_error", "St14overflow_error", "St12length_error", "St9bad_alloc", "St12format_error", "St20bad_array_new_length"})
        if(s.rfind(std::string("_ZN") + e, 0) == 0 || s.rfind(std::string("_ZNK") + e, 0) == 0) return 1;
    return 0;
}
// does v (transitively) depend on an argument of its function?
static bool dependsOnArg(const Value* v, std::set<const Value*>& seen, int depth = 0)
{
    if(!seen.insert(v).second) return false;
    if(isa<Argument>(v)) return true;
    if(auto* a = dyn_cast<AllocaInst>(v))
    {
        // whatever is written into the local
        std::vector<const Value*> w{a};
        std::set<const Value*> ps{a};
        while(!w.empty())
        {
            const Value* p = w.back(); w.pop_back();
            for(const User* u : p->users())
            {
                if(auto* s = dyn_cast<StoreInst>(u)) { if(s->getPointerOperand() == p && dependsOnArg(s->getValueOperand(), seen, depth + 1)) return true; }
                else if(isa<GetElementPtrInst>(u) || isa<BitCastInst>(u) || isa<PHINode>(u) || isa<SelectInst>(u)) { if(ps.insert(u).second) w.push_back(u); }
                else if(auto* c = dyn_cast<CallBase>(u))
                {
                    if(isa<DbgInfoIntrinsic>(c) || c->isLifetimeStartOrEnd()) continue;
                    for(const Use& o : c->args()) if(o.get() != p && dependsOnArg(o.get(), seen, depth + 1)) return true;
                }
            }
        }
        return false;
    }
    if(isa<Constant>(v)) return false;
    if(auto* I = dyn_cast<Instruction>(v))
        for(const Use& o : I->operands()) if(dependsOnArg(o.get(), seen, depth + 1)) return true;
    return false;
}
static bool isGuard(const GlobalVariable* g) { return g->getName().starts_with("_ZGV"); }
// a function-local static that is written only under its initialisation guard with values independent of the arguments
static bool constantStatic(const GlobalVariable* g, std::string& why)
{
    if(!g->getName().contains("_ZZ")) return false; // local statics only
    std::vector<const Value*> w{g};
    std::set<const Value*> ps{g};
    while(!w.empty())
    {
        const Value* p = w.back(); w.pop_back();
        for(const User* u : p->users())
        {
            if(isa<ConstantExpr>(u) || isa<GetElementPtrInst>(u) || isa<BitCastInst>(u) || isa<PHINode>(u) || isa<SelectInst>(u)) { if(ps.insert(u).second) w.push_back(u); continue; }
            auto* I = dyn_cast<Instruction>(u);
            if(!I) continue;
            bool writes = false;
            std::vector<const Value*> vals;
            if(auto* s = dyn_cast<StoreInst>(I))
            {
                if(s->getPointerOperand() == p) { writes = true; vals.push_back(s->getValueOperand()); }
                else { why = "its address escapes at " + locStr(*I); return false; }
            }
            else if(auto* c = dyn_cast<CallBase>(I))
            {
                if(isa<DbgInfoIntrinsic>(c) || c->isLifetimeStartOrEnd()) continue;
                if(auto* m = dyn_cast<MemTransferInst>(c)) { if(m->getRawDest() == p) { writes = true; vals.push_back(m->getRawSource()); } }
                else { writes = !c->onlyReadsMemory(); for(const Use& o : c->args()) if(o.get() != p) vals.push_back(o.get()); }
            }
            else if(isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) { why = "modified atomically at " + locStr(*I); return false; }
            if(!writes) continue;
            // under a guard?
            bool guarded = false;
            const Function* F = I->getFunction();
            DominatorTree DT(const_cast<Function&>(*F));
            for(auto& B : *F)
                for(auto& J : B)
                    if(auto* c = dyn_cast<CallBase>(&J))
                        if(c->getCalledFunction() && c->getCalledFunction()->getName() == "__cxa_guard_acquire" && DT.dominates(&J, I)) guarded = true;
            if(!guarded) { why = "written at " + locStr(*I); return false; }
            for(const Value* v : vals)
            {
                std::set<const Value*> seen;
                if(dependsOnArg(v, seen)) { why = "initialised from the arguments of whichever call comes first, at " + locStr(*I); return false; }
            }
        }
    }
    return true;
}
static const Value* strip(const Value* v)
{
    for(int i = 0; i < 100; i++)
    {
        const Value* u = getUnderlyingObject(v, 0);
        if(u == v) return u;
        v = u;
    }
    return v;
}
static bool isLocal(const Value* p) { return isa<AllocaInst>(strip(p)); }
static bool hasFP(Type* t) { return t->getScalarType()->isFloatingPointTy(); }
int main(int argc, char** argv)
{
    LLVMContext C;
    SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, C);
    if(!M) { std::cerr << "cannot read " << argv[1] << "\n"; return 4; }
    std::ofstream out(argv[2]);
    out << "{\"obligations\":[";
    bool first = true;
    std::set<std::string> files;
    std::map<std::string, std::set<unsigned>> lines;
    for(auto& R : *M)
    {
        if(R.isDeclaration() || !(R.getName().starts_with("eff_") || R.getName().starts_with("efp_"))) continue;
        bool fpok = R.getName().starts_with("efp_");
        std::vector<Fail> fails;
        std::vector<std::string> unknown;
        std::set<const Function*> done;
        std::vector<const Function*> work{&R};
        size_t insts = 0, accesses = 0, calls = 0, globals = 0;
        auto fail = [&](const std::string& m, const Instruction& I) { if(fails.size() < 8) fails.push_back({m, locStr(I)}); };
        auto useGlobal = [&](const GlobalVariable* g, const Instruction& I, const char* how)
        {
            globals++;
            if(g->isConstant() || isGuard(g)) return;
            if(g->getName().starts_with("_ZTV") || g->getName().starts_with("_ZTI") || g->getName().starts_with("_ZTS")) return;
            std::string why;
            if(!g->isThreadLocal() && constantStatic(g, why)) return;
            fail(std::string(how) + (g->isThreadLocal() ? " thread-local " : " mutable ") + "state '" + demangle(g->getName().str()) + "'" + (why.empty() ? "" : " (" + why + ")"), I);
        };
        while(!work.empty())
        {
            const Function* F = work.back(); work.pop_back();
            if(!done.insert(F).second) continue;
            for(auto& B : *F)
                for(auto& I : B)
                {
                    if(isa<DbgInfoIntrinsic>(I)) continue;
                    insts++;
                    for(const DILocation* l = I.getDebugLoc().get(); l; l = l->getInlinedAt())
                    {
                        std::string f = l->getFilename().str();
                        size_t p = f.find("/include/eirin/");
                        if(p != std::string::npos) lines[f.substr(p + 1)].insert(l->getLine());
                    }
                    // globals among the operands (through constant expressions)
                    for(const Use& o : I.operands())
                    {
                        const Value* v = o.get();
                        if(!v->getType()->isPointerTy() || !isa<Constant>(v)) continue;
                        if(isa<LandingPadInst>(I)) continue;
                        const Value* u = strip(v);
                        if(auto* g = dyn_cast<GlobalVariable>(u))
                            useGlobal(g, I, isa<LoadInst>(I) ? "reads" : isa<StoreInst>(I) ? "writes" : "uses");
                    }
                    if(auto* l = dyn_cast<LoadInst>(&I))
                    {
                        accesses++;
                        const Value* u = strip(l->getPointerOperand());
                        bool guard = isa<GlobalVariable>(u) && isGuard(cast<GlobalVariable>(u));
                        if((l->isVolatile() || l->isAtomic()) && !guard && !isLocal(l->getPointerOperand())) fail("volatile or atomic read", I);
                    }
                    else if(auto* s = dyn_cast<StoreInst>(&I))
                    {
                        accesses++;
                        if((s->isVolatile() || s->isAtomic()) && !isLocal(s->getPointerOperand())) fail("volatile or atomic write", I);
                    }
                    else if(isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) { if(!isLocal(I.getOperand(0))) fail("atomic access", I); }
                    else if(auto* c = dyn_cast<CallBase>(&I))
                    {
                        calls++;
                        if(auto* a = dyn_cast<InlineAsm>(c->getCalledOperand()))
                        {
                            if(!a->getAsmString().empty()) fail("inline assembly", I);
                        }
                        else if(auto* f = c->getCalledFunction())
                        {
                            if(f->isIntrinsic())
                            {
                                if(f->getName().starts_with("llvm.x86") || f->getName().starts_with("llvm.read_register") || f->getName().starts_with("llvm.readcyclecounter") || f->getName().starts_with("llvm.get.rounding") || f->getName().starts_with("llvm.rint") || f->getName().starts_with("llvm.nearbyint") || f->getName().starts_with("llvm.lrint") || f->getName().starts_with("llvm.llrint")) fail("target or environment dependent intrinsic " + f->getName().str(), I);
                                if(!fpok && (hasFP(f->getReturnType()) || (f->arg_size() && hasFP(f->getArg(0)->getType())))) fail("floating point operation " + f->getName().str(), I);
                            }
                            else if(f->isDeclaration())
                            {
                                std::string why;
                                int k = classify(f->getName(), why);
                                if(k < 0) fail(why, I);
                                else if(k == 0 && unknown.size() < 8) unknown.push_back(demangle(f->getName().str()));
                                if(!fpok && (f->getName().starts_with("__float") || f->getName().starts_with("__fix"))) fail("floating point conversion", I);
                            }
                            else work.push_back(f);
                        }
                        else if(unknown.size() < 8) unknown.push_back("indirect call at " + locStr(I));
                    }
                    else if(!fpok && !isa<LoadInst>(I) && !isa<StoreInst>(I) && !isa<PHINode>(I) && !isa<ReturnInst>(I))
                    {
                        bool fp = false;
                        switch(I.getOpcode())
                        {
                            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: case Instruction::FNeg: case Instruction::FCmp:
                            case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPTrunc: case Instruction::FPExt: fp = true; break;
                        }
                        if(fp) fail(std::string("floating point computation (") + I.getOpcodeName() + ") on the input", I);
                    }
                }
        }
        if(!first) out << ",";
        first = false;
        out << "\n{\"name\":\"" << jesc(R.getName().str()) << "\",\"status\":\"" << (fails.size() ? "FAIL" : unknown.size() ? "UNDECIDED" : "PROVED") << "\",\"cells\":1,\"paths\":" << done.size() << ",\"asserts\":" << insts << ",\"steps\":" << insts
            << ",\"memory_accesses\":" << accesses << ",\"calls\":" << calls << ",\"global_uses\":" << globals;
        if(unknown.size()) { out << ",\"why\":\"unknown external: "; for(auto& u : unknown) out << jesc(u) << "; "; out << "\""; }
        out << ",\"fails\":[";
        for(size_t i = 0; i < fails.size(); i++) out << (i ? "," : "") << "{\"msg\":\"" << jesc(fails[i].msg) << "\",\"loc\":\"" << jesc(fails[i].loc) << "\"}";
        out << "]}";
    }
    out << "],\"lines\":{";
    first = true;
    for(auto& [f, ls] : lines)
    {
        out << (first ? "" : ",") << "\"" << f << "\":[";
        first = false;
        bool g = true;
        for(unsigned l : ls) { out << (g ? "" : ",") << l; g = false; }
        out << "]";
    }
    out << "}}\n";
    return 0;
}
