// IR normalisations that are exact equivalences (128-bit values split by the calling convention)
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/PatternMatch.h"
#include "llvm/Transforms/Utils/Local.h"
static void normalise(Module& m)
{
    using namespace llvm::PatternMatch;
    for(auto& F : m)
    {
        if(F.isDeclaration()) continue;
        bool ch = true;
        while(ch)
        {
            ch = false;
            std::vector<WeakTrackingVH> dead;
            for(auto& I : instructions(F))
            {
                if(!I.getType()->isIntegerTy(128)) continue;
                Value *lo, *hi;
                // (zext hi << 64) | zext lo  with both halves of the same value
                if(match(&I, m_c_Or(m_Shl(m_ZExtOrSExt(m_Value(hi)), m_SpecificInt(64)), m_ZExt(m_Value(lo)))) && hi->getType()->isIntegerTy(64) && lo->getType()->isIntegerTy(64))
                {
                    Value *x, *y;
                    if(match(lo, m_Trunc(m_Value(x))) && match(hi, m_Trunc(m_Shr(m_Value(y), m_SpecificInt(64)))) && x == y && x->getType()->isIntegerTy(128))
                    {
                        I.replaceAllUsesWith(x);
                        dead.push_back(&I);
                        ch = true;
                        continue;
                    }
                    // lo simplified to the 64-bit source of an extension
                    if(match(hi, m_Trunc(m_Shr(m_Value(y), m_SpecificInt(64)))) && (match(y, m_SExt(m_Specific(lo))) || match(y, m_ZExt(m_Specific(lo)))))
                    {
                        I.replaceAllUsesWith(y);
                        dead.push_back(&I);
                        ch = true;
                        continue;
                    }
                    if(match(hi, m_AShr(m_Specific(lo), m_SpecificInt(63))))
                    {
                        IRBuilder<> B(&I);
                        I.replaceAllUsesWith(B.CreateSExt(lo, I.getType()));
                        dead.push_back(&I);
                        ch = true;
                        break;
                    }
                    ConstantInt *cl, *chh;
                    if((cl = dyn_cast<ConstantInt>(lo)) && (chh = dyn_cast<ConstantInt>(hi)))
                    {
                        APInt v = chh->getValue().zext(128).shl(64) | cl->getValue().zext(128);
                        I.replaceAllUsesWith(ConstantInt::get(I.getType(), v));
                        dead.push_back(&I);
                        ch = true;
                        continue;
                    }
                }
                Value* h;
                if(I.getOpcode() == Instruction::Shl && match(&I, m_Shl(m_ZExt(m_Value(h)), m_SpecificInt(64))) && h->getType()->isIntegerTy(64))
                {
                    IRBuilder<> B(&I);
                    I.setOperand(0, B.CreateSExt(h, I.getType()));
                    cast<BinaryOperator>(I).setHasNoUnsignedWrap(false);
                    ch = true;
                    break;
                }
                if(I.getOpcode() == Instruction::LShr && match(&I, m_LShr(m_Value(h), m_SpecificInt(64))) && !I.use_empty())
                {
                    bool all = true;
                    for(auto* u : I.users()) if(!isa<TruncInst>(u) || u->getType()->getIntegerBitWidth() > 64) all = false;
                    if(all)
                    {
                        IRBuilder<> B(&I);
                        Value* a = B.CreateAShr(h, 64);
                        I.replaceAllUsesWith(a);
                        dead.push_back(&I);
                        ch = true;
                        break;
                    }
                }
            }
            for(auto& d : dead)
                if(d) RecursivelyDeleteTriviallyDeadInstructions(cast<Instruction>(d));
        }
        std::vector<WeakTrackingVH> all;
        for(auto& I : instructions(F)) if(isInstructionTriviallyDead(&I)) all.push_back(&I);
        for(auto& d : all) if(d) RecursivelyDeleteTriviallyDeadInstructions(cast<Instruction>(d));
    }
}
