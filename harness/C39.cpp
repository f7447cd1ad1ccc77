// processor feature detection
// flags: -mavx2
#include "types.h"
#include <iostream>
#include <cpuid.h>
// the processor: two leaves of cpuid, anything else is answered with what an out of range leaf may hold
struct { unsigned a1, b1, c1, d1, a7, b7, c7, d7, max; int calls = 0; } cpu;
inline void sa_cpuid(unsigned leaf, unsigned sub, unsigned& a, unsigned& b, unsigned& c, unsigned& d)
{
    ++cpu.calls;
    if(leaf == 0) { a = cpu.max; b = c = d = 0x756e6547; }
    else if(leaf == 1) { a = cpu.a1; b = cpu.b1; c = cpu.c1; d = cpu.d1; }
    else if(leaf == 7 && sub == 0) { a = cpu.a7; b = cpu.b7; c = cpu.c7; d = cpu.d7; }
    else a = b = c = d = 0xFFFFFFFF;
}
inline int sa_get_cpuid(unsigned leaf, unsigned sub, unsigned* a, unsigned* b, unsigned* c, unsigned* d)
{
    if(leaf > cpu.max) return 0;
    sa_cpuid(leaf, sub, *a, *b, *c, *d);
    return 1;
}
#undef __cpuid
#undef __cpuid_count
// without a subleaf whatever the register held is asked for
#define __cpuid(l, a, b, c, d) sa_cpuid(l, 0xFFFFFFFFu, a, b, c, d)
#define __cpuid_count(l, s, a, b, c, d) sa_cpuid(l, s, a, b, c, d)
#define __get_cpuid(l, a, b, c, d) sa_get_cpuid(l, 0xFFFFFFFFu, a, b, c, d)
#define __get_cpuid_count(l, s, a, b, c, d) sa_get_cpuid(l, s, a, b, c, d)
#define __get_cpuid_max(e, s) cpu.max
#include <eirin/ext/simd_math.hpp>
using P = simd::platform_support;
inline unsigned word() { return any_in<unsigned>(0, 0xFFFFFFFFu); }
inline void machine()
{
    unsigned o = any_in<int>(0, 1, 2) ? 0xFFFFFFFFu : 0u; // what the other registers hold
    cpu = {o, o, word(), word(), o, word(), o, o, 13};
}
inline bool ask(int i)
{
    switch(i)
    {
    case 0: return P::supports_sse2();
    case 1: return P::supports_sse4_2();
    case 2: return P::supports_avx();
    case 3: return P::supports_avx2();
    case 4: return P::supports_avx512_f();
    default: return P::supports_avx512_dq();
    }
}
inline bool truth(int i)
{
    switch(i)
    {
    case 0: return (cpu.d1 & 1u << 26) != 0;
    case 1: return (cpu.c1 & 1u << 20) != 0;
    case 2: return (cpu.c1 & 1u << 28) != 0;
    case 3: return (cpu.b7 & 1u << 5) != 0;
    case 4: return (cpu.b7 & 1u << 16) != 0;
    default: return (cpu.b7 & 1u << 17) != 0;
    }
}
// whichever is asked first
OB(first)
{
    machine();
    int i = any_in<int>(0, 5, 6);
    CHECK(ask(i) == truth(i));
}
// in any order, and asking does not change the answers
OB(pairs)
{
    machine();
    int i = any_in<int>(0, 5, 6), k = any_in<int>(0, 5, 6);
    CHECK(ask(i) == truth(i));
    CHECK(ask(k) == truth(k));
    CHECK(ask(i) == truth(i));
}
OB(all)
{
    machine();
    for(int i = 5; i >= 0; --i) CHECK(ask(i) == truth(i));
    for(int i = 0; i < 6; ++i) CHECK(ask(i) == truth(i));
}
