// logarithms
// absint: --overflow --max-cells 200000
// absint-thorough: --max-cells 2000000 --time 700
#include "types.h"
#ifdef THOROUGH
#define T32 0x1p-9
#else
#define T32 0x1p-8
#endif
OB(log2_f32) { __sa_config(MAXDISJ, 1); __sa_config(FORMS, 1); auto x = fx_in<fixed32>(1, INT32_MAX, 64, 1); near(R_LOG2, x, log2(x), T32, 0); }
OB(log2_f64) { __sa_config(MAXDISJ, 1); __sa_config(FORMS, 1); auto x = fx_in<fixed64>(1, INT64_MAX, 64, 1); near(R_LOG2, x, log2(x), 0x1p-4, 0); }
OB(log2_f20) { __sa_config(MAXDISJ, 1); __sa_config(FORMS, 1); auto x = fx_in<f20>(1, INT32_MAX, 64, 1); near(R_LOG2, x, log2(x), 0x1p-6, 0); }
OB(log2_f8) { __sa_config(FORMS, 1); auto x = fx_in<f8>(1, INT16_MAX, 4, 1); near(R_LOG2, x, log2(x), 0x1p-6, 0); }
OB(ln_f32) { __sa_config(MAXDISJ, 1); __sa_config(FORMS, 1); auto x = fx_in<fixed32>(1, INT32_MAX, 64, 1); near(R_LN, x, log(x), 0x1p-7, 0); }
OB(log10_f32) { __sa_config(MAXDISJ, 1); __sa_config(FORMS, 1); auto x = fx_in<fixed32>(1, INT32_MAX, 64, 1); near(R_LOG10, x, log10(x), 0x1p-8, 0); }
OB(ln_f8) { __sa_config(FORMS, 1); auto x = fx_in<f8>(1, INT16_MAX, 4, 1); near(R_LN, x, log(x), 0x1p-6, 0); }
OB(log10_f8) { __sa_config(FORMS, 1); auto x = fx_in<f8>(1, INT16_MAX, 4, 1); near(R_LOG10, x, log10(x), 0x1p-6, 0); }
// exact at powers of two
template <class F> void power()
{
    constexpr int f = F::precision, bits = sizeof(vt<F>) * 8;
    int k = any_in<int>(-f, bits - 2 - f, bits - 1);
    CHECK(raw(log2(mk<F>((i128)1 << (k + f)))) == (i128)k << f || (k < 0 && raw(log2(mk<F>((i128)1 << (k + f)))) == -((i128)(-k) << f)));
}
INST_SIGNED(power)
// one octave, finer
OB(octave_f32) { __sa_config(MAXDISJ, 1); __sa_config(FORMS, 1); auto x = fx_in<fixed32>(65536, 131072, 512, 0); near(R_LOG2, x, log2(x), 0x1p-12, 0); }
OB(octave_f64) { __sa_config(MAXDISJ, 1); __sa_config(FORMS, 1); auto x = fx_in<fixed64>(1LL << 32, 2LL << 32, 512, 0); near(R_LOG2, x, log2(x), 0x1p-10, 0); }
// narrow windows above the sixteenths of [1, 2)
template <class F> void window(double t, int fn, F (*fun)(F))
{
    __sa_config(MAXDISJ, 1);
    __sa_config(FORMS, 1);
    long long j = any_in<long long>(16, 31, 16), d = any_in<long long>(0, 4095);
    F x = mk<F>((j << (F::precision - 4)) + d);
    near(fn, x, fun(x), t, 0);
}
OB(window_log2_f64) { window<fixed64>(0x1p-17, R_LOG2, [](fixed64 x) { return log2(x); }); }
OB(window_ln_f64) { window<fixed64>(0x1p-17, R_LN, [](fixed64 x) { return log(x); }); }
OB(window_log10_f64) { window<fixed64>(0x1p-17, R_LOG10, [](fixed64 x) { return log10(x); }); }
// the same sixteenths in every octave, to nearly the full resolution
template <class F, int LO, int HI> void octaves(double t, int fn, F (*fun)(F))
{
    __sa_config(FORMS, 1);
    long long j = any_in<long long>(17, 31, 15), k = any_in<long long>(LO, HI, HI - LO + 1), d = any_in<long long>(0, 3);
    i128 m = (i128)j << (F::precision - 4);
    F x = mk<F>(k >= 0 ? (m << k) + d : m >> -k);
    near(fn, x, fun(x), t, 0);
}
OB(octaves_log2_f64) { octaves<fixed64, -24, 29>(0x1p-27, R_LOG2, [](fixed64 x) { return log2(x); }); }
OB(octaves_ln_f64) { octaves<fixed64, -24, 29>(0x1p-27, R_LN, [](fixed64 x) { return log(x); }); }
OB(octaves_log10_f64) { octaves<fixed64, -24, 29>(0x1p-27, R_LOG10, [](fixed64 x) { return log10(x); }); }
OB(octaves_log2_q16) { octaves<q16, -10, 45>(0x1p-11, R_LOG2, [](q16 x) { return log2(x); }); }
OB(octaves_ln_q16) { octaves<q16, -10, 45>(0x1p-11, R_LN, [](q16 x) { return log(x); }); }
OB(octaves_log10_q48) { octaves<q48, -30, 13>(0x1p-27, R_LOG10, [](q48 x) { return log10(x); }); }
OB(octaves_log2_f32) { octaves<fixed32, -10, 14>(0x1p-11, R_LOG2, [](fixed32 x) { return log2(x); }); }
OB(octaves_ln_f32) { octaves<fixed32, -10, 14>(0x1p-11, R_LN, [](fixed32 x) { return log(x); }); }
OB(octaves_log10_f32) { octaves<fixed32, -10, 14>(0x1p-11, R_LOG10, [](fixed32 x) { return log10(x); }); }
