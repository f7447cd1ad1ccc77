// sine, cosine, tangent
// absint: --overflow --max-cells 60000
// absint-thorough: --max-cells 800000
#include "types.h"
#define TRIG(s, F, K, ts, tc) \
    OB(sin_##s) { __sa_config(FORMS, 1); auto x = fx_in<F>(-7LL << K, 7LL << K, 64); near(R_SIN, x, sin(x), ts, 0); } \
    OB(cos_##s) { __sa_config(FORMS, 1); auto x = fx_in<F>(-7LL << K, 7LL << K, 64); near(R_COS, x, cos(x), tc, 0); }
TRIG(f32, fixed32, 16, 0x1p-13, 0x1p-13)
TRIG(f64, fixed64, 32, 0x1p-17, 0x1p-17)
TRIG(f20, f20, 20, 0x1p-16, 0x1p-16)
TRIG(f8, f8, 8, 0x1p-6, 0x1p-6)
TRIG(q16, q16, 16, 0x1p-13, 0x1p-13)
TRIG(q48, q48, 48, 0x1p-17, 0x1p-17)
// many periods away from zero
OB(sin_far_f32) { __sa_config(FORMS, 1); auto x = fx_in<fixed32>(-100LL << 16, 100LL << 16, 256); near(R_SIN, x, sin(x), 0x1p-11, 0); }
OB(cos_far_f32) { __sa_config(FORMS, 1); auto x = fx_in<fixed32>(-100LL << 16, 100LL << 16, 256); near(R_COS, x, cos(x), 0x1p-11, 0); }
OB(sin_far_f64) { __sa_config(FORMS, 1); auto x = fx_in<fixed64>(-100LL << 32, 100LL << 32, 256); near(R_SIN, x, sin(x), 0x1p-15, 0); }
OB(cos_far_f64) { __sa_config(FORMS, 1); auto x = fx_in<fixed64>(-100LL << 32, 100LL << 32, 256); near(R_COS, x, cos(x), 0x1p-15, 0); }
OB(tan_f32) { __sa_config(FORMS, 1); auto x = fx_in<fixed32>(-1LL << 16, 1LL << 16, 64); near(R_TAN, x, tan(x), 0x1p-11, 0); }
OB(tan_f64) { __sa_config(FORMS, 1); auto x = fx_in<fixed64>(-1LL << 32, 1LL << 32, 64); near(R_TAN, x, tan(x), 0x1p-13, 0); }
OB(tan_q16) { __sa_config(FORMS, 1); auto x = fx_in<q16>(-1LL << 16, 1LL << 16, 64); near(R_TAN, x, tan(x), 0x1p-11, 0); }
OB(tan_f20) { __sa_config(FORMS, 1); auto x = fx_in<f20>(-1LL << 20, 1LL << 20, 64); near(R_TAN, x, tan(x), 0x1p-12, 0); }
// results stay in [-1, 1] (up to the tolerance) for every argument (also the lowest one), and zero is a fixed point
template <class F> void bounded()
{
    __sa_config(FORMS, 1);
    F x = anyfx<F>(16, 1);
    i128 m = (i128)1 << F::precision, t = F::precision <= 8 ? 4 : m >> 11;
    i128 s = raw(sin(x));
    CHECK(-m - t <= s && s <= m + t);
}
#ifdef THOROUGH
OB(sin_bounded_f32) { bounded<fixed32>(); }
#endif
OB(sin_bounded_f20) { bounded<f20>(); }
OB(sin_bounded_f8) { bounded<f8>(); }
template <class F> void zero() { CHECK(raw(sin(mk<F>(0))) == 0); }
INST_SIGNED(zero)
OB(lowest_f32) { i128 s = raw(sin(mk<fixed32>(INT32_MIN))); CHECK(s >= -65600 && s <= 65600); }
OB(lowest_f64) { i128 s = raw(sin(mk<fixed64>(INT64_MIN))); CHECK(s >= -4296000000LL && s <= 4296000000LL); }
