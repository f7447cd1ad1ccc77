// inverse trigonometric functions
// absint: --overflow --max-cells 60000
#include "types.h"
#define ATAN(s, F, T, ta) OB(atan_##s) { __sa_config(FORMS, 1); auto x = fx_in<F>(std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), 4, 1); near(R_ATAN, x, atan(x), ta, 0); }
ATAN(f32, fixed32, int32_t, 0x1.4p-12)
ATAN(f64, fixed64, int64_t, 0x1p-12)
ATAN(f20, f20, int32_t, 0x1p-12)
ATAN(f8, f8, int16_t, 0x1p-6)
ATAN(q48, q48, int64_t, 0x1p-12)
OB(atan_q16) { __sa_config(FORMS, 1); auto x = fx_in<q16>(-(1LL << 46), 1LL << 46, 4, 1); near(R_ATAN, x, atan(x), 0x1.4p-12, 0); }
#define ARC(s, F, K, ta) \
    OB(asin_##s) { __sa_config(FORMS, 1); auto x = fx_in<F>(-1LL << K, 1LL << K, 64); near(R_ASIN, x, asin(x), ta, 0); } \
    OB(acos_##s) { __sa_config(FORMS, 1); auto x = fx_in<F>(-1LL << K, 1LL << K, 64); near(R_ACOS, x, acos(x), ta, 0); }
ARC(f32, fixed32, 16, 0x1p-9)
ARC(f20, f20, 20, 0x1p-7)
ARC(f8, f8, 8, 0x1p-6)
#ifdef THOROUGH
ARC(q16, q16, 16, 0x1p-6)
#endif
// f64: away from the end points
OB(asin_f64) { __sa_config(FORMS, 1); auto x = fx_in<fixed64>(-0xF0000000LL, 0xF0000000LL, 64); near(R_ASIN, x, asin(x), 0x1p-9, 0); }
OB(acos_f64) { __sa_config(FORMS, 1); auto x = fx_in<fixed64>(-0xF0000000LL, 0xF0000000LL, 64); near(R_ACOS, x, acos(x), 0x1p-9, 0); }
// odd symmetry
template <class F> void odd()
{
    F x = anyfx<F>();
    ASSUME(raw(x) > 0);
    CHECK(raw(atan(-x)) == -raw(atan(x)));
}
INST_SIGNED(odd)
// exact values at the end points and at zero
template <class F> void ends()
{
    i128 h = raw(numbers::pi_v<F>()) / 2, m = (i128)1 << F::precision;
    CHECK(raw(asin(mk<F>(m))) == h && raw(asin(mk<F>(-m))) == -h && raw(asin(mk<F>(0))) == 0);
    CHECK(raw(acos(mk<F>(m))) == 0 && raw(acos(mk<F>(-m))) == raw(numbers::pi_v<F>()) && raw(acos(mk<F>(0))) == h);
    CHECK(raw(atan(mk<F>(0))) == 0);
}
INST_SIGNED(ends)
