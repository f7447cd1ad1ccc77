// angle conversion and floating modulo
// absint: --overflow --max-cells 60000
#include "types.h"
OB(deg_f32) { __sa_config(FORMS, 1); auto x = fx_in<fixed32>(-570LL << 16, 570LL << 16, 16); near(R_DEG, x, degrees(x), 0x1p-8, 0x1p-15); }
OB(deg_f64) { __sa_config(FORMS, 1); auto x = fx_in<fixed64>(-10000000LL << 32, 10000000LL << 32, 16); near(R_DEG, x, degrees(x), 0x1p-24, 0x1p-28); }
OB(deg_q16) { __sa_config(FORMS, 1); auto x = fx_in<q16>(-570LL << 16, 570LL << 16, 16); near(R_DEG, x, degrees(x), 0x1p-8, 0x1p-15); }
OB(deg_f20) { __sa_config(FORMS, 1); auto x = fx_in<f20>(-35LL << 20, 35LL << 20, 16); near(R_DEG, x, degrees(x), 0x1p-12, 0x1p-19); }
OB(rad_f32) { __sa_config(FORMS, 1); auto x = fx_in<fixed32>(INT32_MIN, INT32_MAX, 16); near(R_RAD, x, radians(x), 0x1p-13, 0x1p-16); }
OB(rad_f64) { __sa_config(FORMS, 1); auto x = fx_in<fixed64>(INT64_MIN, INT64_MAX, 16); near(R_RAD, x, radians(x), 0x1p-29, 0x1p-32); }
OB(rad_q16) { __sa_config(FORMS, 1); auto x = fx_in<q16>(INT32_MIN, INT32_MAX, 16); near(R_RAD, x, radians(x), 0x1p-13, 0x1p-16); }
OB(rad_f20) { __sa_config(FORMS, 1); auto x = fx_in<f20>(INT32_MIN, INT32_MAX, 16); near(R_RAD, x, radians(x), 0x1p-17, 0x1p-20); }
// whole turns are exact
template <class F> void turn()
{
    CHECK(raw(degrees(numbers::pi_v<F>())) == (i128)180 << F::precision);
    CHECK(raw(radians(F(180))) == raw(numbers::pi_v<F>()));
    CHECK(raw(degrees(mk<F>(0))) == 0 && raw(radians(mk<F>(0))) == 0);
}
OB(turn_f32) { turn<fixed32>(); }
OB(turn_f64) { turn<fixed64>(); }
OB(turn_f20) { turn<f20>(); }
// a modulo b for operands of the same sign: what is left after taking out b as often as it fits
template <class F> void mod()
{
    F a = anyfx<F>(), b = anyfx<F>();
    i128 x = raw(a), y = raw(b);
    ASSUME((x >= 0 && y > 0) || (x <= 0 && y < 0));
    ASSUME(fits<vt<F>>((x << F::precision) / y));
    i128 r = raw(fmod(a, b));
    CHECK(r == x % y);
}
OB(mod_f32) { mod<fixed32>(); }
OB(mod_f64) { mod<fixed64>(); }
OB(mod_f20) { mod<f20>(); }
OB(mod_f8) { mod<f8>(); }
// operands of different signs: the remainder takes the sign of the divisor
template <class F> void signs()
{
    int p = any_in<int>(-48, 48, 97), q = any_in<int>(-12, 12, 25);
    ASSUME(q != 0);
    i128 x = (i128)p << (F::precision - 2), y = (i128)q << (F::precision - 2);
    i128 e = x % y;
    if(e != 0 && (e < 0) != (y < 0)) e += y;
    CHECK(raw(fmod(mk<F>(x), mk<F>(y))) == e);
}
INST_R(signs)
OB(signs_q16) { signs<q16>(); }
// next to every multiple of the divisor
template <class F> void around()
{
    static const int div[4] = {3, 1 << (F::precision - 1), (1 << (F::precision - 1)) + 1, 5 << (F::precision - 3)};
    int i = any_in<int>(0, 3, 4), k = any_in<int>(1, 24, 24), d = any_in<int>(-1, 1, 3), s = any_in<int>(0, 1, 2);
    i128 y = div[i], x = k * y + d;
    ASSUME(fits<vt<F>>((x << F::precision) / y));
    if(s) { x = -x; y = -y; }
    CHECK(raw(fmod(mk<F>(x), mk<F>(y))) == x % y);
}
INST_SIGNED(around)
OB(around_q16) { around<q16>(); }
