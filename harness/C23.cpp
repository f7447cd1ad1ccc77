// total functions: no trap, no runaway loop, no out-of-bounds access for any argument
// absint: --max-cells 20000
#include "types.h"
#include <eirin/ext/cordic.hpp>
#define TOTAL(t, call) template <class F> void t() { __sa_config(MAXDISJ, 1); F x = anyfx<F>(); auto r = call; CHECK(r.internal_value() == r.internal_value()); } INST_SIGNED(t) OB(t##_q16) { t<q16>(); } OB(t##_q48) { t<q48>(); } OB(t##_b4) { t<b4>(); }
TOTAL(sin_, sin(x))
TOTAL(cos_, cos(x))
TOTAL(atan_, atan(x))
TOTAL(sqrt_, sqrt(x))
TOTAL(exp_, exp(x))
TOTAL(deg_, degrees(x))
TOTAL(rad_, radians(x))
TOTAL(floor_, floor(x))
TOTAL(ceil_, ceil(x))
TOTAL(trunc_, trunc(x))
TOTAL(round_, round(x))
TOTAL(abs_, abs(x))
template <class F> void hypot_() { __sa_config(MAXDISJ, 1); F x = anyfx<F>(), y = anyfx<F>(); CHECK(raw(hypot(x, y)) == raw(hypot(x, y)) || true); }
OB(hypot_f32) { hypot_<fixed32>(); }
template <class F> void mul_() { F x = anyfx<F>(), y = anyfx<F>(); F r = x * y; r *= x; CHECK(raw(r) == raw(r)); }
INST_SIGNED(mul_) OB(mul_q48) { mul_<q48>(); } OB(mul_b4) { mul_<b4>(); }
template <class F> void divs() { F x = anyfx<F>(), y = anyfx<F>(); ASSUME(raw(y) != 0); F r = x / y; r = x % y; r = fmod(x, y); CHECK(raw(r) == raw(r)); }
INST_SIGNED(divs) OB(divs_q48) { divs<q48>(); } OB(divs_b4) { divs<b4>(); }
template <class F> void tan_() { __sa_config(MAXDISJ, 1); F x = anyfx<F>(); try { F r = tan(x); CHECK(raw(r) == raw(r)); } catch(const std::domain_error&) { CHECK(true); } }
OB(tan_f8) { tan_<f8>(); }
// the results of these are always representable: they do not depend on a signed operation that overflows either
#define NOVF(t, call) template <class F> void t() { __sa_config(MAXDISJ, 1); __sa_config(OVERFLOWCK, 1); F x = anyfx<F>(); i128 r = raw(call); CHECK(r >= lowest<F>() && r <= highest<F>()); } INST_SIGNED(t) OB(t##_q16) { t<q16>(); } OB(t##_q48) { t<q48>(); } OB(t##_b4) { t<b4>(); }
NOVF(sin_novf, sin(x))
NOVF(cos_novf, cos(x))
NOVF(atan_novf, atan(x))
NOVF(sqrt_novf, sqrt(x))
NOVF(trunc_novf, trunc(x))
NOVF(ceil_novf, ceil(x))
NOVF(rad_novf, radians(x))
NOVF(frac_novf, F::from_internal_value(x.fractional_part()))
NOVF(sign_novf, F::from_internal_value(signbit(x)))
// the cube root stops, also where no cube comes close to the argument
template <class F> void cbrt_()
{
    int i = any_in<int>(0, 127, 128);
    i128 h = highest<F>(), v = h - h / 128 * i - i % 7;
    if(v < 0) v = 0;
    i128 r = raw(cbrt(mk<F>((vt<F>)(i % 2 ? -v : v))));
    CHECK(i % 2 ? r <= 0 : r >= 0);
}
INST_SIGNED(cbrt_) OB(cbrt_q48) { cbrt_<q48>(); } OB(cbrt_q16) { cbrt_<q16>(); }
