// domain errors: reported exactly outside the domain, as std::domain_error
// absint: --max-cells 20000
#include "types.h"
#define PARTIAL(t, inside, call) \
    template <class F> void t##_in() { __sa_config(MAXDISJ, 1); F x = anyfx<F>(); i128 v = raw(x), m = (i128)1 << F::precision; ASSUME(inside); __sa_expect_throw(false, ""); F r = call; CHECK(raw(r) == raw(r)); } \
    template <class F> void t##_out() { F x = anyfx<F>(); i128 v = raw(x), m = (i128)1 << F::precision; ASSUME(!(inside)); __sa_expect_throw(true, "domain_error"); F r = call; CHECK(raw(r) != raw(r)); } \
    template <class F> void t##_catch() { F x = anyfx<F>(); i128 v = raw(x), m = (i128)1 << F::precision; ASSUME(!(inside)); int hit = 0; try { F r = call; (void)r; } catch(const std::domain_error&) { hit = 1; } CHECK(hit == 1); CHECK(raw(x) == v); } \
    INST_SIGNED(t##_in) INST_SIGNED(t##_out) INST_SIGNED(t##_catch) OB(t##_in_q16) { t##_in<q16>(); } OB(t##_out_q16) { t##_out<q16>(); } OB(t##_out_q48) { t##_out<q48>(); } OB(t##_catch_b4) { t##_catch<b4>(); }
PARTIAL(log2, (v > 0), log2(x))
PARTIAL(ln, (v > 0), log(x))
PARTIAL(log10, (v > 0), log10(x))
PARTIAL(asin, (v >= -m && v <= m), asin(x))
PARTIAL(acos, (v >= -m && v <= m), acos(x))
// a power with a negative base and a fractional exponent has no real value; whole exponents do
template <class F> void pow_neg_frac()
{
    F b = anyfx<F>(), e = anyfx<F>();
    i128 x = raw(b), y = raw(e), m = (i128)1 << F::precision;
    ASSUME(x < 0 && y % m != 0 && y > -8 * m && y < 8 * m);
    __sa_expect_throw(true, "domain_error");
    F r = pow(b, e);
    CHECK(raw(r) != raw(r));
}
INST_SIGNED(pow_neg_frac)
template <class F> void pow_neg_whole()
{
    int k = any_in<int>(-7, 7, 15);
    F b = anyfx<F>();
    __sa_expect_throw(false, "");
    F r = pow(b, F(k));
    CHECK(raw(r) == raw(r));
}
INST_SIGNED(pow_neg_whole)
// the tangent is defined away from the poles
template <class F> void tan_ok()
{
    __sa_config(FORMS, 1);
    F x = fx_in<F>(-(3LL << (F::precision - 1)), 3LL << (F::precision - 1), 64);
    __sa_expect_throw(false, "");
    F r = tan(x);
    CHECK(raw(r) == raw(r));
}
INST_SIGNED(tan_ok)
// and is undefined exactly where the cosine is within one resolution step of zero
template <class F> void tan_guard(F x)
{
    __sa_config(MAXDISJ, 1);
    i128 c = raw(cos(x));
    bool hit = false;
    try { F r = tan(x); CHECK(raw(r) == raw(r)); } catch(const std::domain_error&) { hit = true; }
    CHECK(hit == (c >= -1 && c <= 1));
}
OB(tan_guard_f8) { tan_guard(mk<f8>(any_in<int>(-2000, 2000, 4001))); }
template <class F> void tan_pole()
{
    i128 h = ((i128)0x1921FB54442D18LL >> (52 - F::precision));
    int k = any_in<int>(-5, 3, 9), d = any_in<int>(-40, 40, 81);
    tan_guard(mk<F>(h * (2 * k + 1) + d));
}
OB(tan_pole_f32) { tan_pole<fixed32>(); }
OB(tan_pole_f64) { tan_pole<fixed64>(); }
OB(tan_pole_f20) { tan_pole<f20>(); }
