// division and remainder of two fixed point numbers
// absint: --overflow
#include "types.h"
template <class F> void div()
{
    F a = anyfx<F>(), b = anyfx<F>();
    i128 x = raw(a), y = raw(b);
    ASSUME(y != 0);
    i128 n = x << F::precision;
    i128 e = quotient<F>(n, y);
    ASSUME(fits<vt<F>>(e));
    F q = a / b;
    CHECK(raw(q) == e);
    F c = a;
    F& ref = (c /= b);
    CHECK(&ref == &c && raw(c) == raw(q) && raw(b) == y && raw(a) == x);
}
INST_ALL(div)
template <class F> void unit()
{
    F a = anyfx<F>();
    CHECK(a / mk<F>((i128)1 << F::precision) == a);
    if(raw(a) != 0) { CHECK(raw(a / a) == ((i128)1 << F::precision)); F c = a; c /= c; CHECK(raw(c) == ((i128)1 << F::precision)); CHECK(raw(mk<F>(0) / a) == 0); }
}
INST_ALL(unit)
template <class F> void rem()
{
    F a = anyfx<F>(), b = anyfx<F>();
    i128 x = raw(a), y = raw(b);
    ASSUME(y != 0);
    i128 e = x % y; // the sign of the dividend, |e| < |b|
    CHECK(raw(a % b) == e);
    F c = a;
    F& ref = (c %= b);
    CHECK(&ref == &c && raw(c) == e && raw(b) == y && raw(a) == x);
    F d = b;
    d %= d;
    CHECK(raw(d) == 0);
}
INST_ALL(rem)
// divisors for which every other quotient is a tie or next to one
template <class F> void ties()
{
    constexpr i128 u = (i128)1 << F::precision;
    F a = anyfx<F>();
    int k = any_in<int>(0, 7, 8);
    i128 y = k == 0 ? 2 * u : k == 1 ? -2 * u : k == 2 ? 4 * u : k == 3 ? 6 * u : k == 4 ? -u / 2 : k == 5 ? 3 : k == 6 ? -3 * u : u + 1;
    if(y < 0 && lowest<F>() == 0) y = -y;
    i128 x = raw(a), e = quotient<F>(x << F::precision, y);
    ASSUME(fits<vt<F>>(e));
    F b = mk<F>(y), c = a;
    CHECK(raw(a / b) == e);
    c /= b;
    CHECK(raw(c) == e);
    F d = a;
    CHECK(raw(a % b) == x % y);
    d %= b;
    CHECK(raw(d) == x % y);
}
INST_ALL(ties)
