// rounding to integers
// absint: --overflow
#include "types.h"
template <class F> void floor_()
{
    F a = anyfx<F>();
    i128 x = raw(a), m = (i128)1 << F::precision;
    F r = floor(a);
    CHECK(raw(r) == fdiv(x, m) * m);
}
INST_ALL(floor_)
template <class F> void ceil_()
{
    F a = anyfx<F>();
    i128 x = raw(a), m = (i128)1 << F::precision;
    i128 e = -fdiv(-x, m) * m;
    F r = ceil(a);
    CHECK(raw(r) == (e > highest<F>() ? highest<F>() : e));
}
INST_ALL(ceil_)
template <class F> void trunc_()
{
    F a = anyfx<F>();
    i128 x = raw(a), m = (i128)1 << F::precision;
    CHECK(raw(trunc(a)) == x / m * m);
}
INST_ALL(trunc_)
template <class F> void round_()
{
    F a = anyfx<F>();
    i128 x = raw(a), m = (i128)1 << F::precision, h = m / 2;
    ASSUME(x < highest<F>() / m * m + h && x > (lowest<F>() - (lowest<F>() < 0 ? h : 1))); // the nearest integer is representable
    i128 r = raw(round(a)), d = r - x;
    CHECK(r % m == 0);
    CHECK(x >= 0 ? -h < d && d <= h : -h <= d && d < h); // nearest, ties away from zero
}
INST_ALL(round_)
// the fractional part is in [0, 1) and the parts add up to the value
template <class F> void modf_()
{
    F a = anyfx<F>(), ip = mk<F>(12345);
    i128 x = raw(a), m = (i128)1 << F::precision;
    F fr = modf(a, ip);
    CHECK(raw(ip) == fdiv(x, m) * m);
    CHECK(raw(fr) == x - fdiv(x, m) * m);
    CHECK(raw(fr) >= 0 && raw(fr) < m);
}
INST_ALL(modf_)
