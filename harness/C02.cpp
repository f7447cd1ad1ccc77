// multiplication of two fixed point numbers
// absint: --overflow
#include "types.h"
// r is the product of the raw values x and y, scaled back, in the rounding mode of F
template <class F> bool is_product(i128 r, i128 x, i128 y)
{
    i128 p = x * y, u = (i128)1 << F::precision;
    if(!rounds<F>::value) return r == fdiv(p, u); // towards minus infinity
    // nearest, ties away from zero
    i128 d = 2 * (r * u - p);
    return p >= 0 ? (-u < d && d <= u) : (-u <= d && d < u);
}
template <class F> bool in_range(i128 x, i128 y)
{
    i128 p = x * y, u = (i128)1 << F::precision;
    return p >= lowest<F>() * u && p <= highest<F>() * u;
}
template <class F> void mul()
{
    F a = anyfx<F>(), b = anyfx<F>();
    i128 x = raw(a), y = raw(b);
    ASSUME(in_range<F>(x, y));
    CHECK(is_product<F>(raw(a * b), x, y));
    CHECK(raw(b * a) == raw(a * b));
    F c = a;
    F& ref = (c *= b);
    CHECK(&ref == &c && raw(c) == raw(a * b) && raw(b) == y && raw(a) == x);
}
INST_ALL(mul)
template <class F> void square()
{
    F a = anyfx<F>();
    i128 x = raw(a);
    ASSUME(in_range<F>(x, x));
    F c = a;
    c *= c;
    CHECK(is_product<F>(raw(c), x, x));
    CHECK(is_product<F>(raw(a * a), x, x));
}
INST_ALL(square)
template <class F> void unit()
{
    F a = anyfx<F>();
    CHECK(a * mk<F>((i128)1 << F::precision) == a);
    CHECK(mk<F>((i128)1 << F::precision) * a == a);
    CHECK(raw(a * mk<F>(0)) == 0);
}
INST_ALL(unit)
// factors of halves and odd steps, where every other product is a tie or next to one
template <class F> void ties()
{
    constexpr i128 u = (i128)1 << F::precision;
    F a = anyfx<F>();
    int k = any_in<int>(0, 7, 8);
    i128 y = k == 0 ? u / 2 : k == 1 ? -u / 2 : k == 2 ? 3 * (u / 2) : k == 3 ? -5 * (u / 2) : k == 4 ? u / 4 : k == 5 ? 1 : k == 6 ? -1 : 3;
    if(y < 0 && lowest<F>() == 0) y = -y;
    i128 x = raw(a);
    ASSUME(in_range<F>(x, y));
    F b = mk<F>(y), c = a, d = b;
    CHECK(is_product<F>(raw(a * b), x, y));
    CHECK(is_product<F>(raw(b * a), x, y));
    c *= b;
    CHECK(is_product<F>(raw(c), x, y));
    d *= a;
    CHECK(is_product<F>(raw(d), x, y));
}
INST_ALL(ties)
