// arithmetic between a fixed point number and a built-in integer
// absint: --overflow
#include "types.h"
template <class F, class T> void addsub()
{
    F a = anyfx<F>();
    T k = any<T>();
    i128 x = raw(a), y = (i128)k << F::precision;
    ASSUME(fits<vt<F>>(y));
    if(fits<vt<F>>(x + y))
    {
        CHECK(raw(a + k) == x + y);
        CHECK(raw(k + a) == x + y);
        F c = a;
        F& ref = (c += k);
        CHECK(&ref == &c && raw(c) == x + y);
    }
    if(fits<vt<F>>(x - y))
    {
        CHECK(raw(a - k) == x - y);
        F c = a;
        F& ref = (c -= k);
        CHECK(&ref == &c && raw(c) == x - y);
    }
    if(fits<vt<F>>(y - x)) CHECK(raw(k - a) == y - x);
    CHECK(raw(a) == x);
}
INST_INT(addsub)
template <class F, class T> void mul()
{
    F a = anyfx<F>();
    T k = any<T>();
    i128 x = raw(a), y = (i128)k;
    ASSUME(fits<vt<F>>(x * y));
    CHECK(raw(a * k) == x * y);
    CHECK(raw(k * a) == x * y);
    F c = a;
    F& ref = (c *= k);
    CHECK(&ref == &c && raw(c) == x * y && raw(a) == x);
}
INST_INT(mul)
template <class F, class T> void div()
{
    F a = anyfx<F>();
    T k = any<T>();
    i128 x = raw(a), y = (i128)k;
    ASSUME(y != 0);
    i128 e = x / y;
    ASSUME(fits<vt<F>>(e));
    CHECK(raw(a / k) == e);
    F c = a;
    F& ref = (c /= k);
    CHECK(&ref == &c && raw(c) == e && raw(a) == x);
}
INST_INT(div)
// integer / fixed: the integer is converted first
template <class F, class T> void rdiv()
{
    F a = anyfx<F>();
    T k = any<T>();
    i128 x = raw(a), y = (i128)k << F::precision;
    ASSUME(fits<vt<F>>(y) && x != 0);
    i128 n = y << F::precision;
    i128 e = quotient<F>(n, x);
    ASSUME(fits<vt<F>>(e));
    CHECK(raw(k / a) == e);
}
INST_INT(rdiv)
template <class F, class T> void rem()
{
    F a = anyfx<F>();
    T k = any<T>();
    i128 x = raw(a), y = (i128)k << F::precision;
    ASSUME(fits<vt<F>>(y));
    if(y != 0)
    {
        CHECK(raw(a % k) == x % y);
        F c = a;
        F& ref = (c %= k);
        CHECK(&ref == &c && raw(c) == x % y && raw(a) == x);
    }
    if(x != 0) CHECK(raw(k % a) == y % x);
}
INST_INT(rem)
