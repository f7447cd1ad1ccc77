// checked division: throws exactly on a zero divisor, agrees with the unchecked operators otherwise
// absint: --overflow
#include "types.h"
template <class F> void by_fixed()
{
    F a = anyfx<F>(), b = anyfx<F>();
    i128 x = raw(a), y = raw(b);
    if(y != 0)
    {
        i128 n = x << F::precision;
        i128 e = quotient<F>(n, y);
    ASSUME(fits<vt<F>>(e));
        __sa_expect_throw(false, "");
        F q = a.divide(b);
        CHECK(raw(q) == e && raw(a) == x && raw(b) == y);
        F c = a;
        F& ref = c.divide_by(b);
        CHECK(&ref == &c && raw(c) == raw(q) && raw(b) == y);
    }
}
INST_ALL(by_fixed)
template <class F> void zero_divide()
{
    F a = anyfx<F>();
    __sa_expect_throw(true, "divide_by_zero");
    F r = a.divide(mk<F>(0));
    CHECK(raw(r) != raw(r)); // not reached: must have thrown
}
INST_ALL(zero_divide)
template <class F> void zero_divide_by()
{
    F a = anyfx<F>();
    __sa_expect_throw(true, "divide_by_zero");
    a.divide_by(mk<F>(0));
    CHECK(false);
}
INST_ALL(zero_divide_by)
// a throwing division leaves the dividend as it was, and is catchable as divide_by_zero and std::domain_error
template <class F, class Z> void unchanged_with(Z zero)
{
    F a = anyfx<F>();
    i128 x = raw(a);
    int hit = 0;
    try { a.divide_by(zero); } catch(const eirin::divide_by_zero&) { hit = 1; }
    CHECK(hit == 1);
    CHECK(raw(a) == x);
    hit = 0;
    try { F r = a.divide(zero); (void)r; } catch(const std::domain_error&) { hit = 1; }
    CHECK(hit == 1);
    CHECK(raw(a) == x);
}
template <class F> void unchanged() { unchanged_with<F>(mk<F>(0)); }
INST_ALL(unchanged)
template <class F> void unchanged_int() { unchanged_with<F>(0); }
INST_ALL(unchanged_int)
template <class F> void unchanged_u64() { unchanged_with<F>((uint64_t)0); }
INST_ALL(unchanged_u64)
template <class F, class T> void by_int()
{
    F a = anyfx<F>();
    T k = any<T>();
    i128 x = raw(a), y = (i128)k;
    ASSUME(y != 0);
    i128 e = x / y;
    ASSUME(fits<vt<F>>(e));
    __sa_expect_throw(false, "");
    CHECK(raw(a.divide(k)) == e && raw(a) == x);
    F c = a;
    F& ref = c.divide_by(k);
    CHECK(&ref == &c && raw(c) == e);
}
INST_INT(by_int)
template <class F, class T> void zero_int()
{
    F a = anyfx<F>();
    __sa_expect_throw(true, "divide_by_zero");
    a.divide((T)0);
    CHECK(false);
}
INST_INT(zero_int)
template <class F, class T> void zero_int_by()
{
    F a = anyfx<F>();
    __sa_expect_throw(true, "divide_by_zero");
    a.divide_by((T)0);
    CHECK(false);
}
INST_INT(zero_int_by)
