// integer conversions
// absint: --overflow
#include "types.h"
// integer -> fixed: exact whenever the value is representable
template <class F, class T> void from_int()
{
    T k = any<T>();
    i128 v = (i128)k << F::precision;
    ASSUME(fits<vt<F>>(v));
    F x(k);
    CHECK(raw(x) == v);
    // back again
    CHECK((i128)static_cast<T>(x) == (i128)k);
}
INST_INT(from_int)
// fixed -> integer: the largest integer not above the value, when the target type holds it
template <class F, class T> void to_int()
{
    F a = anyfx<F>();
    i128 x = raw(a), e = fdiv(x, (i128)1 << F::precision);
    ASSUME(fits<T>(e));
    CHECK((i128)static_cast<T>(a) == e);
    CHECK(raw(a) == x);
}
INST_INT(to_int)
// a signed integer type of the storage width holds every result
template <class F> void widest()
{
    F a = anyfx<F>();
    i128 q = (i128)static_cast<vt<F>>(a);
    i128 x = raw(a), m = (i128)1 << F::precision;
    CHECK(q * m <= x && x < q * m + m);
}
INST_ALL(widest)
// order is preserved in both directions
template <class F> void monotone()
{
    F a = anyfx<F>(), b = anyfx<F>();
    if(a <= b) CHECK(static_cast<vt<F>>(a) <= static_cast<vt<F>>(b));
    constexpr int m = sizeof(vt<F>) == 1 ? 7 : 100;
    int i = any_in<int>(-m, m), j = any_in<int>(-m, m);
    if(std::is_signed_v<vt<F>>) CHECK((i < j) == (F(i) < F(j)) && (i == j) == (F(i) == F(j)));
}
INST_ALL(monotone)
