// sign, integral and fractional parts
// absint: --overflow
#include "types.h"
template <class F> void parts()
{
    F a = anyfx<F>();
    i128 x = raw(a), m = (i128)1 << F::precision, ax = x < 0 ? -x : x;
    CHECK(signbit(a) == (x < 0));
    CHECK((i128)a.integral_part() == ax / m);
    CHECK((i128)a.fractional_part() == x % m);
    // together they determine the value
    i128 s = signbit(a) ? -1 : 1;
    CHECK(s * (i128)a.integral_part() * m + (i128)a.fractional_part() == x);
}
INST_ALL(parts)
// the raw integral part is the bit pattern above the binary point with the sign bit cleared
template <class F> void raw_part()
{
    F a = anyfx<F>();
    i128 x = raw(a), m = (i128)1 << F::precision, top = (i128)1 << (sizeof(vt<F>) * 8 - 1);
    i128 e = std::is_signed_v<vt<F>> ? (x < 0 ? x + top : x) : (x >= top ? x - top : x);
    CHECK((i128)a.raw_integral_part() == e / m);
}
INST_ALL(raw_part)
template <class F> void internal()
{
    vt<F> v = any<vt<F>>();
    F a = F::from_internal_value(v);
    CHECK(a.internal_value() == v);
    F b(a), c;
    c = a;
    CHECK(raw(b) == raw(a) && raw(c) == raw(a));
}
INST_ALL(internal)
