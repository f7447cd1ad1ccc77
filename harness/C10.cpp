// conversions between fixed point types
// absint: --overflow
#include "types.h"
// the value in the target's precision: exact when the target has at least as many fractional bits, otherwise towards zero (nearest for a rounding target)
template <class To, class From> void conv()
{
    From a = anyfx<From>();
    constexpr int s = From::precision, d = To::precision;
    i128 x = raw(a), e;
    if constexpr(d >= s) e = x << (d - s);
    else if constexpr(!rounds<To>::value) e = x / ((i128)1 << (s - d));
    else { i128 v = x / ((i128)1 << (s - d - 1)); e = v / 2 + v % 2; }
    ASSUME(fits<vt<To>>(e));
    To b(a);
    CHECK(raw(b) == e);
    CHECK(raw(a) == x);
    if constexpr(d >= s) CHECK(raw(From(b)) == x); // there and back
}
#define C2(n, T) OB(conv_##n##_from_f32) { conv<T, fixed32>(); } OB(conv_##n##_from_f64) { conv<T, fixed64>(); } OB(conv_##n##_from_f20) { conv<T, f20>(); } OB(conv_##n##_from_f8) { conv<T, f8>(); } OB(conv_##n##_from_f30) { conv<T, f30>(); } OB(conv_##n##_from_r32) { conv<T, r32>(); } OB(conv_##n##_from_r64) { conv<T, r64>(); } OB(conv_##n##_from_uf) { conv<T, u16f>(); } OB(conv_##n##_from_q16) { conv<T, q16>(); } OB(conv_##n##_from_q48) { conv<T, q48>(); } OB(conv_##n##_from_b4) { conv<T, b4>(); }
C2(f32, fixed32)
C2(f64, fixed64)
C2(f20, f20)
C2(f8, f8)
C2(f30, f30)
C2(r32, r32)
C2(r64, r64)
C2(uf, u16f)
C2(q16, q16)
C2(q48, q48)
C2(b4, b4)
// raw values of another precision
template <class F, unsigned S, class V> void from_value()
{
    V v = any<V>();
    constexpr int d = F::precision;
    i128 e;
    if constexpr(d >= (int)S) e = (i128)v << (d - S);
    else if constexpr(!rounds<F>::value) e = (i128)v / ((i128)1 << (S - d));
    else { i128 w = (i128)v / ((i128)1 << (S - d - 1)); e = w / 2 + w % 2; }
    ASSUME(fits<vt<F>>(e));
    CHECK(raw(F::template from_fixed_num_value<S>(v)) == e);
}
#define FV(S, V, n) OB(value_##n##_##S##_f32) { from_value<fixed32, S, V>(); } OB(value_##n##_##S##_f64) { from_value<fixed64, S, V>(); } OB(value_##n##_##S##_f20) { from_value<f20, S, V>(); } OB(value_##n##_##S##_f8) { from_value<f8, S, V>(); } OB(value_##n##_##S##_r32) { from_value<r32, S, V>(); } OB(value_##n##_##S##_r64) { from_value<r64, S, V>(); } OB(value_##n##_##S##_q48) { from_value<q48, S, V>(); } OB(value_##n##_##S##_b4) { from_value<b4, S, V>(); }
FV(61, int64_t, i64)
FV(33, int64_t, i64)
FV(8, int64_t, i64)
FV(24, int32_t, i32)
FV(4, int32_t, i32)
FV(16, int32_t, i32)
