// instantiations the obligations are stated for
#pragma once
#include "sa.h"
#include <eirin/eirin.hpp>
using namespace eirin;
using f20 = fixed_num<int32_t, int64_t, 20, false>;
using f8 = fixed_num<int16_t, int32_t, 8, false>;
using f30 = fixed_num<int32_t, int64_t, 30, false>;
using u16f = fixed_num<uint32_t, uint64_t, 16, false>;
using r32 = fixed_num<int32_t, int64_t, 16, true>;
using q16 = fixed_num<int64_t, detail::int128_t, 16, false>;
using q48 = fixed_num<int64_t, detail::int128_t, 48, false>;
using b4 = fixed_num<int8_t, int16_t, 4, false>;
using r64 = fixed_num<int64_t, detail::int128_t, 32, true>;
template <class F> inline long long one() { return 1LL << F::precision; }
template <class F> inline void near(int fn, F x, F r, double ta, double tr) { __sa_near(fn, F::precision, (long long)x.internal_value(), 0, (long long)r.internal_value(), ta, tr); }
template <class F> inline void near2(int fn, F x, F y, F r, double ta, double tr) { __sa_near(fn, F::precision, (long long)x.internal_value(), (long long)y.internal_value(), (long long)r.internal_value(), ta, tr); }
template <class F> struct rounds : std::false_type {};
template <class T, class I, unsigned f, bool r> struct rounds<fixed_num<T, I, f, r>> : std::bool_constant<r> {};
template <class F> using vt = typename F::value_type;
template <class F> inline F mk(i128 v) { return F::from_internal_value((vt<F>)v); }
// one obligation per instantiation
#define INST_SIGNED(t) OB(t##_f32) { t<fixed32>(); } OB(t##_f64) { t<fixed64>(); } OB(t##_f20) { t<f20>(); } OB(t##_f8) { t<f8>(); }
#define INST_NARROW(t) INST_SIGNED(t) OB(t##_u16) { t<u16f>(); } OB(t##_r32) { t<r32>(); } OB(t##_r64) { t<r64>(); }
#define INST_ALL(t) INST_NARROW(t) OB(t##_q16) { t<q16>(); } OB(t##_q48) { t<q48>(); } OB(t##_b4) { t<b4>(); }
#define INST_R(t) INST_SIGNED(t) OB(t##_r32) { t<r32>(); } OB(t##_r64) { t<r64>(); }
// one obligation per instantiation and integer operand type
#define INST_INT1(t, F, s) OB(t##_##s##_i8) { t<F, int8_t>(); } OB(t##_##s##_u8) { t<F, uint8_t>(); } OB(t##_##s##_i16) { t<F, int16_t>(); } OB(t##_##s##_u16) { t<F, uint16_t>(); } \
    OB(t##_##s##_i32) { t<F, int32_t>(); } OB(t##_##s##_u32) { t<F, uint32_t>(); } OB(t##_##s##_i64) { t<F, int64_t>(); } OB(t##_##s##_u64) { t<F, uint64_t>(); }
#define INST_INT(t) INST_INT1(t, fixed32, f32) INST_INT1(t, fixed64, f64) INST_INT1(t, f20, f20) INST_INT1(t, f8, f8) INST_INT1(t, u16f, uf) INST_INT1(t, r32, r32) INST_INT1(t, q16, q16) INST_INT1(t, q48, q48) INST_INT1(t, b4, b4)
template <class F> inline i128 lowest() { return (i128)std::numeric_limits<vt<F>>::min(); }
template <class F> inline i128 highest() { return (i128)std::numeric_limits<vt<F>>::max(); }
// n / y in the rounding mode of F (n already scaled): towards zero, or to nearest with ties away from zero.
// The latter through v = trunc(2n/y): nearest(n/y) = trunc(v/2) + (v odd ? sign v : 0).
template <class F> inline i128 quotient(i128 n, i128 y)
{
    if(!rounds<F>::value) return n / y;
    i128 v = 2 * n / y;
    return v / 2 + v % 2;
}
