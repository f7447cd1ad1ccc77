// floating point conversions
// absint: --overflow
#include "types.h"
template <int K> constexpr double pw() { return 1.0 / (double)(1LL << K); }
// floating -> fixed: N * 2^-K, every significand that T represents exactly; K finer than, equal to and coarser than the fraction
template <class F, class T, int K> void from_fp()
{
    constexpr int digits = std::numeric_limits<T>::digits;
    constexpr long long M = 1LL << (digits > 62 ? 62 : digits);
    long long n = any_in<long long>(-M, M);
    T v = (T)n * (T)pw<K>();
    constexpr int f = F::precision;
    // expected: n * 2^(f-K), towards zero (or to nearest, ties away from zero, for a rounding type)
    if constexpr(f < K && rounds<F>::value)
    {
        constexpr i128 m = (i128)1 << (K - f), h = m / 2;
        ASSUME(n > (lowest<F>() + 1) * m && n < (highest<F>() - 1) * m);
        i128 d = raw(F(v)) * m - n; // |r - v| <= 1/2 step, ties away from zero
        CHECK(n >= 0 ? -h < d && d <= h : -h <= d && d < h);
        return;
    }
    i128 e;
    if constexpr(f >= K) e = (i128)n << (f - K);
    else e = (i128)n / ((i128)1 << (K - f));
    ASSUME(fits<vt<F>>(e) && e > lowest<F>() && e < highest<F>());
    CHECK(raw(F(v)) == e);
}
#define INST_FP(t, T, K) OB(t##_f32_##K) { t<fixed32, T, K>(); } OB(t##_f64_##K) { t<fixed64, T, K>(); } OB(t##_f20_##K) { t<f20, T, K>(); } OB(t##_f8_##K) { t<f8, T, K>(); }
template <class F, class T, int K> void from_double() { from_fp<F, T, K>(); }
template <class F, class T, int K> void from_float() { from_fp<F, T, K>(); }
INST_FP(from_double, double, 0)
INST_FP(from_double, double, 5)
INST_FP(from_double, double, 16)
INST_FP(from_double, double, 19)
INST_FP(from_double, double, 40)
INST_FP(from_float, float, 0)
INST_FP(from_float, float, 5)
INST_FP(from_float, float, 16)
INST_FP(from_float, float, 24)
OB(rounding_from_double_r32_5) { from_fp<r32, double, 5>(); }
OB(rounding_from_double_r32_17) { from_fp<r32, double, 17>(); }
OB(rounding_from_double_r32_20) { from_fp<r32, double, 20>(); }
OB(rounding_from_double_r64_20) { from_fp<r64, double, 20>(); }
OB(rounding_from_double_r64_36) { from_fp<r64, double, 36>(); }
OB(rounding_from_float_r32_12) { from_fp<r32, float, 12>(); }
OB(from_long_double_f32) { from_fp<fixed32, long double, 20>(); }
OB(from_long_double_f64_32) { from_fp<fixed64, long double, 32>(); }
OB(from_long_double_f64_40) { from_fp<fixed64, long double, 40>(); }
OB(from_long_double_q16_16) { from_fp<q16, long double, 16>(); }
OB(from_long_double_r64_40) { from_fp<r64, long double, 40>(); }
// literals give what construction gives
OB(literal_floating)
{
    long long n = any_in<long long>(-(1LL << 62), 1LL << 62);
    ASSUME(n < (1LL << 61) && -n < (1LL << 61));
    long double v = (long double)n * (long double)pw<46>();
    CHECK(raw(literals::operator""_f32(v)) == (i128)n / ((i128)1 << 30));
}
OB(literal_whole) { unsigned v = any_in<unsigned>(0, 32767); CHECK(raw(literals::operator""_f32((unsigned long long)v)) == (i128)v << 16); }
OB(literal_text)
{
    CHECK(raw(1.5_f32) == 98304 && raw(12345.6789_f32) == 809086412 && raw(-0.1_f32) == -6553 && raw(32767_f32) == (i128)32767 << 16);
    CHECK(raw(1.5_f64) == (i128)3 << 31 && raw(12345_f64) == (i128)12345 << 32 && raw(0.0000000005_f64) == 2 && raw(-2147483647.25_f64) == -(((i128)2147483647 << 32) + (1 << 30)));
    CHECK(raw("1.5"_f32) == 98304 && raw(literals::operator""_f32<'-', '1', '.', '2', '5'>()) == -81920 && raw("-1.5"_f64) == -((i128)3 << 31));
}
// fixed -> floating: exact whenever the significand fits, and the way back is the identity
template <class F, class T> void to_fp(long long lo, long long hi)
{
    F a = fx_in<F>(lo, hi);
    T v = static_cast<T>(a);
    CHECK((i128)(v * (T)(1LL << F::precision)) == raw(a)); // an exact scaling
    CHECK(raw(F(v)) == raw(a));
}
constexpr long long M53 = 1LL << 53, M24 = 1LL << 24;
OB(to_double_f32) { to_fp<fixed32, double>(INT32_MIN, INT32_MAX); }
OB(to_double_f20) { to_fp<f20, double>(INT32_MIN, INT32_MAX); }
OB(to_double_f8) { to_fp<f8, double>(INT16_MIN, INT16_MAX); }
OB(to_double_u16) { to_fp<u16f, double>(0, UINT32_MAX); }
OB(to_double_r32) { to_fp<r32, double>(INT32_MIN, INT32_MAX); }
OB(to_double_f64) { to_fp<fixed64, double>(-M53, M53); }
OB(to_double_r64) { to_fp<r64, double>(-M53, M53); }
OB(to_float_f32) { to_fp<fixed32, float>(-M24, M24); }
OB(to_float_f20) { to_fp<f20, float>(-M24, M24); }
OB(to_float_f64) { to_fp<fixed64, float>(-M24, M24); }
OB(to_float_f8) { to_fp<f8, float>(INT16_MIN, INT16_MAX); }
OB(to_float_u16) { to_fp<u16f, float>(0, M24); }
OB(to_long_double_f32) { to_fp<fixed32, long double>(INT32_MIN, INT32_MAX); }
OB(to_long_double_f64) { to_fp<fixed64, long double>(INT64_MIN, INT64_MAX); }
OB(to_long_double_q16) { to_fp<q16, long double>(INT64_MIN, INT64_MAX); }
OB(to_long_double_r64) { to_fp<r64, long double>(INT64_MIN, INT64_MAX); }
// a significand that does not fit is rounded to nearest
template <class F, class T, int D> void to_fp_wide()
{
    constexpr int p = std::numeric_limits<T>::digits;
    constexpr long long L = p + D >= 63 ? INT64_MAX : 1LL << (p + D);
    F a = fx_in<F>(-L, L);
    i128 x = raw(a), y = (i128)(static_cast<T>(a) * (T)(1LL << F::precision)), d = y - x, s = x < 0 ? -x : x;
    for(int k = 0; k <= D; ++k)
        if(s <= (i128)1 << (p + k))
        {
            CHECK(d <= ((i128)1 << k) / 2 && -d <= ((i128)1 << k) / 2);
            break;
        }
}
OB(to_double_wide_f64) { to_fp_wide<fixed64, double, 10>(); }
OB(to_double_wide_q16) { to_fp_wide<q16, double, 10>(); }
OB(to_double_wide_q48) { to_fp_wide<q48, double, 10>(); }
OB(to_float_wide_f32) { to_fp_wide<fixed32, float, 6>(); }
OB(to_float_wide_f64) { to_fp_wide<fixed64, float, 10>(); }
OB(to_float_wide_f20) { to_fp_wide<f20, float, 6>(); }
