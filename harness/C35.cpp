// tool: witness
//@ prelude
#include <eirin/eirin.hpp>
#include <eirin/io/parse.hpp>
#include <eirin/ext/cordic.hpp>
using namespace eirin;
using f20 = fixed_num<int32_t, int64_t, 20, false>;
using f8 = fixed_num<int16_t, int32_t, 8, false>;
using u16f = fixed_num<uint32_t, uint64_t, 16, false>;
using r32 = fixed_num<int32_t, int64_t, 16, true>;
using q16 = fixed_num<int64_t, detail::int128_t, 16, false>;
using q48 = fixed_num<int64_t, detail::int128_t, 48, false>;
using b4 = fixed_num<int8_t, int16_t, 4, false>;
using r64 = fixed_num<int64_t, detail::int128_t, 32, true>;
// a sum of results forces the evaluation of each of them
template <class... X> constexpr bool all(X...) { return true; }
template <class F> constexpr F q(long long n, long long d) { return F::from_internal_value((typename F::value_type)(((detail::int128_t)n << F::precision) / d)); }
//@ accept arithmetic and comparison of fixed32 in constant expressions
constexpr fixed32 a = q<fixed32>(-7, 2), b = q<fixed32>(3, 4);
static_assert(all(a + b, b - a, a * b, a / b, a % b, a + 2, a - 1, a * 2, a / 2, a % 2, 2 + b, 3 - b, 2 * b, 3 / b, 3 % b, a.divide(b), a.divide(2), a == b, a != b, a < b, a <= b, a > b, a >= b, a <=> b, a.nearly_eq(b), a.nearly_ne(b), a.nearly_gt(b), a.nearly_lt(b), a.nearly_gt_eq(b), a.nearly_lt_eq(b)));
constexpr fixed32 chain() { fixed32 c = a; c += b; c -= b; c *= b; c /= b; c %= b; c += 2; c -= 1; c *= 2; c /= 2; c %= 2; c.divide_by(b); c.divide_by(2); return c; }
static_assert(all(chain()));
//@ accept conversions of fixed32 in constant expressions
constexpr fixed32 a = q<fixed32>(7, 2);
static_assert(all(fixed32(3), fixed32(3u), fixed32(3ll), fixed32(2.5), fixed32(2.5f), int(a), long(a), unsigned(a), double(a), float(a), fixed32(fixed32(1)), fixed32(fixed64(1)), fixed32(f8(1)), fixed32(f20(1)), fixed32(r32(1)), fixed32::template from_fixed_num_value<8>(256), fixed32::template from_fixed_num_value<60>(1ll << 60), fixed32::from_internal_value(5), a.internal_value(), a.integral_part(), a.fractional_part(), signbit(a)));
constexpr fixed32 parsed() { fixed32 x; return fixed_from_cstring("12.625", 6, x) ? x : fixed32(0); }
static_assert(all(parsed()));
//@ accept limits and constants of fixed32 are constants
static_assert(all(std::numeric_limits<fixed32>::min(), std::numeric_limits<fixed32>::max(), std::numeric_limits<fixed32>::lowest(), std::numeric_limits<fixed32>::epsilon(), fixed32::e(), fixed32::pi(), fixed32::pi_2(), fixed32::pi_4(), fixed32::double_pi(), numbers::e_v<fixed32>(), numbers::pi_v<fixed32>(), numbers::log2e_v<fixed32>(), numbers::ln2_v<fixed32>(), numbers::inv_pi_v<fixed32>()));
//@ accept arithmetic and comparison of fixed64 in constant expressions
constexpr fixed64 a = q<fixed64>(-7, 2), b = q<fixed64>(3, 4);
static_assert(all(a + b, b - a, a * b, a / b, a % b, a + 2, a - 1, a * 2, a / 2, a % 2, 2 + b, 3 - b, 2 * b, 3 / b, 3 % b, a.divide(b), a.divide(2), a == b, a != b, a < b, a <= b, a > b, a >= b, a <=> b, a.nearly_eq(b), a.nearly_ne(b), a.nearly_gt(b), a.nearly_lt(b), a.nearly_gt_eq(b), a.nearly_lt_eq(b)));
constexpr fixed64 chain() { fixed64 c = a; c += b; c -= b; c *= b; c /= b; c %= b; c += 2; c -= 1; c *= 2; c /= 2; c %= 2; c.divide_by(b); c.divide_by(2); return c; }
static_assert(all(chain()));
//@ accept conversions of fixed64 in constant expressions
constexpr fixed64 a = q<fixed64>(7, 2);
static_assert(all(fixed64(3), fixed64(3u), fixed64(3ll), fixed64(2.5), fixed64(2.5f), int(a), long(a), unsigned(a), double(a), float(a), fixed64(fixed32(1)), fixed64(fixed64(1)), fixed64(f8(1)), fixed64(f20(1)), fixed64(r32(1)), fixed64::template from_fixed_num_value<8>(256), fixed64::template from_fixed_num_value<60>(1ll << 60), fixed64::from_internal_value(5), a.internal_value(), a.integral_part(), a.fractional_part(), signbit(a)));
constexpr fixed64 parsed() { fixed64 x; return fixed_from_cstring("12.625", 6, x) ? x : fixed64(0); }
static_assert(all(parsed()));
//@ accept limits and constants of fixed64 are constants
static_assert(all(std::numeric_limits<fixed64>::min(), std::numeric_limits<fixed64>::max(), std::numeric_limits<fixed64>::lowest(), std::numeric_limits<fixed64>::epsilon(), fixed64::e(), fixed64::pi(), fixed64::pi_2(), fixed64::pi_4(), fixed64::double_pi(), numbers::e_v<fixed64>(), numbers::pi_v<fixed64>(), numbers::log2e_v<fixed64>(), numbers::ln2_v<fixed64>(), numbers::inv_pi_v<fixed64>()));
//@ accept arithmetic and comparison of f20 in constant expressions
constexpr f20 a = q<f20>(-7, 2), b = q<f20>(3, 4);
static_assert(all(a + b, b - a, a * b, a / b, a % b, a + 2, a - 1, a * 2, a / 2, a % 2, 2 + b, 3 - b, 2 * b, 3 / b, 3 % b, a.divide(b), a.divide(2), a == b, a != b, a < b, a <= b, a > b, a >= b, a <=> b, a.nearly_eq(b), a.nearly_ne(b), a.nearly_gt(b), a.nearly_lt(b), a.nearly_gt_eq(b), a.nearly_lt_eq(b)));
constexpr f20 chain() { f20 c = a; c += b; c -= b; c *= b; c /= b; c %= b; c += 2; c -= 1; c *= 2; c /= 2; c %= 2; c.divide_by(b); c.divide_by(2); return c; }
static_assert(all(chain()));
//@ accept conversions of f20 in constant expressions
constexpr f20 a = q<f20>(7, 2);
static_assert(all(f20(3), f20(3u), f20(3ll), f20(2.5), f20(2.5f), int(a), long(a), unsigned(a), double(a), float(a), f20(fixed32(1)), f20(fixed64(1)), f20(f8(1)), f20(f20(1)), f20(r32(1)), f20::template from_fixed_num_value<8>(256), f20::template from_fixed_num_value<60>(1ll << 60), f20::from_internal_value(5), a.internal_value(), a.integral_part(), a.fractional_part(), signbit(a)));
constexpr f20 parsed() { f20 x; return fixed_from_cstring("12.625", 6, x) ? x : f20(0); }
static_assert(all(parsed()));
//@ accept limits and constants of f20 are constants
static_assert(all(std::numeric_limits<f20>::min(), std::numeric_limits<f20>::max(), std::numeric_limits<f20>::lowest(), std::numeric_limits<f20>::epsilon(), f20::e(), f20::pi(), f20::pi_2(), f20::pi_4(), f20::double_pi(), numbers::e_v<f20>(), numbers::pi_v<f20>(), numbers::log2e_v<f20>(), numbers::ln2_v<f20>(), numbers::inv_pi_v<f20>()));
//@ accept arithmetic and comparison of f8 in constant expressions
constexpr f8 a = q<f8>(-7, 2), b = q<f8>(3, 4);
static_assert(all(a + b, b - a, a * b, a / b, a % b, a + 2, a - 1, a * 2, a / 2, a % 2, 2 + b, 3 - b, 2 * b, 3 / b, 3 % b, a.divide(b), a.divide(2), a == b, a != b, a < b, a <= b, a > b, a >= b, a <=> b, a.nearly_eq(b), a.nearly_ne(b), a.nearly_gt(b), a.nearly_lt(b), a.nearly_gt_eq(b), a.nearly_lt_eq(b)));
constexpr f8 chain() { f8 c = a; c += b; c -= b; c *= b; c /= b; c %= b; c += 2; c -= 1; c *= 2; c /= 2; c %= 2; c.divide_by(b); c.divide_by(2); return c; }
static_assert(all(chain()));
//@ accept conversions of f8 in constant expressions
constexpr f8 a = q<f8>(7, 2);
static_assert(all(f8(3), f8(3u), f8(3ll), f8(2.5), f8(2.5f), int(a), long(a), unsigned(a), double(a), float(a), f8(fixed32(1)), f8(fixed64(1)), f8(f8(1)), f8(f20(1)), f8(r32(1)), f8::template from_fixed_num_value<8>(256), f8::template from_fixed_num_value<60>(1ll << 60), f8::from_internal_value(5), a.internal_value(), a.integral_part(), a.fractional_part(), signbit(a)));
constexpr f8 parsed() { f8 x; return fixed_from_cstring("12.625", 6, x) ? x : f8(0); }
static_assert(all(parsed()));
//@ accept limits and constants of f8 are constants
static_assert(all(std::numeric_limits<f8>::min(), std::numeric_limits<f8>::max(), std::numeric_limits<f8>::lowest(), std::numeric_limits<f8>::epsilon(), f8::e(), f8::pi(), f8::pi_2(), f8::pi_4(), f8::double_pi(), numbers::e_v<f8>(), numbers::pi_v<f8>(), numbers::log2e_v<f8>(), numbers::ln2_v<f8>(), numbers::inv_pi_v<f8>()));
//@ accept arithmetic and comparison of r32 in constant expressions
constexpr r32 a = q<r32>(-7, 2), b = q<r32>(3, 4);
static_assert(all(a + b, b - a, a * b, a / b, a % b, a + 2, a - 1, a * 2, a / 2, a % 2, 2 + b, 3 - b, 2 * b, 3 / b, 3 % b, a.divide(b), a.divide(2), a == b, a != b, a < b, a <= b, a > b, a >= b, a <=> b, a.nearly_eq(b), a.nearly_ne(b), a.nearly_gt(b), a.nearly_lt(b), a.nearly_gt_eq(b), a.nearly_lt_eq(b)));
constexpr r32 chain() { r32 c = a; c += b; c -= b; c *= b; c /= b; c %= b; c += 2; c -= 1; c *= 2; c /= 2; c %= 2; c.divide_by(b); c.divide_by(2); return c; }
static_assert(all(chain()));
//@ accept conversions of r32 in constant expressions
constexpr r32 a = q<r32>(7, 2);
static_assert(all(r32(3), r32(3u), r32(3ll), r32(2.5), r32(2.5f), int(a), long(a), unsigned(a), double(a), float(a), r32(fixed32(1)), r32(fixed64(1)), r32(f8(1)), r32(f20(1)), r32(r32(1)), r32::template from_fixed_num_value<8>(256), r32::template from_fixed_num_value<60>(1ll << 60), r32::from_internal_value(5), a.internal_value(), a.integral_part(), a.fractional_part(), signbit(a)));
constexpr r32 parsed() { r32 x; return fixed_from_cstring("12.625", 6, x) ? x : r32(0); }
static_assert(all(parsed()));
//@ accept limits and constants of r32 are constants
static_assert(all(std::numeric_limits<r32>::min(), std::numeric_limits<r32>::max(), std::numeric_limits<r32>::lowest(), std::numeric_limits<r32>::epsilon(), r32::e(), r32::pi(), r32::pi_2(), r32::pi_4(), r32::double_pi(), numbers::e_v<r32>(), numbers::pi_v<r32>(), numbers::log2e_v<r32>(), numbers::ln2_v<r32>(), numbers::inv_pi_v<r32>()));
//@ accept arithmetic and comparison of r64 in constant expressions
constexpr r64 a = q<r64>(-7, 2), b = q<r64>(3, 4);
static_assert(all(a + b, b - a, a * b, a / b, a % b, a + 2, a - 1, a * 2, a / 2, a % 2, 2 + b, 3 - b, 2 * b, 3 / b, 3 % b, a.divide(b), a.divide(2), a == b, a != b, a < b, a <= b, a > b, a >= b, a <=> b, a.nearly_eq(b), a.nearly_ne(b), a.nearly_gt(b), a.nearly_lt(b), a.nearly_gt_eq(b), a.nearly_lt_eq(b)));
constexpr r64 chain() { r64 c = a; c += b; c -= b; c *= b; c /= b; c %= b; c += 2; c -= 1; c *= 2; c /= 2; c %= 2; c.divide_by(b); c.divide_by(2); return c; }
static_assert(all(chain()));
//@ accept conversions of r64 in constant expressions
constexpr r64 a = q<r64>(7, 2);
static_assert(all(r64(3), r64(3u), r64(3ll), r64(2.5), r64(2.5f), int(a), long(a), unsigned(a), double(a), float(a), r64(fixed32(1)), r64(fixed64(1)), r64(f8(1)), r64(f20(1)), r64(r32(1)), r64::template from_fixed_num_value<8>(256), r64::template from_fixed_num_value<60>(1ll << 60), r64::from_internal_value(5), a.internal_value(), a.integral_part(), a.fractional_part(), signbit(a)));
constexpr r64 parsed() { r64 x; return fixed_from_cstring("12.625", 6, x) ? x : r64(0); }
static_assert(all(parsed()));
//@ accept limits and constants of r64 are constants
static_assert(all(std::numeric_limits<r64>::min(), std::numeric_limits<r64>::max(), std::numeric_limits<r64>::lowest(), std::numeric_limits<r64>::epsilon(), r64::e(), r64::pi(), r64::pi_2(), r64::pi_4(), r64::double_pi(), numbers::e_v<r64>(), numbers::pi_v<r64>(), numbers::log2e_v<r64>(), numbers::ln2_v<r64>(), numbers::inv_pi_v<r64>()));
//@ accept arithmetic and comparison of u16f in constant expressions
constexpr u16f a = q<u16f>(7, 2), b = q<u16f>(3, 4);
static_assert(all(a + b, a - b, a * b, a / b, a % b, a + 2, a - 1, a * 2, a / 2, a % 2, 2 + b, 3 - b, 2 * b, 3 / b, 3 % b, a.divide(b), a.divide(2), a == b, a != b, a < b, a <= b, a > b, a >= b, a <=> b, a.nearly_eq(b), a.nearly_ne(b), a.nearly_gt(b), a.nearly_lt(b)));
//@ accept conversions of u16f in constant expressions
constexpr u16f a = q<u16f>(7, 2);
static_assert(all(u16f(3), u16f(3u), u16f(3ll), u16f(2.5), u16f(2.5f), int(a), long(a), unsigned(a), double(a), float(a), u16f(fixed32(1)), u16f(fixed64(1)), u16f(f8(1)), u16f(f20(1)), u16f(r32(1)), u16f::template from_fixed_num_value<8>(256), u16f::template from_fixed_num_value<60>(1ll << 60), u16f::from_internal_value(5), a.internal_value(), a.integral_part(), a.fractional_part(), signbit(a)));
constexpr u16f parsed() { u16f x; return fixed_from_cstring("12.625", 6, x) ? x : u16f(0); }
static_assert(all(parsed()));
//@ accept limits and constants of u16f are constants
static_assert(all(std::numeric_limits<u16f>::min(), std::numeric_limits<u16f>::max(), std::numeric_limits<u16f>::lowest(), std::numeric_limits<u16f>::epsilon(), u16f::e(), u16f::pi(), u16f::pi_2(), u16f::pi_4(), u16f::double_pi(), numbers::e_v<u16f>(), numbers::pi_v<u16f>(), numbers::log2e_v<u16f>(), numbers::ln2_v<u16f>(), numbers::inv_pi_v<u16f>()));
//@ accept rounding functions of fixed32 in constant expressions
constexpr fixed32 a = q<fixed32>(-7, 2), b = q<fixed32>(3, 4), c = q<fixed32>(5, 1);
constexpr fixed32 fraction_of(fixed32 x) { fixed32 w = x; fixed32 r = modf(x, w); return r + w; }
static_assert(all(ceil(a), ceil(b), ceil(c), floor(a), floor(b), floor(c), trunc(a), trunc(b), round(a), round(b), abs(a), abs(b), min(a, b), max(a, b), fmod(a, b), fraction_of(a), fraction_of(b), degrees(b), radians(c)));
//@ accept sqrt of fixed32 in constant expressions
static_assert(all(sqrt(q<fixed32>(0, 1)), sqrt(q<fixed32>(1, 4)), sqrt(q<fixed32>(2, 1)), sqrt(q<fixed32>(100, 1)), sqrt(q<fixed32>(1, 100))));
//@ accept cbrt of fixed32 in constant expressions
static_assert(all(cbrt(q<fixed32>(0, 1)), cbrt(q<fixed32>(8, 1)), cbrt(q<fixed32>(-8, 1)), cbrt(q<fixed32>(1, 8)), cbrt(q<fixed32>(100, 1))));
//@ accept sin of fixed32 in constant expressions
static_assert(all(sin(q<fixed32>(0, 1)), sin(q<fixed32>(1, 2)), sin(q<fixed32>(-1, 2)), sin(q<fixed32>(2, 1)), sin(q<fixed32>(4, 1)), sin(q<fixed32>(-6, 1)), sin(q<fixed32>(50, 1))));
//@ accept cos of fixed32 in constant expressions
static_assert(all(cos(q<fixed32>(0, 1)), cos(q<fixed32>(1, 2)), cos(q<fixed32>(-1, 2)), cos(q<fixed32>(2, 1)), cos(q<fixed32>(4, 1)), cos(q<fixed32>(-6, 1)), cos(q<fixed32>(50, 1))));
//@ accept tan of fixed32 in constant expressions
static_assert(all(tan(q<fixed32>(0, 1)), tan(q<fixed32>(1, 2)), tan(q<fixed32>(-1, 1)), tan(q<fixed32>(2, 1)), tan(q<fixed32>(4, 1))));
//@ accept atan of fixed32 in constant expressions
static_assert(all(atan(q<fixed32>(0, 1)), atan(q<fixed32>(1, 4)), atan(q<fixed32>(1, 1)), atan(q<fixed32>(3, 1)), atan(q<fixed32>(-3, 1)), atan(q<fixed32>(-1, 4))));
//@ accept asin of fixed32 in constant expressions
static_assert(all(asin(q<fixed32>(0, 1)), asin(q<fixed32>(1, 2)), asin(q<fixed32>(-1, 2)), asin(q<fixed32>(1, 1))));
//@ accept acos of fixed32 in constant expressions
static_assert(all(acos(q<fixed32>(0, 1)), acos(q<fixed32>(1, 2)), acos(q<fixed32>(-1, 2)), acos(q<fixed32>(1, 1))));
//@ accept log2 of fixed32 in constant expressions
static_assert(all(log2(q<fixed32>(1, 1)), log2(q<fixed32>(1, 4)), log2(q<fixed32>(3, 1)), log2(q<fixed32>(100, 1))));
//@ accept log of fixed32 in constant expressions
static_assert(all(log(q<fixed32>(1, 1)), log(q<fixed32>(1, 4)), log(q<fixed32>(3, 1)), log(q<fixed32>(100, 1))));
//@ accept log10 of fixed32 in constant expressions
static_assert(all(log10(q<fixed32>(1, 1)), log10(q<fixed32>(1, 4)), log10(q<fixed32>(3, 1)), log10(q<fixed32>(100, 1))));
//@ accept exp of fixed32 in constant expressions
static_assert(all(exp(q<fixed32>(0, 1)), exp(q<fixed32>(1, 1)), exp(q<fixed32>(-1, 1)), exp(q<fixed32>(1, 4)), exp(q<fixed32>(4, 1)), exp(q<fixed32>(-4, 1))));
//@ accept pow and hypot of fixed32 in constant expressions
static_assert(all(pow(q<fixed32>(3, 2), 3), pow(q<fixed32>(2, 1), -2), pow(q<fixed32>(2, 1), 0), pow(q<fixed32>(2, 1), q<fixed32>(3, 2)), pow(q<fixed32>(2, 1), q<fixed32>(-1, 2)), pow(q<fixed32>(3, 1), q<fixed32>(0, 1)), hypot(q<fixed32>(3, 1), q<fixed32>(4, 1)), hypot(q<fixed32>(1, 1), q<fixed32>(2, 1), q<fixed32>(2, 1))));
//@ accept rounding functions of fixed64 in constant expressions
constexpr fixed64 a = q<fixed64>(-7, 2), b = q<fixed64>(3, 4), c = q<fixed64>(5, 1);
constexpr fixed64 fraction_of(fixed64 x) { fixed64 w = x; fixed64 r = modf(x, w); return r + w; }
static_assert(all(ceil(a), ceil(b), ceil(c), floor(a), floor(b), floor(c), trunc(a), trunc(b), round(a), round(b), abs(a), abs(b), min(a, b), max(a, b), fmod(a, b), fraction_of(a), fraction_of(b), degrees(b), radians(c)));
//@ accept sqrt of fixed64 in constant expressions
static_assert(all(sqrt(q<fixed64>(0, 1)), sqrt(q<fixed64>(1, 4)), sqrt(q<fixed64>(2, 1)), sqrt(q<fixed64>(100, 1)), sqrt(q<fixed64>(1, 100))));
//@ accept cbrt of fixed64 in constant expressions
static_assert(all(cbrt(q<fixed64>(0, 1)), cbrt(q<fixed64>(8, 1)), cbrt(q<fixed64>(-8, 1)), cbrt(q<fixed64>(1, 8)), cbrt(q<fixed64>(100, 1))));
//@ accept sin of fixed64 in constant expressions
static_assert(all(sin(q<fixed64>(0, 1)), sin(q<fixed64>(1, 2)), sin(q<fixed64>(-1, 2)), sin(q<fixed64>(2, 1)), sin(q<fixed64>(4, 1)), sin(q<fixed64>(-6, 1)), sin(q<fixed64>(50, 1))));
//@ accept cos of fixed64 in constant expressions
static_assert(all(cos(q<fixed64>(0, 1)), cos(q<fixed64>(1, 2)), cos(q<fixed64>(-1, 2)), cos(q<fixed64>(2, 1)), cos(q<fixed64>(4, 1)), cos(q<fixed64>(-6, 1)), cos(q<fixed64>(50, 1))));
//@ accept tan of fixed64 in constant expressions
static_assert(all(tan(q<fixed64>(0, 1)), tan(q<fixed64>(1, 2)), tan(q<fixed64>(-1, 1)), tan(q<fixed64>(2, 1)), tan(q<fixed64>(4, 1))));
//@ accept atan of fixed64 in constant expressions
static_assert(all(atan(q<fixed64>(0, 1)), atan(q<fixed64>(1, 4)), atan(q<fixed64>(1, 1)), atan(q<fixed64>(3, 1)), atan(q<fixed64>(-3, 1)), atan(q<fixed64>(-1, 4))));
//@ accept asin of fixed64 in constant expressions
static_assert(all(asin(q<fixed64>(0, 1)), asin(q<fixed64>(1, 2)), asin(q<fixed64>(-1, 2)), asin(q<fixed64>(1, 1))));
//@ accept acos of fixed64 in constant expressions
static_assert(all(acos(q<fixed64>(0, 1)), acos(q<fixed64>(1, 2)), acos(q<fixed64>(-1, 2)), acos(q<fixed64>(1, 1))));
//@ accept log2 of fixed64 in constant expressions
static_assert(all(log2(q<fixed64>(1, 1)), log2(q<fixed64>(1, 4)), log2(q<fixed64>(3, 1)), log2(q<fixed64>(100, 1))));
//@ accept log of fixed64 in constant expressions
static_assert(all(log(q<fixed64>(1, 1)), log(q<fixed64>(1, 4)), log(q<fixed64>(3, 1)), log(q<fixed64>(100, 1))));
//@ accept log10 of fixed64 in constant expressions
static_assert(all(log10(q<fixed64>(1, 1)), log10(q<fixed64>(1, 4)), log10(q<fixed64>(3, 1)), log10(q<fixed64>(100, 1))));
//@ accept exp of fixed64 in constant expressions
static_assert(all(exp(q<fixed64>(0, 1)), exp(q<fixed64>(1, 1)), exp(q<fixed64>(-1, 1)), exp(q<fixed64>(1, 4)), exp(q<fixed64>(4, 1)), exp(q<fixed64>(-4, 1))));
//@ accept pow and hypot of fixed64 in constant expressions
static_assert(all(pow(q<fixed64>(3, 2), 3), pow(q<fixed64>(2, 1), -2), pow(q<fixed64>(2, 1), 0), pow(q<fixed64>(2, 1), q<fixed64>(3, 2)), pow(q<fixed64>(2, 1), q<fixed64>(-1, 2)), pow(q<fixed64>(3, 1), q<fixed64>(0, 1)), hypot(q<fixed64>(3, 1), q<fixed64>(4, 1)), hypot(q<fixed64>(1, 1), q<fixed64>(2, 1), q<fixed64>(2, 1))));
//@ accept rounding functions of f20 in constant expressions
constexpr f20 a = q<f20>(-7, 2), b = q<f20>(3, 4), c = q<f20>(5, 1);
constexpr f20 fraction_of(f20 x) { f20 w = x; f20 r = modf(x, w); return r + w; }
static_assert(all(ceil(a), ceil(b), ceil(c), floor(a), floor(b), floor(c), trunc(a), trunc(b), round(a), round(b), abs(a), abs(b), min(a, b), max(a, b), fmod(a, b), fraction_of(a), fraction_of(b), degrees(b), radians(c)));
//@ accept sqrt of f20 in constant expressions
static_assert(all(sqrt(q<f20>(0, 1)), sqrt(q<f20>(1, 4)), sqrt(q<f20>(2, 1)), sqrt(q<f20>(100, 1)), sqrt(q<f20>(1, 100))));
//@ accept cbrt of f20 in constant expressions
static_assert(all(cbrt(q<f20>(0, 1)), cbrt(q<f20>(8, 1)), cbrt(q<f20>(-8, 1)), cbrt(q<f20>(1, 8)), cbrt(q<f20>(100, 1))));
//@ accept sin of f20 in constant expressions
static_assert(all(sin(q<f20>(0, 1)), sin(q<f20>(1, 2)), sin(q<f20>(-1, 2)), sin(q<f20>(2, 1)), sin(q<f20>(4, 1)), sin(q<f20>(-6, 1)), sin(q<f20>(50, 1))));
//@ accept cos of f20 in constant expressions
static_assert(all(cos(q<f20>(0, 1)), cos(q<f20>(1, 2)), cos(q<f20>(-1, 2)), cos(q<f20>(2, 1)), cos(q<f20>(4, 1)), cos(q<f20>(-6, 1)), cos(q<f20>(50, 1))));
//@ accept tan of f20 in constant expressions
static_assert(all(tan(q<f20>(0, 1)), tan(q<f20>(1, 2)), tan(q<f20>(-1, 1)), tan(q<f20>(2, 1)), tan(q<f20>(4, 1))));
//@ accept atan of f20 in constant expressions
static_assert(all(atan(q<f20>(0, 1)), atan(q<f20>(1, 4)), atan(q<f20>(1, 1)), atan(q<f20>(3, 1)), atan(q<f20>(-3, 1)), atan(q<f20>(-1, 4))));
//@ accept asin of f20 in constant expressions
static_assert(all(asin(q<f20>(0, 1)), asin(q<f20>(1, 2)), asin(q<f20>(-1, 2)), asin(q<f20>(1, 1))));
//@ accept acos of f20 in constant expressions
static_assert(all(acos(q<f20>(0, 1)), acos(q<f20>(1, 2)), acos(q<f20>(-1, 2)), acos(q<f20>(1, 1))));
//@ accept log2 of f20 in constant expressions
static_assert(all(log2(q<f20>(1, 1)), log2(q<f20>(1, 4)), log2(q<f20>(3, 1)), log2(q<f20>(100, 1))));
//@ accept log of f20 in constant expressions
static_assert(all(log(q<f20>(1, 1)), log(q<f20>(1, 4)), log(q<f20>(3, 1)), log(q<f20>(100, 1))));
//@ accept log10 of f20 in constant expressions
static_assert(all(log10(q<f20>(1, 1)), log10(q<f20>(1, 4)), log10(q<f20>(3, 1)), log10(q<f20>(100, 1))));
//@ accept exp of f20 in constant expressions
static_assert(all(exp(q<f20>(0, 1)), exp(q<f20>(1, 1)), exp(q<f20>(-1, 1)), exp(q<f20>(1, 4)), exp(q<f20>(4, 1)), exp(q<f20>(-4, 1))));
//@ accept pow and hypot of f20 in constant expressions
static_assert(all(pow(q<f20>(3, 2), 3), pow(q<f20>(2, 1), -2), pow(q<f20>(2, 1), 0), pow(q<f20>(2, 1), q<f20>(3, 2)), pow(q<f20>(2, 1), q<f20>(-1, 2)), pow(q<f20>(3, 1), q<f20>(0, 1)), hypot(q<f20>(3, 1), q<f20>(4, 1)), hypot(q<f20>(1, 1), q<f20>(2, 1), q<f20>(2, 1))));
//@ accept rounding functions of f8 in constant expressions
constexpr f8 a = q<f8>(-7, 2), b = q<f8>(3, 4), c = q<f8>(5, 1);
constexpr f8 fraction_of(f8 x) { f8 w = x; f8 r = modf(x, w); return r + w; }
static_assert(all(ceil(a), ceil(b), ceil(c), floor(a), floor(b), floor(c), trunc(a), trunc(b), round(a), round(b), abs(a), abs(b), min(a, b), max(a, b), fmod(a, b), fraction_of(a), fraction_of(b), degrees(b), radians(c)));
//@ accept sqrt of f8 in constant expressions
static_assert(all(sqrt(q<f8>(0, 1)), sqrt(q<f8>(1, 4)), sqrt(q<f8>(2, 1)), sqrt(q<f8>(100, 1)), sqrt(q<f8>(1, 100))));
//@ accept cbrt of f8 in constant expressions
static_assert(all(cbrt(q<f8>(0, 1)), cbrt(q<f8>(8, 1)), cbrt(q<f8>(-8, 1)), cbrt(q<f8>(1, 8)), cbrt(q<f8>(100, 1))));
//@ accept sin of f8 in constant expressions
static_assert(all(sin(q<f8>(0, 1)), sin(q<f8>(1, 2)), sin(q<f8>(-1, 2)), sin(q<f8>(2, 1)), sin(q<f8>(4, 1)), sin(q<f8>(-6, 1)), sin(q<f8>(50, 1))));
//@ accept cos of f8 in constant expressions
static_assert(all(cos(q<f8>(0, 1)), cos(q<f8>(1, 2)), cos(q<f8>(-1, 2)), cos(q<f8>(2, 1)), cos(q<f8>(4, 1)), cos(q<f8>(-6, 1)), cos(q<f8>(50, 1))));
//@ accept tan of f8 in constant expressions
static_assert(all(tan(q<f8>(0, 1)), tan(q<f8>(1, 2)), tan(q<f8>(-1, 1)), tan(q<f8>(2, 1)), tan(q<f8>(4, 1))));
//@ accept atan of f8 in constant expressions
static_assert(all(atan(q<f8>(0, 1)), atan(q<f8>(1, 4)), atan(q<f8>(1, 1)), atan(q<f8>(3, 1)), atan(q<f8>(-3, 1)), atan(q<f8>(-1, 4))));
//@ accept asin of f8 in constant expressions
static_assert(all(asin(q<f8>(0, 1)), asin(q<f8>(1, 2)), asin(q<f8>(-1, 2)), asin(q<f8>(1, 1))));
//@ accept acos of f8 in constant expressions
static_assert(all(acos(q<f8>(0, 1)), acos(q<f8>(1, 2)), acos(q<f8>(-1, 2)), acos(q<f8>(1, 1))));
//@ accept log2 of f8 in constant expressions
static_assert(all(log2(q<f8>(1, 1)), log2(q<f8>(1, 4)), log2(q<f8>(3, 1)), log2(q<f8>(100, 1))));
//@ accept log of f8 in constant expressions
static_assert(all(log(q<f8>(1, 1)), log(q<f8>(1, 4)), log(q<f8>(3, 1)), log(q<f8>(100, 1))));
//@ accept log10 of f8 in constant expressions
static_assert(all(log10(q<f8>(1, 1)), log10(q<f8>(1, 4)), log10(q<f8>(3, 1)), log10(q<f8>(100, 1))));
//@ accept exp of f8 in constant expressions
static_assert(all(exp(q<f8>(0, 1)), exp(q<f8>(1, 1)), exp(q<f8>(-1, 1)), exp(q<f8>(1, 4)), exp(q<f8>(4, 1)), exp(q<f8>(-4, 1))));
//@ accept pow and hypot of f8 in constant expressions
static_assert(all(pow(q<f8>(3, 2), 3), pow(q<f8>(2, 1), -2), pow(q<f8>(2, 1), 0), pow(q<f8>(2, 1), q<f8>(3, 2)), pow(q<f8>(2, 1), q<f8>(-1, 2)), pow(q<f8>(3, 1), q<f8>(0, 1)), hypot(q<f8>(3, 1), q<f8>(4, 1)), hypot(q<f8>(1, 1), q<f8>(2, 1), q<f8>(2, 1))));
//@ accept rounding functions of r32 in constant expressions
constexpr r32 a = q<r32>(-7, 2), b = q<r32>(3, 4), c = q<r32>(5, 1);
constexpr r32 fraction_of(r32 x) { r32 w = x; r32 r = modf(x, w); return r + w; }
static_assert(all(ceil(a), ceil(b), ceil(c), floor(a), floor(b), floor(c), trunc(a), trunc(b), round(a), round(b), abs(a), abs(b), min(a, b), max(a, b), fmod(a, b), fraction_of(a), fraction_of(b), degrees(b), radians(c)));
//@ accept sqrt of r32 in constant expressions
static_assert(all(sqrt(q<r32>(0, 1)), sqrt(q<r32>(1, 4)), sqrt(q<r32>(2, 1)), sqrt(q<r32>(100, 1)), sqrt(q<r32>(1, 100))));
//@ accept cbrt of r32 in constant expressions
static_assert(all(cbrt(q<r32>(0, 1)), cbrt(q<r32>(8, 1)), cbrt(q<r32>(-8, 1)), cbrt(q<r32>(1, 8)), cbrt(q<r32>(100, 1))));
//@ accept sin of r32 in constant expressions
static_assert(all(sin(q<r32>(0, 1)), sin(q<r32>(1, 2)), sin(q<r32>(-1, 2)), sin(q<r32>(2, 1)), sin(q<r32>(4, 1)), sin(q<r32>(-6, 1)), sin(q<r32>(50, 1))));
//@ accept cos of r32 in constant expressions
static_assert(all(cos(q<r32>(0, 1)), cos(q<r32>(1, 2)), cos(q<r32>(-1, 2)), cos(q<r32>(2, 1)), cos(q<r32>(4, 1)), cos(q<r32>(-6, 1)), cos(q<r32>(50, 1))));
//@ accept tan of r32 in constant expressions
static_assert(all(tan(q<r32>(0, 1)), tan(q<r32>(1, 2)), tan(q<r32>(-1, 1)), tan(q<r32>(2, 1)), tan(q<r32>(4, 1))));
//@ accept atan of r32 in constant expressions
static_assert(all(atan(q<r32>(0, 1)), atan(q<r32>(1, 4)), atan(q<r32>(1, 1)), atan(q<r32>(3, 1)), atan(q<r32>(-3, 1)), atan(q<r32>(-1, 4))));
//@ accept asin of r32 in constant expressions
static_assert(all(asin(q<r32>(0, 1)), asin(q<r32>(1, 2)), asin(q<r32>(-1, 2)), asin(q<r32>(1, 1))));
//@ accept acos of r32 in constant expressions
static_assert(all(acos(q<r32>(0, 1)), acos(q<r32>(1, 2)), acos(q<r32>(-1, 2)), acos(q<r32>(1, 1))));
//@ accept log2 of r32 in constant expressions
static_assert(all(log2(q<r32>(1, 1)), log2(q<r32>(1, 4)), log2(q<r32>(3, 1)), log2(q<r32>(100, 1))));
//@ accept log of r32 in constant expressions
static_assert(all(log(q<r32>(1, 1)), log(q<r32>(1, 4)), log(q<r32>(3, 1)), log(q<r32>(100, 1))));
//@ accept log10 of r32 in constant expressions
static_assert(all(log10(q<r32>(1, 1)), log10(q<r32>(1, 4)), log10(q<r32>(3, 1)), log10(q<r32>(100, 1))));
//@ accept exp of r32 in constant expressions
static_assert(all(exp(q<r32>(0, 1)), exp(q<r32>(1, 1)), exp(q<r32>(-1, 1)), exp(q<r32>(1, 4)), exp(q<r32>(4, 1)), exp(q<r32>(-4, 1))));
//@ accept pow and hypot of r32 in constant expressions
static_assert(all(pow(q<r32>(3, 2), 3), pow(q<r32>(2, 1), -2), pow(q<r32>(2, 1), 0), pow(q<r32>(2, 1), q<r32>(3, 2)), pow(q<r32>(2, 1), q<r32>(-1, 2)), pow(q<r32>(3, 1), q<r32>(0, 1)), hypot(q<r32>(3, 1), q<r32>(4, 1)), hypot(q<r32>(1, 1), q<r32>(2, 1), q<r32>(2, 1))));
//@ accept rounding functions of r64 in constant expressions
constexpr r64 a = q<r64>(-7, 2), b = q<r64>(3, 4), c = q<r64>(5, 1);
constexpr r64 fraction_of(r64 x) { r64 w = x; r64 r = modf(x, w); return r + w; }
static_assert(all(ceil(a), ceil(b), ceil(c), floor(a), floor(b), floor(c), trunc(a), trunc(b), round(a), round(b), abs(a), abs(b), min(a, b), max(a, b), fmod(a, b), fraction_of(a), fraction_of(b), degrees(b), radians(c)));
//@ accept sqrt of r64 in constant expressions
static_assert(all(sqrt(q<r64>(0, 1)), sqrt(q<r64>(1, 4)), sqrt(q<r64>(2, 1)), sqrt(q<r64>(100, 1)), sqrt(q<r64>(1, 100))));
//@ accept cbrt of r64 in constant expressions
static_assert(all(cbrt(q<r64>(0, 1)), cbrt(q<r64>(8, 1)), cbrt(q<r64>(-8, 1)), cbrt(q<r64>(1, 8)), cbrt(q<r64>(100, 1))));
//@ accept sin of r64 in constant expressions
static_assert(all(sin(q<r64>(0, 1)), sin(q<r64>(1, 2)), sin(q<r64>(-1, 2)), sin(q<r64>(2, 1)), sin(q<r64>(4, 1)), sin(q<r64>(-6, 1)), sin(q<r64>(50, 1))));
//@ accept cos of r64 in constant expressions
static_assert(all(cos(q<r64>(0, 1)), cos(q<r64>(1, 2)), cos(q<r64>(-1, 2)), cos(q<r64>(2, 1)), cos(q<r64>(4, 1)), cos(q<r64>(-6, 1)), cos(q<r64>(50, 1))));
//@ accept tan of r64 in constant expressions
static_assert(all(tan(q<r64>(0, 1)), tan(q<r64>(1, 2)), tan(q<r64>(-1, 1)), tan(q<r64>(2, 1)), tan(q<r64>(4, 1))));
//@ accept atan of r64 in constant expressions
static_assert(all(atan(q<r64>(0, 1)), atan(q<r64>(1, 4)), atan(q<r64>(1, 1)), atan(q<r64>(3, 1)), atan(q<r64>(-3, 1)), atan(q<r64>(-1, 4))));
//@ accept asin of r64 in constant expressions
static_assert(all(asin(q<r64>(0, 1)), asin(q<r64>(1, 2)), asin(q<r64>(-1, 2)), asin(q<r64>(1, 1))));
//@ accept acos of r64 in constant expressions
static_assert(all(acos(q<r64>(0, 1)), acos(q<r64>(1, 2)), acos(q<r64>(-1, 2)), acos(q<r64>(1, 1))));
//@ accept log2 of r64 in constant expressions
static_assert(all(log2(q<r64>(1, 1)), log2(q<r64>(1, 4)), log2(q<r64>(3, 1)), log2(q<r64>(100, 1))));
//@ accept log of r64 in constant expressions
static_assert(all(log(q<r64>(1, 1)), log(q<r64>(1, 4)), log(q<r64>(3, 1)), log(q<r64>(100, 1))));
//@ accept log10 of r64 in constant expressions
static_assert(all(log10(q<r64>(1, 1)), log10(q<r64>(1, 4)), log10(q<r64>(3, 1)), log10(q<r64>(100, 1))));
//@ accept exp of r64 in constant expressions
static_assert(all(exp(q<r64>(0, 1)), exp(q<r64>(1, 1)), exp(q<r64>(-1, 1)), exp(q<r64>(1, 4)), exp(q<r64>(4, 1)), exp(q<r64>(-4, 1))));
//@ accept pow and hypot of r64 in constant expressions
static_assert(all(pow(q<r64>(3, 2), 3), pow(q<r64>(2, 1), -2), pow(q<r64>(2, 1), 0), pow(q<r64>(2, 1), q<r64>(3, 2)), pow(q<r64>(2, 1), q<r64>(-1, 2)), pow(q<r64>(3, 1), q<r64>(0, 1)), hypot(q<r64>(3, 1), q<r64>(4, 1)), hypot(q<r64>(1, 1), q<r64>(2, 1), q<r64>(2, 1))));
//@ accept arithmetic and comparison of q16 in constant expressions
constexpr q16 a = q<q16>(-7, 2), b = q<q16>(3, 4);
static_assert(all(a + b, b - a, a * b, a / b, a % b, a + 2, a - 1, a * 2, a / 2, a % 2, 2 + b, 3 - b, 2 * b, 3 / b, 3 % b, a.divide(b), a.divide(2), a == b, a != b, a < b, a <= b, a > b, a >= b, a <=> b, a.nearly_eq(b), a.nearly_ne(b), a.nearly_gt(b), a.nearly_lt(b), a.nearly_gt_eq(b), a.nearly_lt_eq(b)));
constexpr q16 chain() { q16 c = a; c += b; c -= b; c *= b; c /= b; c %= b; c += 2; c -= 1; c *= 2; c /= 2; c %= 2; c.divide_by(b); c.divide_by(2); return c; }
static_assert(all(chain()));
//@ accept conversions of q16 in constant expressions
constexpr q16 a = q<q16>(7, 2);
static_assert(all(q16(3), q16(3u), q16(3ll), q16(2.5), q16(2.5f), int(a), long(a), unsigned(a), double(a), float(a), q16(fixed32(1)), q16(fixed64(1)), q16(f8(1)), q16(f20(1)), q16(r32(1)), q16::template from_fixed_num_value<8>(256), q16::template from_fixed_num_value<60>(1ll << 60), q16::from_internal_value(5), a.internal_value(), a.integral_part(), a.fractional_part(), signbit(a)));
constexpr q16 parsed() { q16 x; return fixed_from_cstring("12.625", 6, x) ? x : q16(0); }
static_assert(all(parsed()));
//@ accept limits and constants of q16 are constants
static_assert(all(std::numeric_limits<q16>::min(), std::numeric_limits<q16>::max(), std::numeric_limits<q16>::lowest(), std::numeric_limits<q16>::epsilon(), q16::e(), q16::pi(), q16::pi_2(), q16::pi_4(), q16::double_pi(), numbers::e_v<q16>(), numbers::pi_v<q16>(), numbers::log2e_v<q16>(), numbers::ln2_v<q16>(), numbers::inv_pi_v<q16>()));
//@ accept rounding functions of q16 in constant expressions
constexpr q16 a = q<q16>(-7, 2), b = q<q16>(3, 4), c = q<q16>(5, 1);
constexpr q16 fraction_of(q16 x) { q16 w = x; q16 r = modf(x, w); return r + w; }
static_assert(all(ceil(a), ceil(b), ceil(c), floor(a), floor(b), floor(c), trunc(a), trunc(b), round(a), round(b), abs(a), abs(b), min(a, b), max(a, b), fmod(a, b), fraction_of(a), fraction_of(b), degrees(b), radians(c)));
//@ accept sqrt of q16 in constant expressions
static_assert(all(sqrt(q<q16>(0, 1)), sqrt(q<q16>(1, 4)), sqrt(q<q16>(2, 1)), sqrt(q<q16>(100, 1)), sqrt(q<q16>(1, 100))));
//@ accept cbrt of q16 in constant expressions
static_assert(all(cbrt(q<q16>(0, 1)), cbrt(q<q16>(8, 1)), cbrt(q<q16>(-8, 1)), cbrt(q<q16>(1, 8)), cbrt(q<q16>(100, 1))));
//@ accept sin of q16 in constant expressions
static_assert(all(sin(q<q16>(0, 1)), sin(q<q16>(1, 2)), sin(q<q16>(-1, 2)), sin(q<q16>(2, 1)), sin(q<q16>(4, 1)), sin(q<q16>(-6, 1)), sin(q<q16>(50, 1))));
//@ accept cos of q16 in constant expressions
static_assert(all(cos(q<q16>(0, 1)), cos(q<q16>(1, 2)), cos(q<q16>(-1, 2)), cos(q<q16>(2, 1)), cos(q<q16>(4, 1)), cos(q<q16>(-6, 1)), cos(q<q16>(50, 1))));
//@ accept tan of q16 in constant expressions
static_assert(all(tan(q<q16>(0, 1)), tan(q<q16>(1, 2)), tan(q<q16>(-1, 1)), tan(q<q16>(2, 1)), tan(q<q16>(4, 1))));
//@ accept atan of q16 in constant expressions
static_assert(all(atan(q<q16>(0, 1)), atan(q<q16>(1, 4)), atan(q<q16>(1, 1)), atan(q<q16>(3, 1)), atan(q<q16>(-3, 1)), atan(q<q16>(-1, 4))));
//@ accept asin of q16 in constant expressions
static_assert(all(asin(q<q16>(0, 1)), asin(q<q16>(1, 2)), asin(q<q16>(-1, 2)), asin(q<q16>(1, 1))));
//@ accept acos of q16 in constant expressions
static_assert(all(acos(q<q16>(0, 1)), acos(q<q16>(1, 2)), acos(q<q16>(-1, 2)), acos(q<q16>(1, 1))));
//@ accept log2 of q16 in constant expressions
static_assert(all(log2(q<q16>(1, 1)), log2(q<q16>(1, 4)), log2(q<q16>(3, 1)), log2(q<q16>(100, 1))));
//@ accept log of q16 in constant expressions
static_assert(all(log(q<q16>(1, 1)), log(q<q16>(1, 4)), log(q<q16>(3, 1)), log(q<q16>(100, 1))));
//@ accept log10 of q16 in constant expressions
static_assert(all(log10(q<q16>(1, 1)), log10(q<q16>(1, 4)), log10(q<q16>(3, 1)), log10(q<q16>(100, 1))));
//@ accept exp of q16 in constant expressions
static_assert(all(exp(q<q16>(0, 1)), exp(q<q16>(1, 1)), exp(q<q16>(-1, 1)), exp(q<q16>(1, 4)), exp(q<q16>(4, 1)), exp(q<q16>(-4, 1))));
//@ accept pow and hypot of q16 in constant expressions
static_assert(all(pow(q<q16>(3, 2), 3), pow(q<q16>(2, 1), -2), pow(q<q16>(2, 1), 0), pow(q<q16>(2, 1), q<q16>(3, 2)), pow(q<q16>(2, 1), q<q16>(-1, 2)), pow(q<q16>(3, 1), q<q16>(0, 1)), hypot(q<q16>(3, 1), q<q16>(4, 1)), hypot(q<q16>(1, 1), q<q16>(2, 1), q<q16>(2, 1))));
//@ accept arithmetic and comparison of q48 in constant expressions
constexpr q48 a = q<q48>(-7, 2), b = q<q48>(3, 4);
static_assert(all(a + b, b - a, a * b, a / b, a % b, a + 2, a - 1, a * 2, a / 2, a % 2, 2 + b, 3 - b, 2 * b, 3 / b, 3 % b, a.divide(b), a.divide(2), a == b, a != b, a < b, a <= b, a > b, a >= b, a <=> b, a.nearly_eq(b), a.nearly_ne(b), a.nearly_gt(b), a.nearly_lt(b), a.nearly_gt_eq(b), a.nearly_lt_eq(b)));
constexpr q48 chain() { q48 c = a; c += b; c -= b; c *= b; c /= b; c %= b; c += 2; c -= 1; c *= 2; c /= 2; c %= 2; c.divide_by(b); c.divide_by(2); return c; }
static_assert(all(chain()));
//@ accept conversions of q48 in constant expressions
constexpr q48 a = q<q48>(7, 2);
static_assert(all(q48(3), q48(3u), q48(3ll), q48(2.5), q48(2.5f), int(a), long(a), unsigned(a), double(a), float(a), q48(fixed32(1)), q48(fixed64(1)), q48(f8(1)), q48(f20(1)), q48(r32(1)), q48::template from_fixed_num_value<8>(256), q48::template from_fixed_num_value<60>(1ll << 60), q48::from_internal_value(5), a.internal_value(), a.integral_part(), a.fractional_part(), signbit(a)));
constexpr q48 parsed() { q48 x; return fixed_from_cstring("12.625", 6, x) ? x : q48(0); }
static_assert(all(parsed()));
//@ accept limits and constants of q48 are constants
static_assert(all(std::numeric_limits<q48>::min(), std::numeric_limits<q48>::max(), std::numeric_limits<q48>::lowest(), std::numeric_limits<q48>::epsilon(), q48::e(), q48::pi(), q48::pi_2(), q48::pi_4(), q48::double_pi(), numbers::e_v<q48>(), numbers::pi_v<q48>(), numbers::log2e_v<q48>(), numbers::ln2_v<q48>(), numbers::inv_pi_v<q48>()));
//@ accept rounding functions of q48 in constant expressions
constexpr q48 a = q<q48>(-7, 2), b = q<q48>(3, 4), c = q<q48>(5, 1);
constexpr q48 fraction_of(q48 x) { q48 w = x; q48 r = modf(x, w); return r + w; }
static_assert(all(ceil(a), ceil(b), ceil(c), floor(a), floor(b), floor(c), trunc(a), trunc(b), round(a), round(b), abs(a), abs(b), min(a, b), max(a, b), fmod(a, b), fraction_of(a), fraction_of(b), degrees(b), radians(c)));
//@ accept sqrt of q48 in constant expressions
static_assert(all(sqrt(q<q48>(0, 1)), sqrt(q<q48>(1, 4)), sqrt(q<q48>(2, 1)), sqrt(q<q48>(100, 1)), sqrt(q<q48>(1, 100))));
//@ accept cbrt of q48 in constant expressions
static_assert(all(cbrt(q<q48>(0, 1)), cbrt(q<q48>(8, 1)), cbrt(q<q48>(-8, 1)), cbrt(q<q48>(1, 8)), cbrt(q<q48>(100, 1))));
//@ accept sin of q48 in constant expressions
static_assert(all(sin(q<q48>(0, 1)), sin(q<q48>(1, 2)), sin(q<q48>(-1, 2)), sin(q<q48>(2, 1)), sin(q<q48>(4, 1)), sin(q<q48>(-6, 1)), sin(q<q48>(50, 1))));
//@ accept cos of q48 in constant expressions
static_assert(all(cos(q<q48>(0, 1)), cos(q<q48>(1, 2)), cos(q<q48>(-1, 2)), cos(q<q48>(2, 1)), cos(q<q48>(4, 1)), cos(q<q48>(-6, 1)), cos(q<q48>(50, 1))));
//@ accept tan of q48 in constant expressions
static_assert(all(tan(q<q48>(0, 1)), tan(q<q48>(1, 2)), tan(q<q48>(-1, 1)), tan(q<q48>(2, 1)), tan(q<q48>(4, 1))));
//@ accept atan of q48 in constant expressions
static_assert(all(atan(q<q48>(0, 1)), atan(q<q48>(1, 4)), atan(q<q48>(1, 1)), atan(q<q48>(3, 1)), atan(q<q48>(-3, 1)), atan(q<q48>(-1, 4))));
//@ accept asin of q48 in constant expressions
static_assert(all(asin(q<q48>(0, 1)), asin(q<q48>(1, 2)), asin(q<q48>(-1, 2)), asin(q<q48>(1, 1))));
//@ accept acos of q48 in constant expressions
static_assert(all(acos(q<q48>(0, 1)), acos(q<q48>(1, 2)), acos(q<q48>(-1, 2)), acos(q<q48>(1, 1))));
//@ accept log2 of q48 in constant expressions
static_assert(all(log2(q<q48>(1, 1)), log2(q<q48>(1, 4)), log2(q<q48>(3, 1)), log2(q<q48>(100, 1))));
//@ accept log of q48 in constant expressions
static_assert(all(log(q<q48>(1, 1)), log(q<q48>(1, 4)), log(q<q48>(3, 1)), log(q<q48>(100, 1))));
//@ accept log10 of q48 in constant expressions
static_assert(all(log10(q<q48>(1, 1)), log10(q<q48>(1, 4)), log10(q<q48>(3, 1)), log10(q<q48>(100, 1))));
//@ accept exp of q48 in constant expressions
static_assert(all(exp(q<q48>(0, 1)), exp(q<q48>(1, 1)), exp(q<q48>(-1, 1)), exp(q<q48>(1, 4)), exp(q<q48>(4, 1)), exp(q<q48>(-4, 1))));
//@ accept pow and hypot of q48 in constant expressions
static_assert(all(pow(q<q48>(3, 2), 3), pow(q<q48>(2, 1), -2), pow(q<q48>(2, 1), 0), pow(q<q48>(2, 1), q<q48>(3, 2)), pow(q<q48>(2, 1), q<q48>(-1, 2)), pow(q<q48>(3, 1), q<q48>(0, 1)), hypot(q<q48>(3, 1), q<q48>(4, 1)), hypot(q<q48>(1, 1), q<q48>(2, 1), q<q48>(2, 1))));
//@ accept arithmetic and comparison of b4 in constant expressions
constexpr b4 a = q<b4>(-7, 2), b = q<b4>(3, 4);
static_assert(all(a + b, b - a, a * b, a / b, a % b, a + 2, a - 1, a * 2, a / 2, a % 2, 2 + b, 3 - b, 2 * b, 3 / b, 3 % b, a.divide(b), a.divide(2), a == b, a != b, a < b, a <= b, a > b, a >= b, a <=> b, a.nearly_eq(b), a.nearly_ne(b), a.nearly_gt(b), a.nearly_lt(b), a.nearly_gt_eq(b), a.nearly_lt_eq(b)));
constexpr b4 chain() { b4 c = a; c += b; c -= b; c *= b; c /= b; c %= b; c += 2; c -= 1; c *= 2; c /= 2; c %= 2; c.divide_by(b); c.divide_by(2); return c; }
static_assert(all(chain()));
//@ accept conversions of b4 in constant expressions
constexpr b4 a = q<b4>(7, 2);
static_assert(all(b4(3), b4(3u), b4(3ll), b4(2.5), b4(2.5f), int(a), long(a), unsigned(a), double(a), float(a), b4(fixed32(1)), b4(fixed64(1)), b4(b4(1)), b4(f20(1)), b4(r32(1)), b4::template from_fixed_num_value<8>(256), b4::template from_fixed_num_value<60>(1ll << 60), b4::from_internal_value(5), a.internal_value(), a.integral_part(), a.fractional_part(), signbit(a)));
constexpr b4 parsed() { b4 x; return fixed_from_cstring("12.625", 6, x) ? x : b4(0); }
static_assert(all(parsed()));
//@ accept limits and constants of b4 are constants
static_assert(all(std::numeric_limits<b4>::min(), std::numeric_limits<b4>::max(), std::numeric_limits<b4>::lowest(), std::numeric_limits<b4>::epsilon(), b4::e(), b4::pi(), b4::pi_2(), b4::pi_4(), b4::double_pi(), numbers::e_v<b4>(), numbers::pi_v<b4>(), numbers::log2e_v<b4>(), numbers::ln2_v<b4>(), numbers::inv_pi_v<b4>()));
//@ accept rounding functions of b4 in constant expressions
constexpr b4 a = q<b4>(-7, 2), b = q<b4>(3, 4), c = q<b4>(5, 1);
constexpr b4 fraction_of(b4 x) { b4 w = x; b4 r = modf(x, w); return r + w; }
static_assert(all(ceil(a), ceil(b), ceil(c), floor(a), floor(b), floor(c), trunc(a), trunc(b), round(a), round(b), abs(a), abs(b), min(a, b), max(a, b), fmod(a, b), fraction_of(a), fraction_of(b), degrees(b), radians(c)));
//@ accept sqrt of b4 in constant expressions
static_assert(all(sqrt(q<b4>(0, 1)), sqrt(q<b4>(1, 4)), sqrt(q<b4>(2, 1)), sqrt(q<b4>(100, 1)), sqrt(q<b4>(1, 100))));
//@ accept cbrt of b4 in constant expressions
static_assert(all(cbrt(q<b4>(0, 1)), cbrt(q<b4>(8, 1)), cbrt(q<b4>(-8, 1)), cbrt(q<b4>(1, 8)), cbrt(q<b4>(100, 1))));
//@ accept sin of b4 in constant expressions
static_assert(all(sin(q<b4>(0, 1)), sin(q<b4>(1, 2)), sin(q<b4>(-1, 2)), sin(q<b4>(2, 1)), sin(q<b4>(4, 1)), sin(q<b4>(-6, 1)), sin(q<b4>(50, 1))));
//@ accept cos of b4 in constant expressions
static_assert(all(cos(q<b4>(0, 1)), cos(q<b4>(1, 2)), cos(q<b4>(-1, 2)), cos(q<b4>(2, 1)), cos(q<b4>(4, 1)), cos(q<b4>(-6, 1)), cos(q<b4>(50, 1))));
//@ accept tan of b4 in constant expressions
static_assert(all(tan(q<b4>(0, 1)), tan(q<b4>(1, 2)), tan(q<b4>(-1, 1)), tan(q<b4>(2, 1)), tan(q<b4>(4, 1))));
//@ accept atan of b4 in constant expressions
static_assert(all(atan(q<b4>(0, 1)), atan(q<b4>(1, 4)), atan(q<b4>(1, 1)), atan(q<b4>(3, 1)), atan(q<b4>(-3, 1)), atan(q<b4>(-1, 4))));
//@ accept asin of b4 in constant expressions
static_assert(all(asin(q<b4>(0, 1)), asin(q<b4>(1, 2)), asin(q<b4>(-1, 2)), asin(q<b4>(1, 1))));
//@ accept acos of b4 in constant expressions
static_assert(all(acos(q<b4>(0, 1)), acos(q<b4>(1, 2)), acos(q<b4>(-1, 2)), acos(q<b4>(1, 1))));
//@ accept log2 of b4 in constant expressions
static_assert(all(log2(q<b4>(1, 1)), log2(q<b4>(1, 4)), log2(q<b4>(3, 1)), log2(q<b4>(100, 1))));
//@ accept log of b4 in constant expressions
static_assert(all(log(q<b4>(1, 1)), log(q<b4>(1, 4)), log(q<b4>(3, 1)), log(q<b4>(100, 1))));
//@ accept log10 of b4 in constant expressions
static_assert(all(log10(q<b4>(1, 1)), log10(q<b4>(1, 4)), log10(q<b4>(3, 1)), log10(q<b4>(100, 1))));
//@ accept exp of b4 in constant expressions
static_assert(all(exp(q<b4>(0, 1)), exp(q<b4>(1, 1)), exp(q<b4>(-1, 1)), exp(q<b4>(1, 4)), exp(q<b4>(4, 1)), exp(q<b4>(-4, 1))));
//@ accept pow and hypot of b4 in constant expressions
static_assert(all(pow(q<b4>(3, 2), 3), pow(q<b4>(2, 1), -2), pow(q<b4>(2, 1), 0), pow(q<b4>(2, 1), q<b4>(3, 2)), pow(q<b4>(2, 1), q<b4>(-1, 2)), pow(q<b4>(3, 1), q<b4>(0, 1)), hypot(q<b4>(3, 1), q<b4>(4, 1)), hypot(q<b4>(1, 1), q<b4>(2, 1), q<b4>(2, 1))));
//@ accept literals are constants
constexpr auto a = 114_f32; constexpr auto b = 5.14_f32; constexpr auto c = "49.5"_f32; constexpr auto d = -"114.5"_f32; constexpr auto e = "-114.5"_f32; constexpr auto f = 7_f64; constexpr auto g = 2.25_f64; constexpr auto h = "-0.0001"_f64;
static_assert(all(a, b, c, d, e, f, g, h));
//@ accept CORDIC sine of fixed32 in constant expressions
static_assert(all(cordic_sine(q<fixed32>(1, 2)), cordic_sine(q<fixed32>(-1, 2)), cordic_sine(q<fixed32>(3, 1)), cordic_sine(q<fixed32>(0, 1))));
//@ accept CORDIC sine of fixed64 in constant expressions
static_assert(all(cordic_sine(q<fixed64>(1, 2)), cordic_sine(q<fixed64>(-1, 2)), cordic_sine(q<fixed64>(3, 1)), cordic_sine(q<fixed64>(0, 1))));
//@ accept functions at the ends of the range of fixed32 in constant expressions
constexpr fixed32 hi = std::numeric_limits<fixed32>::max(), lo = std::numeric_limits<fixed32>::lowest(), one = fixed32::from_internal_value(1), neg = fixed32::from_internal_value(-1);
static_assert(all(sqrt(hi), sqrt(one), sqrt(neg), sin(hi), sin(lo), cos(hi), cos(lo), atan(hi), atan(lo), ceil(hi), floor(hi), ceil(lo), floor(lo), trunc(lo), abs(hi), radians(hi), radians(lo), log2(hi), log2(one), hi.nearly_gt(lo), lo.nearly_eq(hi), lo < hi, hi - one, lo + one, lo.fractional_part(), signbit(lo)));
static_assert(all(cbrt(hi), cbrt(lo), exp(fixed32(-5)), hi.divide(2), lo.divide(2u)));
//@ accept functions at the ends of the range of fixed64 in constant expressions
constexpr fixed64 hi = std::numeric_limits<fixed64>::max(), lo = std::numeric_limits<fixed64>::lowest(), one = fixed64::from_internal_value(1), neg = fixed64::from_internal_value(-1);
static_assert(all(sqrt(hi), sqrt(one), sqrt(neg), sin(hi), sin(lo), cos(hi), cos(lo), atan(hi), atan(lo), ceil(hi), floor(hi), ceil(lo), floor(lo), trunc(lo), abs(hi), radians(hi), radians(lo), log2(hi), log2(one), hi.nearly_gt(lo), lo.nearly_eq(hi), lo < hi, hi - one, lo + one, lo.fractional_part(), signbit(lo)));
static_assert(all(cbrt(hi), cbrt(lo), exp(fixed64(-5)), hi.divide(2), lo.divide(2u)));
//@ accept functions at the ends of the range of f20 in constant expressions
constexpr f20 hi = std::numeric_limits<f20>::max(), lo = std::numeric_limits<f20>::lowest(), one = f20::from_internal_value(1), neg = f20::from_internal_value(-1);
static_assert(all(sqrt(hi), sqrt(one), sqrt(neg), sin(hi), sin(lo), cos(hi), cos(lo), atan(hi), atan(lo), ceil(hi), floor(hi), ceil(lo), floor(lo), trunc(lo), abs(hi), radians(hi), radians(lo), log2(hi), log2(one), hi.nearly_gt(lo), lo.nearly_eq(hi), lo < hi, hi - one, lo + one, lo.fractional_part(), signbit(lo)));
static_assert(all(cbrt(hi), cbrt(lo), exp(f20(-5)), hi.divide(2), lo.divide(2u)));
//@ accept functions at the ends of the range of f8 in constant expressions
constexpr f8 hi = std::numeric_limits<f8>::max(), lo = std::numeric_limits<f8>::lowest(), one = f8::from_internal_value(1), neg = f8::from_internal_value(-1);
static_assert(all(sqrt(hi), sqrt(one), sqrt(neg), sin(hi), sin(lo), cos(hi), cos(lo), atan(hi), atan(lo), ceil(hi), floor(hi), ceil(lo), floor(lo), trunc(lo), abs(hi), radians(hi), radians(lo), log2(hi), log2(one), hi.nearly_gt(lo), lo.nearly_eq(hi), lo < hi, hi - one, lo + one, lo.fractional_part(), signbit(lo)));
//@ accept functions at the ends of the range of q16 in constant expressions
constexpr q16 hi = std::numeric_limits<q16>::max(), lo = std::numeric_limits<q16>::lowest(), one = q16::from_internal_value(1), neg = q16::from_internal_value(-1);
static_assert(all(sqrt(hi), sqrt(one), sqrt(neg), sin(hi), sin(lo), cos(hi), cos(lo), atan(hi), atan(lo), ceil(hi), floor(hi), ceil(lo), floor(lo), trunc(lo), abs(hi), radians(hi), radians(lo), log2(hi), log2(one), hi.nearly_gt(lo), lo.nearly_eq(hi), lo < hi, hi - one, lo + one, lo.fractional_part(), signbit(lo)));
//@ accept functions at the ends of the range of q48 in constant expressions
constexpr q48 hi = std::numeric_limits<q48>::max(), lo = std::numeric_limits<q48>::lowest(), one = q48::from_internal_value(1), neg = q48::from_internal_value(-1);
static_assert(all(sqrt(hi), sqrt(one), sqrt(neg), sin(hi), sin(lo), cos(hi), cos(lo), atan(hi), atan(lo), ceil(hi), floor(hi), ceil(lo), floor(lo), trunc(lo), abs(hi), radians(hi), radians(lo), log2(hi), log2(one), hi.nearly_gt(lo), lo.nearly_eq(hi), lo < hi, hi - one, lo + one, lo.fractional_part(), signbit(lo)));
//@ accept functions at the ends of the range of b4 in constant expressions
constexpr b4 hi = std::numeric_limits<b4>::max(), lo = std::numeric_limits<b4>::lowest(), one = b4::from_internal_value(1), neg = b4::from_internal_value(-1);
static_assert(all(sqrt(hi), sqrt(one), sqrt(neg), sin(hi), sin(lo), cos(hi), cos(lo), atan(hi), atan(lo), ceil(hi), floor(hi), ceil(lo), floor(lo), trunc(lo), abs(hi), radians(hi), radians(lo), log2(hi), log2(one), hi.nearly_gt(lo), lo.nearly_eq(hi), lo < hi, hi - one, lo + one, lo.fractional_part(), signbit(lo)));
//@ accept functions at the ends of the range of r32 in constant expressions
constexpr r32 hi = std::numeric_limits<r32>::max(), lo = std::numeric_limits<r32>::lowest(), one = r32::from_internal_value(1), neg = r32::from_internal_value(-1);
static_assert(all(sqrt(hi), sqrt(one), sqrt(neg), sin(hi), sin(lo), cos(hi), cos(lo), atan(hi), atan(lo), ceil(hi), floor(hi), ceil(lo), floor(lo), trunc(lo), abs(hi), radians(hi), radians(lo), log2(hi), log2(one), hi.nearly_gt(lo), lo.nearly_eq(hi), lo < hi, hi - one, lo + one, lo.fractional_part(), signbit(lo)));
static_assert(all(cbrt(hi), cbrt(lo), exp(r32(-5)), hi.divide(2), lo.divide(2u)));
//@ accept functions at the ends of the range of r64 in constant expressions
constexpr r64 hi = std::numeric_limits<r64>::max(), lo = std::numeric_limits<r64>::lowest(), one = r64::from_internal_value(1), neg = r64::from_internal_value(-1);
static_assert(all(sqrt(hi), sqrt(one), sqrt(neg), sin(hi), sin(lo), cos(hi), cos(lo), atan(hi), atan(lo), ceil(hi), floor(hi), ceil(lo), floor(lo), trunc(lo), abs(hi), radians(hi), radians(lo), log2(hi), log2(one), hi.nearly_gt(lo), lo.nearly_eq(hi), lo < hi, hi - one, lo + one, lo.fractional_part(), signbit(lo)));
static_assert(all(cbrt(hi), cbrt(lo), exp(r64(-5)), hi.divide(2), lo.divide(2u)));
