// tool: witness
//@ prelude
#include <eirin/eirin.hpp>
#include <eirin/io/parse.hpp>
#include <eirin/io/format.hpp>
#include <eirin/ext/cordic.hpp>
#include <random>
#include <string>
#include <vector>
#include <type_traits>
#include <concepts>
using namespace eirin;
using i128 = detail::int128_t;
using f20 = fixed_num<int32_t, int64_t, 20, false>;
using f8 = fixed_num<int16_t, int32_t, 8, false>;
using u16f = fixed_num<uint32_t, uint64_t, 16, false>;
using r32 = fixed_num<int32_t, int64_t, 16, true>;
using r64 = fixed_num<int64_t, i128, 32, true>;
struct cls { int v; };
enum class en { a };
template <class T, class I, unsigned f> concept formable = requires { typename fixed_num<T, I, f, false>; typename fixed_num<T, I, f, true>; };
template <class T, class I, unsigned f> concept formable_either = requires { typename fixed_num<T, I, f, false>; } || requires { typename fixed_num<T, I, f, true>; };
template <class A, class B> concept adds = requires(A a, B b) { a + b; } || requires(A a, B b) { a - b; };
template <class A, class B> concept muls = requires(A a, B b) { a * b; } || requires(A a, B b) { a / b; } || requires(A a, B b) { a % b; };
template <class A, class B> concept assigns = requires(A a, B b) { a = b; } || requires(A a, B b) { a += b; } || requires(A a, B b) { a -= b; } || requires(A a, B b) { a *= b; } || requires(A a, B b) { a /= b; } || requires(A a, B b) { a %= b; };
template <class A, class B> concept compares = requires(A a, B b) { a == b; } || requires(A a, B b) { a < b; } || requires(A a, B b) { a <=> b; } || requires(A a, B b) { a != b; } || requires(A a, B b) { a > b; };
template <class A, class B> constexpr bool mixes = adds<A, B> || muls<A, B> || assigns<A, B> || compares<A, B>;
template <class F> constexpr bool value_like = std::is_trivially_copyable_v<F> && std::is_standard_layout_v<F> && std::is_nothrow_copy_constructible_v<F> && std::is_nothrow_copy_assignable_v<F> && std::is_nothrow_default_constructible_v<F>
    && sizeof(F) == sizeof(typename F::value_type) && alignof(F) == alignof(typename F::value_type) && std::totally_ordered<F> && std::three_way_comparable<F, std::strong_ordering> && std::regular<F>;
template <class F> constexpr bool no_implicit_in = !std::is_convertible_v<int, F> && !std::is_convertible_v<unsigned long long, F> && !std::is_convertible_v<double, F> && !std::is_convertible_v<float, F> && !std::is_convertible_v<bool, F> && !std::is_convertible_v<const char*, F>;
template <class F> constexpr bool no_implicit_out = !std::is_convertible_v<F, int> && !std::is_convertible_v<F, long long> && !std::is_convertible_v<F, double> && !std::is_convertible_v<F, float> && !std::is_convertible_v<F, bool> && !std::is_convertible_v<F, char>;
template <class F> constexpr bool explicit_ok = std::is_constructible_v<F, int> && std::is_constructible_v<F, unsigned long long> && std::is_constructible_v<F, double> && std::is_constructible_v<F, float> && std::is_constructible_v<int, F> && std::is_constructible_v<double, F>;
template <class F> constexpr bool no_foreign = !std::is_constructible_v<F, cls> && !std::is_constructible_v<F, en> && !std::is_constructible_v<F, int*> && !std::is_constructible_v<F, const char*> && !std::is_constructible_v<F, std::string>;
template <class F, class X> constexpr bool same_result = std::same_as<decltype(F{} + X{}), F> && std::same_as<decltype(F{} - X{}), F> && std::same_as<decltype(F{} * X{}), F> && std::same_as<decltype(F{} / X{}), F> && std::same_as<decltype(F{} % X{}), F>
    && std::same_as<decltype(X{} + F{}), F> && std::same_as<decltype(X{} - F{}), F> && std::same_as<decltype(X{} * F{}), F> && std::same_as<decltype(X{} / F{}), F> && std::same_as<decltype(X{} % F{}), F>;
template <class F> constexpr bool same_functions = std::same_as<decltype(sqrt(F{})), F> && std::same_as<decltype(sin(F{})), F> && std::same_as<decltype(cos(F{})), F> && std::same_as<decltype(tan(F{})), F> && std::same_as<decltype(atan(F{})), F> && std::same_as<decltype(log2(F{})), F>
    && std::same_as<decltype(exp(F{})), F> && std::same_as<decltype(pow(F{}, F{})), F> && std::same_as<decltype(pow(F{}, 2)), F> && std::same_as<decltype(floor(F{})), F> && std::same_as<decltype(ceil(F{})), F> && std::same_as<decltype(round(F{})), F> && std::same_as<decltype(trunc(F{})), F>
    && std::same_as<decltype(abs(F{})), F> && std::same_as<decltype(hypot(F{}, F{})), F> && std::same_as<decltype(fmod(F{}, F{})), F> && std::same_as<decltype(min(F{}, F{})), F>;
template <class F, class E> concept adaptable = requires { typename fixed_random_engine_adapter<F, E>; };
template <class F, class D> concept distributes = requires { typename fixed_distribution_adapter<F, D>; } || requires { typename fixed_int_distribution_adapter<F, D>; };
template <class T> concept hashes = requires { typename fixed_hash<T>; };
template <class T> concept has_pi = requires { numbers::pi_v<T>(); };
template <class A, class B> concept two_arg_math = requires(A a, B b) { fmod(a, b); } || requires(A a, B b) { hypot(a, b); } || requires(A a, B b) { min(a, b); } || requires(A a, B b) { max(a, b); };
//@ accept every storage width and any fraction that leaves at least the sign bit is usable
static_assert(formable<int8_t, int16_t, 1> && formable<int8_t, int16_t, 7> && formable<int16_t, int32_t, 15> && formable<int32_t, int64_t, 31> && formable<int64_t, i128, 63>);
static_assert(formable<uint8_t, uint16_t, 4> && formable<uint16_t, uint32_t, 15> && formable<uint32_t, uint64_t, 31> && formable<int8_t, int64_t, 3>);
static_assert(std::same_as<fixed32, fixed_num<int32_t, int64_t, 16, false>> && std::same_as<fixed64, fixed_num<int64_t, i128, 32, false>>);
static_assert(fixed32::precision == 16 && fixed64::precision == 32 && f8::precision == 8 && std::same_as<f20::value_type, int32_t> && std::same_as<f20::intermediate_type, int64_t>);
//@ accept a format without fractional bits, or without room for the sign, is rejected
static_assert(!formable_either<int32_t, int64_t, 0> && !formable_either<int64_t, i128, 0> && !formable_either<uint16_t, uint32_t, 0>);
static_assert(!formable_either<int32_t, int64_t, 32> && !formable_either<int8_t, int16_t, 8> && !formable_either<int16_t, int32_t, 16> && !formable_either<int64_t, i128, 64> && !formable_either<int32_t, int64_t, 33> && !formable_either<int32_t, int64_t, 4294967295u> && !formable_either<uint32_t, uint64_t, 32>);
//@ accept an intermediate type that is not wider than the storage type is rejected
static_assert(!formable_either<int32_t, int32_t, 16> && !formable_either<int32_t, int16_t, 16> && !formable_either<int64_t, int64_t, 32> && !formable_either<int64_t, int32_t, 32> && !formable_either<uint16_t, uint16_t, 8> && !formable_either<int8_t, int8_t, 4> && !formable_either<uint64_t, uint32_t, 16>);
//@ accept storage and intermediate types of different signedness are rejected
static_assert(!formable_either<int32_t, uint64_t, 16> && !formable_either<uint32_t, int64_t, 16> && !formable_either<int16_t, uint64_t, 8> && !formable_either<uint8_t, int16_t, 4> && !formable_either<uint64_t, i128, 32>);
//@ accept storage types that are not integers are rejected
static_assert(!formable_either<float, double, 16> && !formable_either<double, long double, 16> && !formable_either<float, int64_t, 16> && !formable_either<cls, int64_t, 16> && !formable_either<en, int64_t, 16> && !formable_either<short*, i128, 16>);
//@ accept a number is a plain value as large as its storage, cheap to copy and totally ordered
static_assert(value_like<fixed32> && value_like<fixed64> && value_like<f20> && value_like<f8> && value_like<u16f> && value_like<r32> && value_like<r64>);
//@ accept numbers do not convert implicitly to or from built-in types
static_assert(no_implicit_in<fixed32> && no_implicit_in<fixed64> && no_implicit_in<f20> && no_implicit_in<f8> && no_implicit_in<u16f> && no_implicit_in<r32> && no_implicit_in<r64>);
static_assert(no_implicit_out<fixed32> && no_implicit_out<fixed64> && no_implicit_out<f20> && no_implicit_out<f8> && no_implicit_out<u16f> && no_implicit_out<r32> && no_implicit_out<r64>);
//@ accept explicit conversions to and from built-in numbers exist, from other types they do not
static_assert(explicit_ok<fixed32> && explicit_ok<fixed64> && explicit_ok<f20> && explicit_ok<f8> && explicit_ok<u16f> && explicit_ok<r32> && explicit_ok<r64>);
static_assert(no_foreign<fixed32> && no_foreign<fixed64> && no_foreign<f20> && no_foreign<f8> && no_foreign<u16f> && no_foreign<r32> && no_foreign<r64>);
//@ accept different formats convert explicitly only
static_assert(!std::is_convertible_v<fixed32, fixed64> && !std::is_convertible_v<fixed64, fixed32> && !std::is_convertible_v<fixed32, f20> && !std::is_convertible_v<f20, fixed32> && !std::is_convertible_v<fixed32, r32> && !std::is_convertible_v<r32, fixed32> && !std::is_convertible_v<fixed32, u16f> && !std::is_convertible_v<f8, fixed32>);
static_assert(std::is_constructible_v<fixed64, fixed32> && std::is_constructible_v<fixed32, fixed64> && std::is_constructible_v<fixed32, r32> && std::is_constructible_v<u16f, fixed32> && std::is_constructible_v<f8, r64>);
//@ accept different formats do not mix in arithmetic, assignment or comparison
static_assert(!mixes<fixed32, fixed64> && !mixes<fixed64, fixed32> && !mixes<fixed32, f20> && !mixes<f20, fixed32> && !mixes<fixed32, r32> && !mixes<r32, fixed32> && !mixes<fixed32, u16f> && !mixes<u16f, fixed32> && !mixes<fixed64, r64> && !mixes<f8, fixed32> && !mixes<f8, fixed64>);
static_assert(!two_arg_math<fixed32, fixed64> && !two_arg_math<fixed32, f20> && !two_arg_math<fixed32, r32> && !two_arg_math<fixed64, r64> && !two_arg_math<u16f, fixed32>);
//@ accept floating point numbers do not mix with fixed point numbers
static_assert(!mixes<fixed32, double> && !mixes<double, fixed32> && !mixes<fixed32, float> && !mixes<float, fixed32> && !mixes<fixed64, double> && !mixes<double, fixed64> && !mixes<f20, double> && !mixes<f8, float> && !mixes<r32, double> && !mixes<r64, double> && !mixes<u16f, long double>);
//@ accept fixed point and integers combine to the same fixed point type, but do not compare or assign
static_assert(same_result<fixed32, fixed32> && same_result<fixed64, fixed64> && same_result<r32, r32> && same_result<u16f, u16f> && same_result<f8, f8> && same_result<f20, f20>);
static_assert(same_result<fixed32, int> && same_result<fixed32, long long> && same_result<fixed32, unsigned> && same_result<fixed32, short> && same_result<fixed64, int> && same_result<fixed64, unsigned long long> && same_result<f20, int> && same_result<f8, int> && same_result<u16f, unsigned> && same_result<r32, int> && same_result<r64, long>);
static_assert(!compares<fixed32, int> && !compares<fixed64, long long> && !std::is_assignable_v<fixed32&, int> && !std::is_assignable_v<fixed64&, int> && !std::is_assignable_v<r32&, long>);
//@ accept mathematical functions return the type of their argument
static_assert(same_functions<fixed32> && same_functions<fixed64> && same_functions<f20> && same_functions<r32> && same_functions<r64>);
//@ accept only fixed point types count as fixed point
static_assert(is_fixed_point_v<fixed32> && is_fixed_point_v<const fixed64> && is_fixed_point_v<u16f> && is_fixed_point_v<r64> && is_fixed_point_v<volatile f8> && fixed_point<fixed32> && fixed_point<const f20>);
static_assert(!is_fixed_point_v<int> && !is_fixed_point_v<double> && !is_fixed_point_v<cls> && !is_fixed_point_v<fixed32*> && !is_fixed_point_v<std::vector<fixed32>> && !fixed_point<float> && !fixed_point<long>);
static_assert(hashes<fixed32> && hashes<r64> && !hashes<int> && !hashes<double> && !hashes<cls>);
static_assert(has_pi<fixed32> && has_pi<fixed64> && has_pi<f20> && !has_pi<int> && !has_pi<double>);
//@ accept engine adapters need a bit generator at least as wide as the number
static_assert(adaptable<fixed32, std::mt19937> && adaptable<fixed32, pcg2014> && adaptable<fixed64, pcg2014_64> && adaptable<fixed64, std::mt19937_64> && adaptable<fixed32, pcg2014_64> && adaptable<f8, pcg2014> && adaptable<u16f, pcg2014>);
static_assert(!adaptable<fixed64, pcg2014> && !adaptable<fixed64, fixed_random_engine_adapter<fixed32, pcg2014>> && !adaptable<int, pcg2014> && !adaptable<double, std::mt19937> && !adaptable<fixed32, int> && !adaptable<fixed32, cls>);
//@ accept distribution adapters need a fixed point type and an integer distribution
static_assert(distributes<fixed32, std::uniform_int_distribution<int>> && distributes<fixed64, std::uniform_int_distribution<long long>> && distributes<r32, std::uniform_int_distribution<int>>);
static_assert(!distributes<int, std::uniform_int_distribution<int>> && !distributes<double, std::uniform_int_distribution<int>> && !distributes<fixed32, std::uniform_real_distribution<double>> && !distributes<fixed64, std::normal_distribution<double>> && !distributes<cls, std::uniform_int_distribution<int>>);
//@ accept PCG engines are uniform random bit generators over unsigned words
static_assert(std::uniform_random_bit_generator<pcg2014> && std::uniform_random_bit_generator<pcg2014_64> && sizeof(pcg2014::result_type) == 4 && sizeof(pcg2014_64::result_type) == 8);
//@ reject PCG engines over signed words
permuted_congruential_engine<int, 0, 1, 1, 1, 1> e;
//@ reject a text literal that is not a number, as a constant
constexpr auto x = "12x4"_f32;
//@ reject a 64-bit text literal that is not a number, as a constant
constexpr auto x = "1.2.3"_f64;
//@ reject a text literal out of range, as a constant
constexpr auto x = "32768"_f32;
//@ reject a 64-bit text literal out of range, as a constant
constexpr auto x = "2147483648"_f64;
//@ reject checked division by zero, as a constant
constexpr auto x = fixed32(1).divide(fixed32(0));
//@ reject checked division by the integer zero, as a constant
constexpr auto x = fixed64(1).divide(0);
//@ accept valid literals are constants
constexpr auto a = "1234"_f32; constexpr auto b = "-2147483648"_f64; constexpr auto c = "32767.5"_f32; constexpr auto d = fixed32(1).divide(fixed32(2)); constexpr auto e = fixed64(1).divide(4); constexpr auto g = 12.5_f32; constexpr auto h = 7_f64;
//@ accept numbers can be template arguments and switch-free constants
template <fixed32 X> struct at { static constexpr fixed32 twice = X + X; };
template <fixed64 X> struct at64 { static constexpr fixed64 half = X / 2; };
static_assert(at<fixed32(3)>::twice == fixed32(6) && at64<"5"_f64>::half == "2.5"_f64);
