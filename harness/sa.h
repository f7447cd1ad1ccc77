// Obligation prelude.  Obligations are extern "C" functions ob_<property>_<name>; the analyser
// interprets their LLVM IR abstractly for every value of the declared inputs.
#pragma once
#include <cstddef>
#include <cstdint>
#include <type_traits>
#include <limits>

typedef __int128 i128;
typedef unsigned __int128 u128;

extern "C" {
long long __sa_in(long long lo, long long hi, int cells, int mode) noexcept;
[[noreturn]] void __sa_fail(const char* what, int line) noexcept;
[[noreturn]] void __sa_stop() noexcept;
void __sa_count() noexcept;
void __sa_near(int fn, int fbits, long long x, long long y, long long r, double tolAbs, double tolRel) noexcept;
void __sa_config(int key, int value) noexcept;
void __sa_expect_throw(bool when, const char* type) noexcept;
long long __sa_fresh(long long lo, long long hi) noexcept;
void __sa_show(const char* name, long long v) noexcept;
void* __sa_alloc(long long size) noexcept;
void __sa_kill(void* p) noexcept;
}
enum { MAXDISJ = 1, FORMS, EXPAND, FORKZEXT, STEPS, OVERFLOWCK, NOBISECT, BITS, SLOWOK };
enum { R_SIN = 1, R_COS, R_TAN, R_ATAN, R_ASIN, R_ACOS, R_LOG2, R_LN, R_LOG10, R_EXP, R_SQRT, R_CBRT, R_HYPOT, R_POW, R_DEG, R_RAD, R_ID, R_INV };
#define CHECK(...) do { __sa_count(); if(!(__VA_ARGS__)) __sa_fail(#__VA_ARGS__, __LINE__); } while(0)
#define ASSUME(...) do { if(!(__VA_ARGS__)) __sa_stop(); } while(0)
#define OB(name) extern "C" __attribute__((used)) void ob_##name()

// exact integer helpers (mathematical integers; callers keep values within 128 bits)
inline i128 fdiv(i128 a, i128 b) { i128 q = a / b, r = a % b; return (r != 0 && ((r < 0) != (b < 0))) ? q - 1 : q; }
template <class T> inline bool fits(i128 v)
{
    return v >= (i128)std::numeric_limits<T>::min() && v <= (i128)std::numeric_limits<T>::max();
}
// any value of an integer type
template <class T> inline T any(int cells = 1, int mode = 0)
{
    if constexpr(std::is_same_v<T, bool>) return __sa_in(0, 1, 1, 0) != 0;
    else if constexpr(std::is_unsigned_v<T> && sizeof(T) == 8) return (T)__sa_in(INT64_MIN, INT64_MAX, cells, mode);
    else return (T)__sa_in((long long)std::numeric_limits<T>::min(), (long long)std::numeric_limits<T>::max(), cells, mode);
}
template <class T> inline T any_in(long long lo, long long hi, int cells = 1, int mode = 0) { return (T)__sa_in(lo, hi, cells, mode); }
template <class F> inline F anyfx(int cells = 1, int mode = 0) { return F::from_internal_value(any<typename F::value_type>(cells, mode)); }
template <class F> inline F fx_in(long long lo, long long hi, int cells = 1, int mode = 0) { return F::from_internal_value((typename F::value_type)__sa_in(lo, hi, cells, mode)); }
template <class F> inline i128 raw(const F& x) { return (i128)x.internal_value(); }
