// tool: effects
// determinism: every public operation is a pure integer function of its arguments
#include "fmt.h"
#include <format>
#include <random>
#include <eirin/io/parse.hpp>
#include <eirin/io/format.hpp>
#include <eirin/random.hpp>
#include <eirin/ext/cordic.hpp>
using namespace eirin;
#define ROOT extern "C" __attribute__((used, noinline))
#define ALLT(X) X(fixed32, f32) X(fixed64, f64) X(f20, f20) X(f8, f8) X(r32, r32) X(r64, r64) X(q16, q16) X(q48, q48) X(b4, b4)
#define ALLU(X) ALLT(X) X(u16f, u16)
template <class F> struct out { F v[24]; bool b[24]; long long n[12]; };
// operators
#define R_OPS(F, s) ROOT void eff_operators_##s(F a, F b, int k, unsigned u, long long l, out<F>* o) { \
    o->v[0] = a + b; o->v[1] = a - b; o->v[2] = a * b; o->v[3] = a / b; o->v[4] = a % b; o->v[5] = -a; \
    o->v[6] = a + k; o->v[7] = k - a; o->v[8] = a * l; o->v[9] = a / u; o->v[10] = a % k; F c = a; c += b; c -= k; c *= b; c /= b; c %= b; ++c; c--; o->v[11] = c; \
    o->v[12] = k + a; o->v[13] = a - l; o->v[14] = k * a; o->v[15] = k / a; o->v[16] = k % a; c *= k; c /= k; c += l; o->v[17] = c; \
    o->b[0] = a == b; o->b[1] = a < b; o->b[2] = a > b; o->b[3] = a != b; o->b[4] = a <= b; o->b[5] = a >= b; o->b[6] = (a <=> b) == 0; \
    o->b[7] = a.nearly_eq(b); o->b[8] = a.nearly_ne(b); o->b[9] = a.nearly_gt(b); o->b[10] = a.nearly_lt(b); o->b[11] = a.nearly_gt_eq(b); o->b[12] = a.nearly_lt_eq(b); \
    o->b[13] = signbit(a); o->n[0] = (long long)a.integral_part(); o->n[1] = (long long)a.fractional_part(); o->n[2] = (long long)fixed_hash<F>()(a); }
ALLU(R_OPS)
#define R_DIV(F, s) ROOT void eff_checked_division_##s(F a, F b, int k, unsigned long long u, out<F>* o) { o->v[0] = a.divide(b); o->v[1] = a.divide(k); o->v[2] = a.divide(u); F c = a; c.divide_by(b); c.divide_by(k); o->v[3] = c; }
ALLU(R_DIV)
// conversions
#define R_CONV(F, s) ROOT void eff_conversions_##s(fixed32 x, fixed64 y, f8 z, u16f w, long long l, unsigned u, short h, F a, out<F>* o) { \
    o->v[0] = F(x); o->v[1] = F(y); o->v[2] = F(z); o->v[3] = F(w); o->v[4] = F(l); o->v[5] = F(u); o->v[6] = F(h); \
    o->n[0] = (long long)a; o->n[1] = (int)a; o->n[2] = (unsigned)a; o->n[3] = (bool)(signed char)a; o->v[7] = F::template from_fixed_num_value<8>(l); o->v[8] = F::template from_fixed_num_value<60>(l); }
ALLU(R_CONV)
#define R_FLT(F, s) ROOT void efp_float_conversions_##s(double d, float g, F a, out<F>* o, double* e, float* p) { o->v[0] = F(d); o->v[1] = F(g); *e = (double)a; *p = (float)a; }
ALLU(R_FLT)
// rounding and simple functions
#define R_ROUND(F, s) ROOT void eff_rounding_##s(F a, F b, out<F>* o) { o->v[0] = ceil(a); o->v[1] = floor(a); o->v[2] = trunc(a); o->v[3] = round(a); o->v[4] = abs(a); o->v[5] = min(a, b); o->v[6] = max(a, b); \
    o->v[7] = fmod(a, b); o->v[8] = modf(a, o->v[9]); }
ALLU(R_ROUND)
// elementary functions
#define R_F1(F, s, f) ROOT void eff_##f##_##s(F a, F* o) { *o = f(a); }
#define R_MATH(F, s) R_F1(F, s, sqrt) R_F1(F, s, sin) R_F1(F, s, cos) R_F1(F, s, tan) R_F1(F, s, atan) R_F1(F, s, asin) R_F1(F, s, acos) R_F1(F, s, cbrt) R_F1(F, s, log2) R_F1(F, s, log) R_F1(F, s, log10) R_F1(F, s, exp) R_F1(F, s, degrees) R_F1(F, s, radians) \
    ROOT void eff_pow_##s(F a, F b, int k, unsigned long long u, out<F>* o) { o->v[0] = pow(a, b); o->v[1] = pow(a, k); o->v[2] = pow(a, u); } \
    ROOT void eff_hypot_##s(F a, F b, F c, out<F>* o) { o->v[0] = hypot(a, b); o->v[1] = hypot(a, b, c); }
ALLT(R_MATH)
#define R_CONST(F, s) ROOT void eff_constants_##s(out<F>* o) { o->v[0] = F::e(); o->v[1] = F::pi(); o->v[2] = F::pi_2(); o->v[3] = F::pi_4(); o->v[4] = F::double_pi(); o->v[5] = F::epsilon(); o->v[6] = F::nearly_compare_epsilon(); \
    o->v[7] = numbers::e_v<F>(); o->v[8] = numbers::pi_v<F>(); o->v[9] = numbers::log2e_v<F>(); o->v[10] = numbers::ln2_v<F>(); o->v[11] = std::numeric_limits<F>::min(); o->v[12] = std::numeric_limits<F>::max(); o->v[13] = std::numeric_limits<F>::lowest(); }
ALLT(R_CONST)
// text
#define R_TEXT(F, s) ROOT bool eff_text_##s(const char* p, size_t n, F* o) { return fixed_from_cstring(p, n, *o); } \
    ROOT void eff_text_array_##s(F a, int base, bool up, char* o) { F::copy_as_chars_to(a, o, base, up); }
ALLU(R_TEXT)
ROOT const char* eff_text_view_f32(const char* p, size_t n, fixed32* o) { return io::parse(std::string_view(p, n), *o); }
#define R_FMT(F, s) ROOT void eff_format_##s(F a, const char* p, size_t n, sink* o) { std::formatter<F, char> f; std::basic_format_parse_context<char> c(std::string_view(p, n)); f.parse(c); mock_ctx m{o}; f.format(a, m); }
ALLU(R_FMT)
ROOT fixed32 eff_literal_f32(const char* p, size_t n) { return literals::operator""_f32(p, n); }
ROOT fixed64 eff_literal_f64(const char* p, size_t n) { return literals::operator""_f64(p, n); }
ROOT fixed32 eff_literal_f32_int(unsigned long long v) { return literals::operator""_f32(v); }
// random numbers: the state is in the engine
#define R_RND(E, s) ROOT void eff_engine_##s(E* e, E* g, typename E::result_type v, unsigned long long z, typename E::result_type* o) { o[0] = (*e)(); e->discard(z); o[1] = (*e)(); e->seed(v); o[2] = (*e)(); e->seed(); E h, k(v); o[3] = h(); o[4] = k(); o[5] = *e == *g; o[6] = *e != *g; o[7] = E::min(); o[8] = E::max(); }
R_RND(pcg2014, pcg32) R_RND(pcg2014_64, pcg64)
using ad32 = fixed_random_engine_adapter<fixed32, pcg2014>;
using ad64 = fixed_random_engine_adapter<fixed64, pcg2014_64>;
ROOT void eff_engine_adapter_f32(ad32* e, unsigned v, unsigned long long z, out<fixed32>* o) { o->v[0] = (*e)(); e->discard(z); e->seed(v); o->v[1] = (*e)(); ad32 n; o->v[2] = n(); o->b[0] = n == *e; }
ROOT void eff_engine_adapter_f64(ad64* e, unsigned v, unsigned long long z, out<fixed64>* o) { o->v[0] = (*e)(); e->discard(z); e->seed(v); o->v[1] = (*e)(); ad64 n; o->v[2] = n(); o->b[0] = n == *e; }
using ud32 = fixed_distribution_adapter<fixed32, std::uniform_int_distribution<int32_t>>;
using ui32 = fixed_int_distribution_adapter<fixed32, std::uniform_int_distribution<int32_t>>;
using ud64 = fixed_distribution_adapter<fixed64, std::uniform_int_distribution<int64_t>>;
// extensions
ROOT void eff_cordic_f32(fixed32 a, fixed32* o) { *o = cordic_sine(a); }
ROOT void eff_cordic_f64(fixed64 a, fixed64* o) { *o = cordic_sine(a); }
#define R_DIST(D, F, G, s) ROOT void eff_distribution_##s(D* d, G* g, F a, F b, out<F>* o) { o->v[0] = (*d)(*g); D n(a, b); o->v[1] = n(*g); o->v[2] = (*d)(*g, n.param()); d->param(n.param()); o->v[3] = d->a(); o->v[4] = d->b(); o->v[5] = d->min(); o->v[6] = d->max(); d->reset(); }
R_DIST(ud32, fixed32, ad32, f32) R_DIST(ui32, fixed32, pcg2014, int_f32) R_DIST(ud64, fixed64, ad64, f64)
