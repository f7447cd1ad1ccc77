// the constant, table and measuring tools below detail/
// absint: --overflow
#include "types.h"
#include <eirin/detail/util.hpp>
#include <eirin/detail/perf.hpp>
namespace u = eirin::util;
// bit by bit evaluation of a constant: the value truncated to the requested number of bits
template <class I, int K, int f> void eval_bits()
{
    // every multiple of 2^-K in [0, 4)
    long long m = __sa_in(0, (4LL << K) - 1, 1, 0);
    I r = u::eval_value<I>((double)m / (double)(1LL << K), f);
    if constexpr(f >= K) CHECK((i128)r == (i128)m << (f - K));
    else CHECK((i128)r == fdiv(m, (i128)1 << (K - f)));
}
OB(eval_bits_8) { eval_bits<int64_t, 6, 8>(); }
OB(eval_bits_61) { eval_bits<int64_t, 6, 61>(); }
OB(eval_bits_trunc) { eval_bits<int64_t, 8, 5>(); }
OB(eval_bits_i32) { eval_bits<int32_t, 6, 29>(); }
OB(eval_bits_i16) { eval_bits<int16_t, 6, 13>(); }
template <class I> void eval_constants(int f)
{
    for(size_t i = 0; i < u::cst_lst_size; ++i)
    {
        double v = (double)u::cst_lst[i];
        // v = m * 2^-60 exactly (all constants are at least 1/4)
        i128 m = (i128)(long long)(v * 0x1p58) << 2;
        CHECK((i128)u::eval_value<I>(v, f) == (m >> (60 - f)));
    }
}
OB(eval_constants_60) { eval_constants<int64_t>(60); }
OB(eval_constants_45) { eval_constants<int64_t>(45); }
OB(eval_constants_32) { eval_constants<int64_t>(32); }
OB(eval_constants_29) { eval_constants<int32_t>(29); }
OB(eval_constants_16) { eval_constants<int32_t>(16); }
OB(eval_constants_1) { eval_constants<int64_t>(1); }
// the list of constants itself: the true values times 2^61, truncated
OB(constant_list)
{
    CHECK(u::cst_lst_size == 11 && u::csl_nme_lst.size() == 11);
    const long long ref[] = {0x2e2a8eca5705fc2eLL, 0xde5bd8a93728719LL, 0xa2f9836e4e44152LL, 0x120dd750429b6d11LL, 0x162e42fefa39ef35LL, 0x49aec6eed554560bLL, 0x2d413cccfe779921LL, 0x376cf5d0b09954e7LL, 0x1279a74590331c4dLL, 0x12788cfc6fb618f4LL, 0x33c6ef372fe94f82LL};
    for(size_t i = 0; i < 11; ++i)
    {
        long long d = (long long)(u::cst_lst[i] * 0x1p61L) - ref[i];
        CHECK(d >= -1 && d <= 1);
    }
}
static bool same_text(const char* a, const char* b)
{
    while(*a && *a == *b) ++a, ++b;
    return *a == *b;
}
OB(constant_names)
{
    CHECK(same_text(u::csl_nme_lst[0], "log2e"));
    CHECK(same_text(u::csl_nme_lst[1], "log10e"));
    CHECK(same_text(u::csl_nme_lst[2], "inv_pi"));
    CHECK(same_text(u::csl_nme_lst[3], "inv_sqrtpi"));
    CHECK(same_text(u::csl_nme_lst[4], "ln2"));
    CHECK(same_text(u::csl_nme_lst[5], "ln10"));
    CHECK(same_text(u::csl_nme_lst[6], "sqrt2"));
    CHECK(same_text(u::csl_nme_lst[7], "sqrt3"));
    CHECK(same_text(u::csl_nme_lst[8], "inv_sqrt3"));
    CHECK(same_text(u::csl_nme_lst[9], "egamma"));
    CHECK(same_text(u::csl_nme_lst[10], "phi"));
}
// pi by the Bailey-Borwein-Plouffe series: truncation of the series and four truncated terms per round
template <class T, int f, int N> void bbp()
{
    i128 pi61 = (i128)0x6487ed5110b4611aLL; // pi * 2^61, truncated
    i128 r = (i128)u::pi_calc::bbp_calc_pi<T, f, N>(), p = pi61 >> (61 - f);
    i128 tail = (i128)1 << f; // 1/16^N of one
    for(int i = 0; i < N; ++i) tail /= 16;
    CHECK(r - p <= 3 * N + 1 && p - r <= 3 * N + 1 + tail / 4);
}
OB(bbp_64_1) { bbp<int64_t, 61, 1>(); }
OB(bbp_64_2) { bbp<int64_t, 61, 2>(); }
OB(bbp_64_5) { bbp<int64_t, 61, 5>(); }
OB(bbp_64_16) { bbp<int64_t, 61, 16>(); }
OB(bbp_32_8) { bbp<int32_t, 29, 8>(); }
OB(bbp_32_16) { bbp<int32_t, 16, 5>(); }
OB(bbp_16_4) { bbp<int16_t, 13, 4>(); }
// measuring: the largest and the smallest deviation over start, start + step, ... <= end and the first arguments attaining them
template <class F> F from_int(int64_t v) { return F(v); }
template <class F, int N> void measure()
{
    // N arguments, arbitrary values of both functions with deviations up to 200
    F start = anyfx<F>(), step = anyfx<F>(), f[N], g[N], x[N];
    i128 d[N];
    F rest = anyfx<F>();
    ASSUME(raw(step) > 0 && raw(start) + N * raw(step) <= highest<F>() && raw(rest) >= 0 && raw(rest) < raw(step));
    F end = mk<F>(raw(start) + (N - 1) * raw(step) + raw(rest));
    for(int i = 0; i < N; ++i)
    {
        f[i] = fx_in<F>(-100LL << F::precision, 100LL << F::precision);
        g[i] = fx_in<F>(-100LL << F::precision, 100LL << F::precision);
        x[i] = mk<F>(raw(start) + i * raw(step));
        i128 e = raw(f[i]) - raw(g[i]);
        d[i] = e < 0 ? -e : e;
        ASSUME(d[i] > 0);
    }
    int calls = 0, ref = 0;
    auto r = perf::measure_esp<F>(start, end, step, [&](F a) { CHECK(calls < N && a == x[calls]); return f[calls++]; }, [&](F a) { CHECK(ref < N && a == x[ref]); return g[ref++]; }, from_int<F>);
    CHECK(calls == N && ref == N);
    int hi = 0, lo = 0;
    for(int i = 1; i < N; ++i)
    {
        if(d[i] > d[hi]) hi = i;
        if(d[i] < d[lo]) lo = i;
    }
    CHECK(raw(r.max_esp) == d[hi] && raw(r.min_esp) == d[lo]);
    CHECK(r.max_esp_input == x[hi] && r.min_esp_input == x[lo]);
}
OB(measure_f32_1) { measure<fixed32, 1>(); }
OB(measure_f32_2) { measure<fixed32, 2>(); }
OB(measure_f64_3) { measure<fixed64, 3>(); }
OB(measure_f20_2) { measure<f20, 2>(); }
// tables
template <size_t N> void sampled(fixed64 (*f)(fixed64))
{
    auto t = u::lut::func_ptr_lut<N>(f);
    auto s = (i128)numbers::pi_f64.internal_value();
    for(size_t i = 0; i < N; ++i)
    {
        // the identity shows the arguments used: evenly spaced from 0 to pi
        i128 d = (i128)t[i].internal_value() - fdiv(s * (i128)i, (i128)(N - 1));
        CHECK(d <= (i128)N && -d <= (i128)N);
    }
}
inline fixed64 same(fixed64 x) { return x; }
OB(sampled_17) { sampled<17>(same); }
OB(sampled_512) { sampled<512>(same); }
template <size_t N> void angles()
{
    auto t = u::lut::angels_lut<N>();
    auto s = (i128)numbers::pi_f64.internal_value();
    for(size_t i = 0; i < N; ++i)
    {
        i128 d = (i128)t[i].internal_value() - fdiv(s * (i128)i, (i128)N);
        CHECK(d <= (i128)i && -d <= (i128)i);
    }
}
OB(angles_16) { angles<16>(); }
OB(angles_100) { angles<100>(); }
template <size_t N> void lut_sine(int lo, int hi, int cells, double tol)
{
    __sa_config(FORMS, 1);
    fixed64 x = fx_in<fixed64>((long long)lo << 32, (long long)hi << 32, cells);
    near(R_SIN, x, u::lut::lut_calc_sin<N>(x), tol, 0);
}
OB(lut_sine_512_pos) { lut_sine<512>(0, 7, 7, 0x1p-16); }
OB(lut_sine_512_neg) { lut_sine<512>(-7, 0, 7, 0x1p-16); }
OB(lut_sine_64) { lut_sine<64>(-7, 7, 14, 0x1p-11); }
OB(lut_sine_turns) { lut_sine<512>(-100, 100, 200, 0x1p-16); }
OB(lut_sine_16) { lut_sine<16>(-7, 7, 14, 0x1p-7); }
// no argument leads outside the table
OB(lut_total) { fixed64 x = fx_in<fixed64>(-(1LL << 42), 1LL << 42, 16), r = u::lut::lut_calc_sin<4>(x); CHECK(raw(r) <= (i128)1 << 40); }
OB(lut_total_512)
{
    // the ends of the range
    fixed64 x = fx_in<fixed64>(INT64_MAX - 4000, INT64_MAX), y = fx_in<fixed64>(INT64_MIN, INT64_MIN + 4000);
    fixed64 r = u::lut::lut_calc_sin<512>(x), s = u::lut::lut_calc_sin<512>(y);
    CHECK(raw(r) <= (i128)1 << 33 && raw(s) <= (i128)1 << 33);
}
