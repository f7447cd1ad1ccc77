// square root and hypotenuse
// absint: --overflow --max-cells 200000
#include "types.h"
OB(sqrt_f32) { __sa_config(MAXDISJ, 1); auto x = fx_in<fixed32>(0, INT32_MAX, 8, 1); near(R_SQRT, x, sqrt(x), 0x1p-14, 0x1p-8); }
OB(sqrt_f64_low) { __sa_config(FORMS, 1); auto x = fx_in<fixed64>(1LL << 16, 1LL << 32, 8, 1); near(R_SQRT, x, sqrt(x), 0x1p-7, 0x1p-12); }
OB(sqrt_q16_low) { __sa_config(FORMS, 1); auto x = fx_in<q16>(1LL << 8, 1LL << 16, 8, 1); near(R_SQRT, x, sqrt(x), 0x1p-7, 0x1p-12); }
#ifdef THOROUGH
OB(sqrt_q16_high) { __sa_config(FORMS, 1); auto x = fx_in<q16>(1LL << 16, INT64_MAX, 8, 1); near(R_SQRT, x, sqrt(x), 0x1p-12, 0x1p-14); }
#endif
OB(sqrt_f20_low) { __sa_config(FORMS, 1); auto x = fx_in<f20>(0, 1 << 20, 8, 1); near(R_SQRT, x, sqrt(x), 0x1p-9, 0x1p-12); }
#ifdef THOROUGH
OB(sqrt_f64_high) { __sa_config(FORMS, 1); auto x = fx_in<fixed64>(1LL << 32, INT64_MAX, 32, 1); near(R_SQRT, x, sqrt(x), 0x1p-14, 0x1p-16); }
#else
OB(sqrt_f64_high) { __sa_config(FORMS, 1); auto x = fx_in<fixed64>(1LL << 32, INT64_MAX, 32, 1); near(R_SQRT, x, sqrt(x), 0x1p-12, 0x1p-14); }
#endif
OB(sqrt_f20_high) { __sa_config(FORMS, 1); auto x = fx_in<f20>(1 << 20, INT32_MAX, 8, 1); near(R_SQRT, x, sqrt(x), 0x1p-13, 0x1p-14); }
OB(sqrt_f8) { __sa_config(FORMS, 1); auto x = fx_in<f8>(0, INT16_MAX, 8, 1); near(R_SQRT, x, sqrt(x), 0x1.2p-8, 0); }
// windows above sixteenths of the powers of 16: the iteration has converged
template <int k> void window()
{
    __sa_config(FORMS, 1);
    long long j = any_in<long long>(16, 31, 16), d = any_in<long long>(0, 4095);
    auto x = mk<fixed64>(((j << 28) + d) << (4 * k));
    near(R_SQRT, x, sqrt(x), 0x1p-14 / (1LL << (2 * k)) + 0x1p-30, 0);
}
OB(window_0) { window<0>(); } OB(window_1) { window<1>(); } OB(window_2) { window<2>(); } OB(window_3) { window<3>(); } OB(window_4) { window<4>(); } OB(window_5) { window<5>(); } OB(window_6) { window<6>(); }
// squares of integers have exact roots
template <class F, int N> void square()
{
    int k = any_in<int>(0, N, N + 1);
    CHECK(raw(sqrt(F(k * k))) == (i128)k << F::precision);
}
OB(square_f32) { square<fixed32, 181>(); }
OB(square_f8) { square<f8, 11>(); }
// next to the square of every multiple of 1/64 the root is exact to the last place
OB(floor_f32)
{
    int s = any_in<int>(1, 11585, 11585), d = any_in<int>(-1, 1, 3);
    i128 v = (i128)s * s * 16 + d;
    ASSUME(v <= INT32_MAX);
    i128 r = raw(sqrt(mk<fixed32>(v)));
    CHECK(r >= 0 && r * r <= v << 16 && (r + 1) * (r + 1) > v << 16);
}
// no root: -1
template <class F> void negative()
{
    F x = anyfx<F>();
    ASSUME(raw(x) < 0);
    CHECK(raw(sqrt(x)) == -((i128)1 << F::precision));
}
INST_SIGNED(negative)
// along rays, where the hypotenuse is a known multiple of the parameter
template <class F> void ray2(long long lim)
{
    __sa_config(MAXDISJ, 1);
    __sa_config(FORMS, 1);
    long long t = any_in<long long>(lim >> 8, lim, 8, 1);
    F h = hypot(mk<F>(3 * t), mk<F>(-4 * t));
    near(R_ID, mk<F>(5 * t), h, 0x1p-6, 0x1p-7);
}
OB(hypot_f32) { ray2<fixed32>(36LL << 16); }
// further rays, in every combination of signs and with operands on the axes, at multiples of 1/8
template <class F, int P, int Q> void ray(int n, double ta, double tr)
{
    int sg = any_in<int>(0, 3, 4), t = any_in<int>(1, n, n);
    auto s = (i128)t << (F::precision - 3);
    auto x = mk<F>((sg & 1 ? -P : P) * s), y = mk<F>((sg & 2 ? -Q : Q) * s);
    near2(R_HYPOT, x, y, hypot(x, y), ta, tr);
}
OB(hypot_11_f32) { ray<fixed32, 1, 1>(800, 0x1p-6, 0x1p-7); }
OB(hypot_10_f32) { ray<fixed32, 1, 0>(1400, 0x1p-6, 0x1p-7); }
OB(hypot_01_f32) { ray<fixed32, 0, 1>(1400, 0x1p-6, 0x1p-7); }
OB(hypot_12_f32) { ray<fixed32, 1, 2>(600, 0x1p-6, 0x1p-7); }
OB(hypot_51_f32) { ray<fixed32, 5, 1>(240, 0x1p-6, 0x1p-7); }
OB(hypot_11_f64) { ray<fixed64, 1, 1>(800, 0x1p-12, 0x1p-14); }
OB(hypot_10_f64) { ray<fixed64, 1, 0>(800, 0x1p-12, 0x1p-14); }
OB(hypot_12_f64) { ray<fixed64, 1, 2>(800, 0x1p-12, 0x1p-14); }
OB(hypot_71_f64) { ray<fixed64, 7, 1>(800, 0x1p-12, 0x1p-14); }
template <class F, int P, int Q, int R> void ray3(int m, int n, double ta, double tr)
{
    int sg = any_in<int>(0, 7, 8), t = any_in<int>(1, m, m);
    auto s = (i128)t << (F::precision - 3);
    auto x = mk<F>((sg & 1 ? -P : P) * s), y = mk<F>((sg & 2 ? -Q : Q) * s), z = mk<F>((sg & 4 ? -R : R) * s);
    near(R_ID, mk<F>(n * s), hypot(x, y, z), ta, tr);
}
OB(hypot3_122_f32) { ray3<fixed32, 1, 2, 2>(400, 3, 0x1p-6, 0x1p-7); }
OB(hypot3_236_f32) { ray3<fixed32, 2, 3, 6>(200, 7, 0x1p-6, 0x1p-7); }
OB(hypot3_001_f32) { ray3<fixed32, 0, 0, 1>(1400, 1, 0x1p-6, 0x1p-7); }
OB(hypot3_122_f64) { ray3<fixed64, 1, 2, 2>(400, 3, 0x1p-12, 0x1p-14); }
