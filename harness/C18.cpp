// exponential and powers
// absint: --overflow --max-cells 60000
#include "types.h"
OB(exp_f32) { __sa_config(FORMS, 1); auto x = fx_in<fixed32>(-20LL << 16, 10LL << 16, 64); near(R_EXP, x, exp(x), 0x1p-12, 0x1p-12); }
OB(exp_f64) { __sa_config(FORMS, 1); auto x = fx_in<fixed64>(-20LL << 32, 20LL << 32, 64); near(R_EXP, x, exp(x), 0x1p-18, 0x1p-18); }
OB(exp_f20) { __sa_config(FORMS, 1); auto x = fx_in<f20>(-20LL << 20, 7LL << 20, 64); near(R_EXP, x, exp(x), 0x1p-15, 0x1p-15); }
OB(exp_q16) { __sa_config(FORMS, 1); auto x = fx_in<q16>(-20LL << 16, 20LL << 16, 64); near(R_EXP, x, exp(x), 0x1p-12, 0x1p-12); }
OB(exp_q48) { __sa_config(FORMS, 1); auto x = fx_in<q48>(-20LL << 48, 9LL << 48, 64); near(R_EXP, x, exp(x), 0x1p-18, 0x1p-18); }
OB(exp_f8) { __sa_config(FORMS, 1); auto x = fx_in<f8>(-20LL << 8, 4LL << 8, 64); near(R_EXP, x, exp(x), 0x1p-5, 0x1p-5); }
// arguments far below zero vanish
OB(exp_vanish_f32) { __sa_config(FORMS, 1); auto x = fx_in<fixed32>(-2000LL << 16, -12LL << 16, 64); near(R_EXP, x, exp(x), 0x1p-15, 0); }
OB(exp_vanish_f64) { __sa_config(FORMS, 1); auto x = fx_in<fixed64>(-2000LL << 32, -20LL << 32, 64); near(R_EXP, x, exp(x), 0x1p-27, 0); }
template <class F> void at_zero() { CHECK(raw(exp(mk<F>(0))) == (i128)1 << F::precision); }
INST_SIGNED(at_zero)
OB(at_zero_b4) { at_zero<b4>(); }
// integer exponents: the product of that many factors
template <class F, int N> void small_power()
{
    F x = anyfx<F>();
    i128 v = raw(x);
    constexpr int f = F::precision;
    CHECK(raw(pow(x, 0)) == (i128)1 << f);
    CHECK(raw(pow(x, 1)) == v);
    CHECK(raw(pow(x, 1u)) == v && raw(pow(x, 1LL)) == v);
    i128 q = fdiv(v * v, (i128)1 << f);
    if(fits<vt<F>>(q)) CHECK(raw(pow(x, 2)) == raw(x * x));
}
OB(power_f32) { small_power<fixed32, 2>(); }
OB(power_f64) { small_power<fixed64, 2>(); }
OB(power_f20) { small_power<f20, 2>(); }
OB(power_q16) { small_power<q16, 2>(); }
OB(power_q48) { small_power<q48, 2>(); }
OB(power_f8) { small_power<f8, 2>(); }
// powers of two are exact in both directions, where the power and its reciprocal are representable
template <class F> void two()
{
    constexpr int f = F::precision, bits = sizeof(vt<F>) * 8;
    constexpr int h = bits - 2 - f < f ? bits - 2 - f : f;
    int k = any_in<int>(-h, bits - 2 - f, bits - 1 - f + h);
    CHECK(raw(pow(F(2), k)) == (i128)1 << (f + k));
    CHECK(raw(pow(F(2), F(k))) == (i128)1 << (f + k));
    CHECK(raw(pow(F(-2), k)) == ((k % 2) ? -((i128)1 << (f + k)) : (i128)1 << (f + k)));
}
INST_SIGNED(two)
OB(two_q16) { two<q16>(); }
OB(two_q48) { two<q48>(); }
OB(two_b4) { two<b4>(); }
// small integers to small powers are exact
template <class F, int B, int E> void integers()
{
    int b = any_in<int>(-B, B, 2 * B + 1), e = any_in<int>(0, E, E + 1);
    ASSUME(b != 0);
    i128 p = 1;
    for(int i = 0; i < e; ++i) p *= b;
    ASSUME(fits<vt<F>>(p << F::precision));
    CHECK(raw(pow(F(b), e)) == p << F::precision);
    CHECK(raw(pow(F(b), F(e))) == p << F::precision);
}
OB(integers_f32) { integers<fixed32, 12, 14>(); }
OB(integers_q16) { integers<q16, 12, 46>(); }
OB(integers_q48) { integers<q48, 12, 15>(); }
OB(integers_f64) { integers<fixed64, 12, 30>(); }
// exponents beyond the range of int
template <class F> void far()
{
    constexpr int f = F::precision;
    long long k = any_in<long long>(-3, 3, 7);
    int w = any_in<int>(0, 6, 7);
    long long e = (w == 0 ? 0 : w == 1 ? 1LL << 31 : w == 2 ? 1LL << 32 : w == 3 ? 5LL << 33 : w == 4 ? 1LL << 52 : w == 5 ? -(1LL << 32) : -(3LL << 40)) + k;
    i128 u = (i128)1 << f;
    CHECK(raw(pow(mk<F>(u), e)) == u);
    CHECK(raw(pow(mk<F>(-u), e)) == (e % 2 ? -u : u));
    if(e >= 0) CHECK(raw(pow(mk<F>(u), (unsigned long long)e)) == u && raw(pow(mk<F>(-u), (unsigned long long)e)) == (e % 2 ? -u : u));
    if(e > 64) CHECK(raw(pow(mk<F>(u / 2), e)) == 0);
    if(e < -64) CHECK(raw(pow(mk<F>(2 * u), e)) == 0);
    CHECK(raw(pow(mk<F>(0), e)) == (e == 0 ? u : 0));
}
INST_SIGNED(far)
OB(far_q48) { far<q48>(); }
template <class F, class E> void limits()
{
    i128 u = (i128)1 << F::precision;
    E e = std::numeric_limits<E>::max();
    CHECK(raw(pow(mk<F>(u), e)) == u && raw(pow(mk<F>(-u), e)) == -u && raw(pow(mk<F>(u / 2), e)) == 0);
    e = std::numeric_limits<E>::min();
    CHECK(raw(pow(mk<F>(u), e)) == u && raw(pow(mk<F>(-u), e)) == u);
    if(e) CHECK(raw(pow(mk<F>(2 * u), e)) == 0);
}
OB(limits_i8) { limits<fixed32, int8_t>(); limits<fixed64, int8_t>(); }
OB(limits_u8) { limits<fixed32, uint8_t>(); limits<fixed64, uint8_t>(); }
OB(limits_i16) { limits<fixed32, int16_t>(); limits<fixed64, int16_t>(); }
OB(limits_u16) { limits<fixed32, uint16_t>(); limits<fixed64, uint16_t>(); }
OB(limits_i32) { limits<fixed32, int32_t>(); limits<fixed64, int32_t>(); }
OB(limits_u32) { limits<fixed32, uint32_t>(); limits<fixed64, uint32_t>(); }
OB(limits_i64) { limits<fixed32, int64_t>(); limits<fixed64, int64_t>(); }
OB(limits_u64) { limits<fixed32, uint64_t>(); limits<fixed64, uint64_t>(); }
// zero base
template <class F> void zero_base()
{
    int e = any<int>();
    CHECK(raw(pow(mk<F>(0), e)) == (e == 0 ? (i128)1 << F::precision : 0));
    F g = anyfx<F>();
    CHECK(raw(pow(mk<F>(0), g)) == (raw(g) == 0 ? (i128)1 << F::precision : 0));
}
INST_SIGNED(zero_base)
OB(zero_base_q48) { zero_base<q48>(); }
// reciprocal powers
OB(inverse_f32) { __sa_config(FORMS, 1); auto x = fx_in<fixed32>(1LL << 12, INT32_MAX, 8, 1); near(R_INV, x, pow(x, -1), 0x1p-15, 0); }
OB(inverse_neg_f32) { __sa_config(FORMS, 1); auto x = fx_in<fixed32>(-INT32_MAX, -(1LL << 12), 8, 1); near(R_INV, x, pow(x, -1), 0x1p-15, 0); }
// fractional exponents of a given base, roots of a given order
template <class F> void base(F b, double t)
{
    __sa_config(FORMS, 1);
    F e = fx_in<F>(-3LL << F::precision, 3LL << F::precision, 24);
    near2(R_POW, b, e, pow(b, e), t, t);
}
OB(base2_f32) { base<fixed32>(fixed32(2), 0x1p-10); }
OB(base3_f32) { base<fixed32>(fixed32(3), 0x1p-10); }
OB(base10_f32) { base<fixed32>(fixed32(10), 0x1p-10); }
OB(base_half_f32) { base<fixed32>(fixed32(0.5), 0x1p-10); }
OB(base2_f64) { base<fixed64>(fixed64(2), 0x1p-17); }
OB(base10_f64) { base<fixed64>(fixed64(10), 0x1p-17); }
template <class F> void order(F e, double t)
{
    __sa_config(MAXDISJ, 1);
    __sa_config(FORMS, 1);
    F b = fx_in<F>(1LL << F::precision, 4LL << F::precision, 64);
    near2(R_POW, b, e, pow(b, e), t, t);
}
OB(order_half_f32) { order<fixed32>(fixed32(0.5), 0x1p-6); }
OB(order_3half_f32) { order<fixed32>(fixed32(1.5), 0x1p-6); }
OB(order_neghalf_f32) { order<fixed32>(fixed32(-0.5), 0x1p-6); }
