// the named constants
// absint: --overflow
#include "types.h"
// the correctly truncated value of each constant, with 61 fractional bits
template <class F> void is(F v, i128 c61)
{
    i128 step = (i128)1 << (61 - F::precision), d = raw(v) * step - c61;
    CHECK(-step <= d && d <= step); // within one step
    if(!rounds<F>::value) CHECK(raw(v) == c61 >> (61 - F::precision)); // truncated
}
template <class F> void c_pi() { is<F>(numbers::pi_v<F>(), 0x6487ed5110b4611aLL); }
INST_ALL(c_pi)
template <class F> void c_e() { is<F>(numbers::e_v<F>(), 0x56fc2a2c515da54dLL); }
INST_ALL(c_e)
template <class F> void c_log2e() { is<F>(numbers::log2e_v<F>(), 0x2e2a8eca5705fc2eLL); }
INST_ALL(c_log2e)
template <class F> void c_log10e() { is<F>(numbers::log10e_v<F>(), 0xde5bd8a93728719LL); }
INST_ALL(c_log10e)
template <class F> void c_inv_pi() { is<F>(numbers::inv_pi_v<F>(), 0xa2f9836e4e44152LL); }
INST_ALL(c_inv_pi)
template <class F> void c_inv_sqrtpi() { is<F>(numbers::inv_sqrtpi_v<F>(), 0x120dd750429b6d11LL); }
INST_ALL(c_inv_sqrtpi)
template <class F> void c_ln2() { is<F>(numbers::ln2_v<F>(), 0x162e42fefa39ef35LL); }
INST_ALL(c_ln2)
template <class F> void c_ln10() { is<F>(numbers::ln10_v<F>(), 0x49aec6eed554560bLL); }
INST_ALL(c_ln10)
template <class F> void c_sqrt2() { is<F>(numbers::sqrt2_v<F>(), 0x2d413cccfe779921LL); }
INST_ALL(c_sqrt2)
template <class F> void c_sqrt3() { is<F>(numbers::sqrt3_v<F>(), 0x376cf5d0b09954e7LL); }
INST_ALL(c_sqrt3)
template <class F> void c_inv_sqrt3() { is<F>(numbers::inv_sqrt3_v<F>(), 0x1279a74590331c4dLL); }
INST_ALL(c_inv_sqrt3)
template <class F> void c_egamma() { is<F>(numbers::egamma_v<F>(), 0x12788cfc6fb618f4LL); }
INST_ALL(c_egamma)
template <class F> void c_phi() { is<F>(numbers::phi_v<F>(), 0x33c6ef372fe94f82LL); }
INST_ALL(c_phi)
OB(named)
{
    is<fixed32>(numbers::pi, 0x6487ed5110b4611aLL);
    is<fixed64>(numbers::pi_f64, 0x6487ed5110b4611aLL);
    is<fixed32>(numbers::e, 0x56fc2a2c515da54dLL);
    is<fixed64>(numbers::e_f64, 0x56fc2a2c515da54dLL);
    is<fixed32>(numbers::log2e, 0x2e2a8eca5705fc2eLL);
    is<fixed64>(numbers::log2e_f64, 0x2e2a8eca5705fc2eLL);
    is<fixed32>(numbers::log10e, 0xde5bd8a93728719LL);
    is<fixed64>(numbers::log10e_f64, 0xde5bd8a93728719LL);
    is<fixed32>(numbers::inv_pi, 0xa2f9836e4e44152LL);
    is<fixed64>(numbers::inv_pi_f64, 0xa2f9836e4e44152LL);
    is<fixed32>(numbers::inv_sqrtpi, 0x120dd750429b6d11LL);
    is<fixed64>(numbers::inv_sqrtpi_f64, 0x120dd750429b6d11LL);
    is<fixed32>(numbers::ln2, 0x162e42fefa39ef35LL);
    is<fixed64>(numbers::ln2_f64, 0x162e42fefa39ef35LL);
    is<fixed32>(numbers::ln10, 0x49aec6eed554560bLL);
    is<fixed64>(numbers::ln10_f64, 0x49aec6eed554560bLL);
    is<fixed32>(numbers::sqrt2, 0x2d413cccfe779921LL);
    is<fixed64>(numbers::sqrt2_f64, 0x2d413cccfe779921LL);
    is<fixed32>(numbers::sqrt3, 0x376cf5d0b09954e7LL);
    is<fixed64>(numbers::sqrt3_f64, 0x376cf5d0b09954e7LL);
    is<fixed32>(numbers::inv_sqrt3, 0x1279a74590331c4dLL);
    is<fixed64>(numbers::inv_sqrt3_f64, 0x1279a74590331c4dLL);
    is<fixed32>(numbers::egamma, 0x12788cfc6fb618f4LL);
    is<fixed64>(numbers::egamma_f64, 0x12788cfc6fb618f4LL);
    is<fixed32>(numbers::phi, 0x33c6ef372fe94f82LL);
    is<fixed64>(numbers::phi_f64, 0x33c6ef372fe94f82LL);
}
template <class F> void members()
{
    is<F>(F::pi(), 0x6487ed5110b4611aLL);
    is<F>(F::e(), 0x56fc2a2c515da54dLL);
    is<F>(F::pi_2(), 0x3243f6a8885a308dLL);
    is<F>(F::pi_4(), 0x1921fb54442d1846LL);
    is<F>(F::double_pi(), (i128)0x6487ed5110b4611aLL * 2);
}
INST_ALL(members)
