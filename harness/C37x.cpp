// exceptions disabled: what would throw terminates, and nothing else does
// flags: -fno-exceptions
// absint: --max-cells 60000
#include "types.h"
#include <eirin/io/parse.hpp>
bool expected;
extern "C" void sa_model__ZSt9terminatev() { CHECK(expected); ASSUME(false); }
extern "C" void sa_model_abort() { CHECK(expected); ASSUME(false); }
// the call ends the program exactly when bad
#define ENDS(bad, ...) do { expected = (bad); (void)(__VA_ARGS__); CHECK(!expected); } while(0)
template <class F> void division()
{
    F a = anyfx<F>(), b = anyfx<F>(), c = a;
    int k = any<int>();
    int w = any_in<int>(0, 3, 4);
    ASSUME(raw(b) == 0 || raw(b) < -1 || raw(b) > 1);
    ASSUME(raw(b) == 0 || fits<vt<F>>((raw(a) << F::precision) / raw(b)));
    ASSUME(k != -1);
    if(w == 0) ENDS(raw(b) == 0, a.divide(b));
    if(w == 1) ENDS(raw(b) == 0, c.divide_by(b));
    if(w == 2) ENDS(k == 0, a.divide(k));
    if(w == 3) ENDS(k == 0, c.divide_by(k));
}
INST_SIGNED(division)
template <class F> void logarithm()
{
    __sa_config(MAXDISJ, 1);
    F x = anyfx<F>();
    int w = any_in<int>(0, 2, 3);
    if(w == 0) ENDS(raw(x) <= 0, log2(x));
    if(w == 1) ENDS(raw(x) <= 0, log(x));
    if(w == 2) ENDS(raw(x) <= 0, log10(x));
}
INST_SIGNED(logarithm)
template <class F> void arc()
{
    __sa_config(MAXDISJ, 1);
    F x = anyfx<F>();
    i128 m = (i128)1 << F::precision;
    int w = any_in<int>(0, 3, 4);
    bool out = raw(x) > m || raw(x) < -m;
    ASSUME(out == (w >= 2));
    if(w % 2 == 0) ENDS(w >= 2, asin(x));
    else ENDS(w >= 2, acos(x));
}
INST_SIGNED(arc)
template <class F> void power()
{
    i128 k = any_in<int>(-64, 64, 129), b = any_in<int>(1, 3, 3);
    F e = mk<F>(k << (F::precision - 4)), n = mk<F>(-(b << F::precision));
    ENDS(k % 16 != 0, pow(n, e));
}
OB(power_f32) { power<fixed32>(); }
OB(power_f64) { power<fixed64>(); }
template <class F, int W> void text()
{
    static const char* const good[5] = {"0", "-1.5", "12.25", "0.00001", "7."};
    static const char* const bad[5] = {"x", "1x", "1.2.3", "99999999999", "--1"};
    int i = any_in<int>(0, 4, 5), w = any_in<int>(0, 1, 2);
    const char* s = w ? bad[i] : good[i];
    size_t n = 0;
    while(s[n]) ++n;
    if constexpr(W == 0) ENDS(w == 1, operator""_f32(s, n));
    else ENDS(w == 1, operator""_f64(s, n));
}
OB(text_f32) { text<fixed32, 0>(); }
OB(text_f64) { text<fixed64, 1>(); }
