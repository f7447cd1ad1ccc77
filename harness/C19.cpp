// cube root
// absint: --overflow --max-cells 100000
#include "types.h"
OB(cbrt_f8) { __sa_config(FORMS, 1); auto x = fx_in<f8>(INT16_MIN + 1, INT16_MAX, 65535); near(R_CBRT, x, cbrt(x), 0x1.2p-8, 0); }
template <class F, int N> void cube(int tol)
{
    int k = any_in<int>(-N, N, 2 * N + 1);
    i128 r = raw(cbrt(F(k * k * k)));
    i128 d = r - ((i128)k << F::precision);
    CHECK(-tol <= d && d <= tol);
}
OB(cube_f32) { cube<fixed32, 31>(1); }
OB(cube_f64) { cube<fixed64, 1000>(1 << 16); }
OB(cube_f20) { cube<f20, 12>(1); }
OB(cube_f8) { cube<f8, 5>(1); }
template <class F> void tiny()
{
    F x = anyfx<F>();
    i128 e = raw(F::epsilon());
    ASSUME(raw(x) == 0 || (raw(x) < e && raw(x) > -e));
    CHECK(raw(cbrt(x)) == 0);
}
INST_SIGNED(tiny)
template <class F> void lowest_value() { CHECK(raw(cbrt(mk<F>(lowest<F>()))) == -raw(cbrt(mk<F>(highest<F>())))); CHECK(raw(cbrt(mk<F>(lowest<F>()))) < -((i128)3 << F::precision)); }
INST_SIGNED(lowest_value)
