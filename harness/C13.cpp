// absolute value, minimum, maximum and the numeric limits
// absint: --overflow
#include "types.h"
template <class F> void abs_()
{
    F a = anyfx<F>();
    i128 x = raw(a);
    ASSUME(!(std::is_signed_v<vt<F>> && x == lowest<F>()));
    CHECK(raw(abs(a)) == (x < 0 ? -x : x));
}
INST_ALL(abs_)
template <class F> void minmax()
{
    F a = anyfx<F>(), b = anyfx<F>();
    i128 x = raw(a), y = raw(b);
    CHECK(raw(min(a, b)) == (x < y ? x : y));
    CHECK(raw(max(a, b)) == (x < y ? y : x));
}
INST_ALL(minmax)
template <class F> void limits()
{
    using L = std::numeric_limits<F>;
    F a = anyfx<F>();
    CHECK(L::is_specialized && L::is_bounded && L::is_exact && !L::is_integer && !L::has_infinity && !L::has_quiet_NaN);
    CHECK(L::is_signed == (raw(L::lowest()) < 0));
    CHECK(L::lowest() <= a && a <= L::max());
    CHECK(min_value<F>() <= a && a <= max_value<F>());
    CHECK(raw(L::lowest()) == lowest<F>() && raw(L::max()) == highest<F>() && raw(min_value<F>()) == lowest<F>() && raw(max_value<F>()) == highest<F>() && raw(L::min()) == lowest<F>());
}
INST_ALL(limits)
template <class F> void digits()
{
    using L = std::numeric_limits<F>;
    constexpr int n = sizeof(vt<F>) * 8 - 1;
    CHECK(L::radix == F(2) && L::digits == F(n) && L::digits10 == F(n * 30103L / 100000));
    CHECK(!L::has_signaling_NaN && !L::is_iec559 && L::round_style == std::round_toward_zero && L::traps);
}
INST_SIGNED(digits)
OB(named_limits)
{
    CHECK(raw(f32_max) == INT32_MAX && raw(f32_min) == INT32_MIN && raw(f64_max) == INT64_MAX && raw(f64_min) == INT64_MIN);
}
