// tolerant comparisons
// absint: --overflow
#include "types.h"
template <class F> void nearly()
{
    F a = anyfx<F>(), b = anyfx<F>();
    i128 x = raw(a), y = raw(b);
    i128 d = x - y, t = ((i128)0x5000000000000ll << F::precision) >> 64; // 5 * 2^-16 ... scaled, truncated
    CHECK(a.nearly_eq(b) == (d <= t && -d <= t));
    CHECK(a.nearly_ne(b) == !(d <= t && -d <= t));
    CHECK(a.nearly_gt(b) == (d > t));
    CHECK(a.nearly_lt(b) == (-d > t));
    CHECK(a.nearly_gt_eq(b) == (d >= -t));
    CHECK(a.nearly_lt_eq(b) == (d <= t));
    CHECK(raw(a) == x && raw(b) == y);
}
INST_ALL(nearly)
template <class F> void trichotomy()
{
    F a = anyfx<F>(), b = anyfx<F>();
    CHECK((int)a.nearly_eq(b) + (int)a.nearly_gt(b) + (int)a.nearly_lt(b) == 1);
    CHECK(a.nearly_eq(b) == b.nearly_eq(a));
    CHECK(a.nearly_gt(b) == b.nearly_lt(a));
    if(a == b) CHECK(a.nearly_eq(b));
    if(a.nearly_gt(b)) CHECK(a > b);
}
INST_ALL(trichotomy)
