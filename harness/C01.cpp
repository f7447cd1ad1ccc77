// addition, subtraction, negation, increment and decrement are exact
// absint: --overflow
#include "types.h"
template <class F> void add()
{
    F a = anyfx<F>(), b = anyfx<F>();
    i128 x = raw(a), y = raw(b);
    if(fits<vt<F>>(x + y))
    {
        CHECK(raw(a + b) == x + y);
        F c = a;
        F& ref = (c += b);
        CHECK(&ref == &c && raw(c) == x + y && raw(b) == y);
    }
    if(fits<vt<F>>(x - y))
    {
        CHECK(raw(a - b) == x - y);
        F c = a;
        F& ref = (c -= b);
        CHECK(&ref == &c && raw(c) == x - y && raw(b) == y);
    }
    CHECK(raw(a) == x && raw(b) == y);
}
INST_ALL(add)
template <class F> void alias()
{
    F a = anyfx<F>();
    i128 x = raw(a);
    if(fits<vt<F>>(2 * x)) { F c = a; c += c; CHECK(raw(c) == 2 * x); }
    F d = a;
    d -= d;
    CHECK(raw(d) == 0);
}
INST_ALL(alias)
template <class F> void neg()
{
    F a = anyfx<F>();
    i128 x = raw(a);
    if(fits<vt<F>>(-x)) { CHECK(raw(-a) == -x); CHECK(raw(-(-a)) == x); }
    CHECK(raw(a) == x);
}
INST_R(neg)
template <class F> void step()
{
    F a = anyfx<F>();
    i128 x = raw(a), u = (i128)1 << F::precision;
    if(fits<vt<F>>(x + u))
    {
        F c = a;
        F r = ++c;
        CHECK(raw(r) == x + u && raw(c) == x + u);
        F d = a;
        F q = d++;
        CHECK(raw(q) == x && raw(d) == x + u);
    }
    if(fits<vt<F>>(x - u))
    {
        F c = a;
        F r = --c;
        CHECK(raw(r) == x - u && raw(c) == x - u);
        F d = a;
        F q = d--;
        CHECK(raw(q) == x && raw(d) == x - u);
    }
}
INST_ALL(step)
// a + b - b == a, (a + b) + c == a + (b + c), a + b == b + a, also when intermediate sums need reordering
template <class F> void laws()
{
    F a = anyfx<F>(), b = anyfx<F>(), c = anyfx<F>();
    i128 x = raw(a), y = raw(b), z = raw(c);
    ASSUME(fits<vt<F>>(x + y) && fits<vt<F>>(y + z) && fits<vt<F>>(x + y + z));
    CHECK(a + b - b == a);
    CHECK(a + b == b + a);
    CHECK((a + b) + c == a + (b + c));
}
INST_ALL(laws)
