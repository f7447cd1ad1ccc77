// ordering, equality and hashing follow the numeric value
// absint: --overflow
#include "types.h"
#include <compare>
template <class F> void order()
{
    F a = anyfx<F>(), b = anyfx<F>();
    i128 x = raw(a), y = raw(b);
    CHECK((a == b) == (x == y));
    CHECK((a != b) == (x != y));
    CHECK((a < b) == (x < y));
    CHECK((a <= b) == (x <= y));
    CHECK((a > b) == (x > y));
    CHECK((a >= b) == (x >= y));
    auto c = a <=> b;
    CHECK((c < 0) == (x < y));
    CHECK((c > 0) == (x > y));
    CHECK((c == 0) == (x == y));
}
INST_ALL(order)
template <class F> void hash()
{
    F a = anyfx<F>(), b = anyfx<F>();
    ASSUME(raw(a) == raw(b));
    fixed_hash<F> h, g;
    CHECK(a == b);
    CHECK(h(a) == g(b));
}
INST_ALL(hash)
template <class F> void hash_value()
{
    F a = anyfx<F>();
    fixed_hash<F> h;
    CHECK(h(a) == std::hash<vt<F>>()(a.internal_value()));
}
INST_ALL(hash_value)
