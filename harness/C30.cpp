// distributions over fixed point numbers
// absint: --overflow
#include "types.h"
#include <random>
#include <eirin/random.hpp>
using namespace eirin;
// an integer distribution that records what it is asked for and returns an arbitrary value of the range
struct asked { i128 lo, hi; int calls; long long out; } last;
template <class T> struct probe
{
    using result_type = T;
    struct param_type
    {
        T lo, hi;
        param_type(T l, T h) : lo(l), hi(h) {}
        T a() const { return lo; }
        T b() const { return hi; }
        friend bool operator==(const param_type& x, const param_type& y) { return x.lo == y.lo && x.hi == y.hi; }
    };
    param_type p;
    probe(T l, T h) : p(l, h) {}
    explicit probe(const param_type& q) : p(q) {}
    template <class G> T draw(G& g, T l, T h)
    {
        (void)g;
        CHECK(l <= h);
        last.lo = l; last.hi = h; last.calls++;
        T v = (T)last.out;
        ASSUME(v >= l && v <= h);
        return v;
    }
    template <class G> T operator()(G& g) { return draw(g, p.lo, p.hi); }
    template <class G> T operator()(G& g, const param_type& q) { return draw(g, q.lo, q.hi); }
    param_type param() const { return p; }
    void param(const param_type& q) { p = q; }
    T a() const { return p.lo; }
    T b() const { return p.hi; }
    T min() const { return p.lo; }
    T max() const { return p.hi; }
    void reset() {}
};
struct gen // bit generator giving arbitrary words
{
    using result_type = uint32_t;
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 0xFFFFFFFFu; }
    int left = 3;
    result_type operator()() { if(left-- <= 0) __sa_stop(); return (result_type)any<uint32_t>(); }
};
struct gen_adapter { gen g; gen& __underlying_engine() { return g; } };
template <class F, class D, class G> void uses()
{
    F a = anyfx<F>(), b = anyfx<F>(), c = anyfx<F>(), d = anyfx<F>();
    ASSUME(raw(a) <= raw(b));
    ASSUME(raw(c) <= raw(d));
    last.calls = 0;
    G g;
    D x(a, b);
    CHECK(raw(x.a()) == raw(a) && raw(x.b()) == raw(b) && raw(x.min()) == raw(a) && raw(x.max()) == raw(b));
    // its own bounds, exactly
    last.out = any<vt<F>>();
    F v = x(g);
    CHECK(last.calls == 1 && last.lo == raw(a) && last.hi == raw(b));
    CHECK(raw(v) == last.out && a <= v && v <= b);
    // one-off bounds: honoured, and forgotten afterwards
    typename D::param_type p(c, d);
    CHECK(raw(p.a()) == raw(c) && raw(p.b()) == raw(d));
    last.out = any<vt<F>>();
    v = x(g, p);
    CHECK(last.calls == 2 && last.lo == raw(c) && last.hi == raw(d));
    CHECK(raw(v) == last.out && c <= v && v <= d);
    CHECK(raw(x.a()) == raw(a) && raw(x.b()) == raw(b));
    last.out = any<vt<F>>();
    v = x(g);
    CHECK(last.calls == 3 && last.lo == raw(a) && last.hi == raw(b));
    x.reset();
    CHECK(x.param() == typename D::param_type(a, b));
    // new bounds
    x.param(p);
    CHECK(x.param() == p && !(x.param() != p));
    CHECK(raw(x.a()) == raw(c) && raw(x.b()) == raw(d) && raw(x.min()) == raw(c) && raw(x.max()) == raw(d));
    last.out = any<vt<F>>();
    v = x(g);
    CHECK(last.calls == 4 && last.lo == raw(c) && last.hi == raw(d));
    D y(p);
    last.out = any<vt<F>>();
    v = y(g);
    CHECK(last.calls == 5 && last.lo == raw(c) && last.hi == raw(d) && raw(v) == last.out);
    CHECK((y.param() == typename D::param_type(a, b)) == (raw(a) == raw(c) && raw(b) == raw(d)));
}
// without bounds: the limits of the type
template <class F, class D, class G> void defaults()
{
    D x;
    G g;
    last.calls = 0;
    last.out = any<vt<F>>();
    F v = x(g);
    CHECK(last.lo == raw(std::numeric_limits<F>::min()) && last.hi == raw(std::numeric_limits<F>::max()));
    CHECK(raw(v) == last.out);
    CHECK(raw(x.a()) == last.lo && raw(x.b()) == last.hi);
}
#define INST(n, F) \
    OB(uses_int_##n) { uses<F, fixed_int_distribution_adapter<F, probe<vt<F>>>, gen>(); } \
    OB(uses_##n) { uses<F, fixed_distribution_adapter<F, probe<vt<F>>>, gen_adapter>(); } \
    OB(defaults_int_##n) { defaults<F, fixed_int_distribution_adapter<F, probe<vt<F>>>, gen>(); } \
    OB(defaults_##n) { defaults<F, fixed_distribution_adapter<F, probe<vt<F>>>, gen_adapter>(); }
INST(f32, fixed32) INST(f64, fixed64) INST(f20, f20) INST(f8, f8) INST(u16, u16f) INST(r32, r32)
// the standard uniform distribution, arbitrary generator words
template <class F, class D, class G> void uniform(long long lo, long long hi)
{
    F a = mk<F>(lo), b = mk<F>(hi);
    D x(a, b);
    G g;
    F v = x(g);
    CHECK(a <= v && v <= b);
}
#define UNI(n, lo, hi) \
    OB(uniform_int_##n) { uniform<fixed32, fixed_int_distribution_adapter<fixed32, std::uniform_int_distribution<int>>, gen>(lo, hi); } \
    OB(uniform_##n) { uniform<fixed32, fixed_distribution_adapter<fixed32, std::uniform_int_distribution<int>>, gen_adapter>(lo, hi); }
UNI(a, -65536, 65536) UNI(b, 0, 0) UNI(c, -2147483647 - 1, 2147483647) UNI(d, -5, 2147483647) UNI(e, 7, 8)
