// random engines: reproducible sequences
// absint: --overflow
#include "types.h"
#include <random>
#include <eirin/random.hpp>
using namespace eirin;
inline void setup() { __sa_config(BITS, 1); __sa_config(SLOWOK, 1); __sa_config(STEPS, 200000); }
template <class E> using rt = typename E::result_type;
// an engine at an arbitrary point of an arbitrary sequence
template <class E> E some()
{
    E e((rt<E>)any<rt<E>>());
    e.discard((unsigned long long)any<uint64_t>());
    return e;
}
template <class E> void range()
{
    E e = some<E>();
    rt<E> v = e();
    CHECK(v >= E::min() && v <= E::max());
}
template <class E> void replay()
{
    rt<E> s = any<rt<E>>();
    uint64_t z = any<uint64_t>();
    E a(s), b(s), c, d;
    CHECK(a == b);
    c.discard(z); // an arbitrary history
    c();
    c.seed(s);
    CHECK(c == a && !(c != a));
    rt<E> v = a();
    CHECK(v == b() && v == c());
    CHECK(a == b && a == c);
    a.discard(z); b.discard(z); c.discard(z);
    v = a();
    CHECK(v == b() && v == c());
    c.seed();
    CHECK(c == d);
    E f((rt<E>)E::default_seed);
    CHECK(f == d);
    CHECK(f() == d());
}
template <class E, int N> void skip()
{
    E a = some<E>(), b = a, c = a;
    int n = any_in<int>(0, N, N + 1);
    for(int i = 0; i < n; ++i) a();
    b.discard(n);
    CHECK(a == b);
    CHECK(a() == b());
    uint64_t y = any<uint64_t>(), z = any<uint64_t>();
    E p = c, q = c;
    p.discard(y); p.discard(z);
    q.discard(y + z);
    CHECK(p == q);
    CHECK(p() == q());
}
// copies are independent
template <class E> void copies()
{
    E a = some<E>(), b = a, c = a;
    a();
    CHECK(!(a == b) && a != b);
    CHECK(b == c);
    c = a;
    CHECK(c == a);
    CHECK(a() == c());
}
template <class E> void distinct()
{
    rt<E> s = any<rt<E>>(), t = any<rt<E>>();
    ASSUME(s != t);
    E a(s), b(t);
    CHECK(!(a == b));
    CHECK(a != b);
}
// engines compare equal exactly when they will produce the same sequence
template <class E> void equality()
{
    E a((rt<E>)any_in<int>(0, 7, 8)), b((rt<E>)any_in<int>(0, 7, 8));
    a.discard(any_in<int>(0, 7, 8));
    b.discard(any_in<int>(0, 7, 8));
    E p = a, q = b;
    bool same = true;
    for(int i = 0; i < 4; ++i) same &= p() == q();
    CHECK((a == b) == same);
    CHECK((a != b) == !same);
}
// the sequence itself: x_n from seed and position
template <class E> rt<E> reference(rt<E> s, rt<E> n)
{
    using U = rt<E>;
    U v = n * (U)E::multiplier_size + s;
    v ^= v >> 8;
    v += (U)E::increment_size;
    v = (v << 8) ^ v;
    v *= (U)E::xor_multiplier_size;
    v ^= v >> 8;
    v *= (U)E::mix_multiplier_size;
    return (v & 0x7FFFFFFE) ^ (v >> 8);
}
template <class E> void sequence()
{
    rt<E> s = any<rt<E>>();
    E e(s);
    for(int i = 0; i < 3; ++i) CHECK(e() == reference<E>(s, i));
    uint64_t z = any<uint64_t>();
    e.seed(s);
    e.discard(z);
    CHECK(e() == reference<E>(s, (rt<E>)z));
}
template <class E> void sequence_points()
{
    static const unsigned long long pts[6] = {0, 1, 0x89ABCD, 0xFFFFFFFF, 0x80000000, 0x123456789ABCDEF0ull};
    int i = any_in<int>(0, 5, 6), j = any_in<int>(0, 5, 6);
    rt<E> s = (rt<E>)pts[i];
    E e(s);
    e.discard(pts[j]);
    CHECK(e() == reference<E>(s, (rt<E>)pts[j]));
    CHECK(e() == reference<E>(s, (rt<E>)(pts[j] + 1)));
}
#define BOTH(t) OB(t##_32) { setup(); t<pcg2014>(); } OB(t##_64) { setup(); t<pcg2014_64>(); }
BOTH(range) BOTH(replay) BOTH(copies) BOTH(distinct) BOTH(equality) BOTH(sequence) BOTH(sequence_points)
OB(skip_32) { setup(); skip<pcg2014, 5>(); }
OB(skip_64) { setup(); skip<pcg2014_64, 5>(); }
OB(parameters)
{
    CHECK(pcg2014::multiplier_size == 0xB5297A4Du && pcg2014::increment_size == 0x68E31DA4u && pcg2014::mix_multiplier_size == 0x1B56C4E9u && pcg2014::xor_multiplier_size == 0x92D68CA2u && pcg2014::init_state == 0 && pcg2014::default_seed == 0x89ABCD);
    CHECK(pcg2014_64::multiplier_size == 0x5851F42D4C957F2Dull && pcg2014_64::increment_size == 0x9E3779B97F4A7C15ull && pcg2014_64::mix_multiplier_size == 0x94D049BB133111EBull && pcg2014_64::xor_multiplier_size == 0xBF58476D1CE4E5B9ull && pcg2014_64::init_state == 0 && pcg2014_64::default_seed == 0x89ABCD);
    CHECK(pcg2014::min() == 0 && pcg2014_64::min() == 0);
}
// engine adapter: the raw output of the underlying engine, reinterpreted
template <class F, class E> void adapter()
{
    using A = fixed_random_engine_adapter<F, E>;
    rt<E> s = any<rt<E>>();
    uint64_t z = any<uint64_t>();
    E e(s);
    A a, b;
    CHECK(a == b);
    a.seed(s);
    CHECK(a != b || s == E::default_seed);
    b.seed(s);
    CHECK(a == b);
    F x = a(), y = b();
    CHECK(x == y);
    CHECK(raw(x) == (i128)(vt<F>)e());
    CHECK(A::min() <= x && x <= A::max());
    a.discard(z); b.discard(z); e.discard(z);
    x = a();
    CHECK(x == b());
    CHECK(raw(x) == (i128)(vt<F>)e());
    CHECK(a.__underlying_engine() == e);
}
OB(adapter_f32) { setup(); adapter<fixed32, pcg2014>(); }
OB(adapter_f64) { setup(); adapter<fixed64, pcg2014_64>(); }
// a seed sequence supplies seed and position
template <class E> void seq()
{
    uint32_t k = any<uint32_t>();
    std::seed_seq p{k, 7u}, q{k, 7u}, r{k, 7u};
    E a = some<E>(), b;
    a.seed(p);
    b.seed(q);
    CHECK(a == b);
    rt<E> w[2];
    r.generate(w, w + 2);
    E c(w[0]);
    c.discard(w[1]);
    CHECK(a == c);
    CHECK(a() == b() && a == b);
}
BOTH(seq)
template <class F, class E> void adapter_seq()
{
    uint32_t k = any<uint32_t>();
    std::seed_seq p{k}, q{k};
    fixed_random_engine_adapter<F, E> a;
    E e;
    a.seed(p);
    e.seed(q);
    CHECK(a.__underlying_engine() == e);
    CHECK(raw(a()) == (i128)(vt<F>)e());
}
OB(adapter_seq_f32) { setup(); adapter_seq<fixed32, pcg2014>(); }
OB(adapter_seq_f64) { setup(); adapter_seq<fixed64, pcg2014_64>(); }
