// std::format: the numeric text
// absint: --overflow --max-cells 20000
#include "fmt.h"
// o, from position i on, is the integer part of a and its fraction truncated to at most p decimals
template <class F> void decimal_text(const sink& o, int i, i128 a, int p, bool pad)
{
    i128 ip = 0, fp = 0, pw = 1, m = (i128)1 << F::precision;
    int first = i, n = 0;
    while(i < o.n && o.c[i] != '.') { ip = ip * 10 + value_of(o.c[i], 10); ++i; }
    CHECK(i > first);
    if(i - first > 1) CHECK(o.c[first] != '0');
    CHECK(ip == a / m);
    if(i < o.n)
    {
        ++i;
        CHECK(i < o.n);
        while(i < o.n) { fp = fp * 10 + value_of(o.c[i], 10); pw *= 10; ++n; ++i; }
    }
    CHECK(pad ? n == p : n <= p);
    i128 fr = a - ip * m;
    CHECK(fp * m <= fr * pw && fr * pw < (fp + 1) * m);
    if(n < p) CHECK(fp * m == fr * pw);
}
template <class F> void text(char type, int p)
{
    F x = anyfx<F>();
    spec s;
    if(p >= 0) { s.put('.'); s.number(p); }
    if(type) s.put(type);
    s.put('}');
    sink o;
    format(o, x, s);
    i128 v = raw(x);
    int i = 0;
    CHECK((o.c[0] == '-') == (v < 0));
    if(v < 0) i = 1;
    decimal_text<F>(o, i, v < 0 ? -v : v, p < 0 ? 6 : p, type == 'f' || type == 'F');
}
template <class F> void plain() { text<F>(0, -1); }
INST_ALL(plain)
template <class F> void fixed() { text<F>('f', -1); }
INST_ALL(fixed)
template <class F> void prec() { text<F>('f', any_in<int>(0, 12, 13)); }
INST_ALL(prec)
template <class F> void gprec() { text<F>('g', any_in<int>(0, 12, 13)); }
INST_ALL(gprec)
// as many decimals as the format has fraction bits, and more
template <class F, int P, int N> void deep(char type)
{
    int p = P + any_in<int>(0, N, N + 1);
    long long w = any_in<long long>(-2, 2, 5), k = any_in<long long>(1, 15);
    F x = mk<F>(((i128)w << F::precision) + (k << (F::precision - 4)) + k);
    spec s;
    s.put('.'); s.number(p); s.put(type); s.put('}');
    sink o;
    format(o, x, s);
    i128 v = raw(x), m = (i128)1 << F::precision, a = v < 0 ? -v : v;
    int i = 0;
    if(v < 0) { CHECK(o.c[0] == '-'); i = 1; }
    CHECK(o.c[i] == '0' + (int)(a >> F::precision) && o.c[i + 1] == '.');
    i += 2;
    CHECK(type == 'f' ? o.n - i == p : o.n - i <= p);
    // digit by digit, so that nothing exceeds the wide type
    i128 fr = a & (m - 1);
    for(; i < o.n; ++i)
    {
        fr *= 10;
        CHECK(value_of(o.c[i], 10) == fr >> F::precision);
        fr &= m - 1;
    }
    if(type != 'f' && fr != 0) CHECK(o.n == (v < 0) + 2 + p);
}
OB(deep_f32) { deep<fixed32, 13, 7>('f'); }
OB(deep_f64) { deep<fixed64, 13, 23>('f'); }
OB(deep_general_f64) { deep<fixed64, 13, 23>('g'); }
// whole-number types
template <class F> void whole(char type, int base)
{
    F x = anyfx<F>();
    spec s;
    s.put(type); s.put('}');
    sink o;
    format(o, x, s);
    i128 v = raw(x), a = v < 0 ? -v : v, ip = 0;
    int i = 0;
    CHECK((o.c[0] == '-') == (v < 0));
    if(v < 0) i = 1;
    int first = i;
    for(; i < o.n; ++i) ip = ip * base + value_of(o.c[i], base);
    CHECK(i > first);
    if(i - first > 1) CHECK(o.c[first] != '0');
    CHECK(ip == a >> F::precision);
    if(base == 16) for(i = 0; i < o.n; ++i) CHECK(type == 'X' ? !(o.c[i] >= 'a') : !(o.c[i] >= 'A' && o.c[i] <= 'F'));
}
template <class F> void dec() { whole<F>('d', 10); }
INST_ALL(dec)
template <class F> void oct() { whole<F>('o', 8); }
INST_ALL(oct)
template <class F> void hexa() { whole<F>('x', 16); }
INST_NARROW(hexa)
template <class F> void HEXA() { whole<F>('X', 16); }
INST_NARROW(HEXA)
template <class F> void bina() { whole<F>(any_in<int>(0, 1, 2) ? 'b' : 'B', 2); }
OB(bina_f8) { bina<f8>(); }
OB(bina_f20) { bina<f20>(); }
// general and upper-case types equal the plain and the lower-case ones
template <class F> void same()
{
    F x = anyfx<F>();
    int k = any_in<int>(0, 2, 3);
    spec a, b;
    if(k == 0) { b.put('g'); }
    if(k == 1) { b.put('G'); }
    if(k == 2) { a.put('f'); b.put('F'); }
    a.put('}'); b.put('}');
    sink o, q;
    format(o, x, a);
    format(q, x, b);
    CHECK(o.n == q.n);
    for(int i = 0; i < o.n && i < q.n; ++i) CHECK(o.c[i] == q.c[i]);
}
INST_ALL(same)
// debug: the stored integer in hexadecimal, as magnitude with sign
template <class F> void debug()
{
    F x = anyfx<F>();
    int alt = any_in<int>(0, 1, 2);
    spec s;
    if(alt) s.put('#');
    s.put('?'); s.put('}');
    sink o;
    format(o, x, s);
    i128 v = raw(x), a = v < 0 ? -v : v, ip = 0;
    int i = 0;
    CHECK((o.c[0] == '-') == (v < 0));
    if(v < 0) i = 1;
    if(alt) { CHECK(o.c[i] == '0' && o.c[i + 1] == 'x'); i += 2; }
    int first = i;
    for(; i < o.n; ++i) ip = ip * 16 + value_of(o.c[i], 16);
    CHECK(i > first);
    if(i - first > 1) CHECK(o.c[first] != '0');
    CHECK(ip == a);
}
OB(debug_f32) { debug<fixed32>(); }
OB(debug_f20) { debug<f20>(); }
OB(debug_f8) { debug<f8>(); }
OB(debug_u16) { debug<u16f>(); }
OB(debug_r32) { debug<r32>(); }
