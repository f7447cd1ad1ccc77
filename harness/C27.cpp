// number to text (streams): the text is the exact value
// absint: --overflow --max-cells 20000
#include "text.h"
struct sink
{
    char c[160];
    int n = 0;
};
struct out_it
{
    using difference_type = long;
    using iterator_category = std::output_iterator_tag;
    using value_type = void;
    using pointer = void;
    using reference = void;
    sink* s;
    out_it& operator*() { return *this; }
    out_it& operator++() { return *this; }
    out_it operator++(int) { return *this; }
    out_it& operator=(char ch) { CHECK(s->n < 160); s->c[s->n++] = ch; return *this; }
};
inline int value_of(char c, int base) { int d = c >= 'a' ? c - 'a' + 10 : c >= 'A' ? c - 'A' + 10 : c - '0'; CHECK(d >= 0 && d < base); return d; }
// the text of s in the given base: sign, at least one digit, and a fraction without trailing zero
template <class F> void exact(const sink& s, i128 v, int base)
{
    int i = 0;
    bool neg = false;
    if(s.c[0] == '-') { neg = true; ++i; }
    CHECK(neg == (v < 0));
    i128 a = neg ? -v : v, ip = 0, fp = 0, p = 1, m = (i128)1 << F::precision;
    int first = i, n = 0;
    while(i < s.n && s.c[i] != '.') { ip = ip * base + value_of(s.c[i], base); ++i; }
    CHECK(i > first);
    if(i - first > 1) CHECK(s.c[first] != '0');
    CHECK(ip == a / m);
    if(i < s.n)
    {
        ++i;
        CHECK(i < s.n);
        if(F::precision <= 8) CHECK(s.c[s.n - 1] != '0');
        while(i < s.n) { fp = fp * base + value_of(s.c[i], base); p *= base / 2; ++n; ++i; }
    }
    CHECK(n <= (int)F::precision);
    CHECK(fp << (F::precision - n) == (a - ip * m) * p); // fp / base^n is the fraction
}
// an output stream as libstdc++ lays it out, whose single characters go to the sink
struct mock_out
{
    const long* vptr;
    struct { const void* vptr; long precision, width; unsigned flags; unsigned rest[64]; } ios;
};
static_assert(sizeof(std::ios_base::fmtflags) == 4);
const long mock_vtable[4] = {sizeof(void*), 0, 0, 0}; // offset of the virtual base, offset to top, type information
sink* the_sink;
extern "C" std::ostream* sa_model__ZNSo3putEc(std::ostream* o, char c) { CHECK(the_sink->n < 160); the_sink->c[the_sink->n++] = c; return o; }
extern "C" std::ostream* sa_model__ZNSo5writeEPKcl(std::ostream* o, const char* p, long n) { for(long i = 0; i < n; ++i) sa_model__ZNSo3putEc(o, p[i]); return o; }
extern "C" std::ostream* sa_model__ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(std::ostream* o, const char* p, long n) { return sa_model__ZNSo5writeEPKcl(o, p, n); }
extern "C" std::ostream* sa_model__ZNSo5writeEPKci(std::ostream* o, const char* p, int n) { return sa_model__ZNSo5writeEPKcl(o, p, n); } // where streamsize is int
extern "C" std::ostream* sa_model__ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_i(std::ostream* o, const char* p, int n) { return sa_model__ZNSo5writeEPKcl(o, p, n); }
extern "C" std::ostream* sa_model__ZNSo5flushEv(std::ostream* o) { return o; }
extern "C" std::ostream* sa_model__ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c(std::ostream* o, char c) { return sa_model__ZNSo3putEc(o, c); }
// text of x written to a stream with the given flags
template <class F> void insert(sink& s, F x, unsigned flags)
{
    mock_out m;
    m.vptr = mock_vtable + 3;
    m.ios.precision = 6; m.ios.width = 0; m.ios.flags = flags;
    the_sink = &s;
    std::ostream& o = reinterpret_cast<std::ostream&>(m);
    CHECK(&(o << x) == &o);
}
inline unsigned other_flags()
{
    return (unsigned)std::ios_base::skipws | (any_in<int>(0, 1, 2) ? (unsigned)std::ios_base::showpoint : 0);
}
// decimal is what a stream writes unless told otherwise
template <class F> void decimal()
{
    F x = anyfx<F>();
    sink s;
    insert(s, x, (unsigned)std::ios_base::dec | other_flags());
    exact<F>(s, raw(x), 10);
}
OB(decimal_f32) { decimal<fixed32>(); }
OB(decimal_f20) { decimal<f20>(); }
OB(decimal_f8) { decimal<f8>(); }
OB(decimal_u16) { decimal<u16f>(); }
OB(decimal_b4) { decimal<b4>(); }
OB(decimal_r32) { decimal<r32>(); }
// the 64-bit formats: up to a million in magnitude, and every whole number
template <class F> void decimal_wide()
{
    F x = mk<F>(any_in<long long>(-(1000000LL << 32), 1000000LL << 32));
    sink s;
    insert(s, x, (unsigned)std::ios_base::dec | other_flags());
    exact<F>(s, raw(x), 10);
}
OB(decimal_wide_f64) { decimal_wide<fixed64>(); }
OB(decimal_wide_r64) { decimal_wide<r64>(); }
template <class F> void decimal_whole()
{
    F x = mk<F>((i128)any_in<int>(-2147483647 - 1, 2147483647) << 32);
    sink s;
    insert(s, x, (unsigned)std::ios_base::dec | other_flags());
    exact<F>(s, raw(x), 10);
}
OB(decimal_whole_f64) { decimal_whole<fixed64>(); }
template <class F> void hex()
{
    F x = anyfx<F>();
    bool upper = any_in<int>(0, 1, 2);
    sink s;
    insert(s, x, (unsigned)std::ios_base::hex | (upper ? (unsigned)std::ios_base::uppercase : 0) | other_flags());
    exact<F>(s, raw(x), 16);
    for(int i = 0; i < s.n; ++i) CHECK(upper ? !(s.c[i] >= 'a') : !(s.c[i] >= 'A' && s.c[i] <= 'F'));
}
OB(hex_f32) { hex<fixed32>(); }
OB(hex_f20) { hex<f20>(); }
OB(hex_f8) { hex<f8>(); }
OB(hex_u16) { hex<u16f>(); }
OB(hex_b4) { hex<b4>(); }
OB(hex_r32) { hex<r32>(); }
template <class F> void octal()
{
    F x = anyfx<F>();
    sink s;
    insert(s, x, (unsigned)std::ios_base::oct | other_flags());
    exact<F>(s, raw(x), 8);
}
INST_ALL(octal)
// without a base flag the digits are binary
template <class F> void binary()
{
    F x = anyfx<F>();
    sink s;
    insert(s, x, other_flags());
    exact<F>(s, raw(x), 2);
}
OB(binary_f8) { binary<f8>(); }
// long fractions, digit by digit so that nothing exceeds the wide type
template <class F> void steps(const sink& s, i128 v, int base)
{
    constexpr i128 m = (i128)1 << F::precision;
    i128 a = v < 0 ? -v : v, ip = 0, fr = a & (m - 1);
    int i = 0;
    CHECK((s.c[0] == '-') == (v < 0));
    if(v < 0) i = 1;
    int first = i;
    while(i < s.n && s.c[i] != '.') { ip = ip * base + value_of(s.c[i], base); ++i; }
    CHECK(i > first);
    if(i - first > 1) CHECK(s.c[first] != '0');
    CHECK(ip == a >> F::precision);
    CHECK((i < s.n) == (fr != 0));
    for(++i; i < s.n; ++i)
    {
        CHECK(fr != 0);
        fr *= base;
        CHECK(value_of(s.c[i], base) == fr >> F::precision);
        fr &= m - 1;
    }
    CHECK(fr == 0);
}
template <class F> void deep(unsigned flag, int base)
{
    long long w = any_in<long long>(-2, 2, 5), k = any_in<long long>(0, 15);
    F x = mk<F>(((i128)w << F::precision) + (k << (F::precision - 4)) + k);
    sink s;
    insert(s, x, flag | other_flags());
    steps<F>(s, raw(x), base);
}
template <class F> void deep_decimal() { deep<F>((unsigned)std::ios_base::dec, 10); }
template <class F> void deep_hex() { deep<F>((unsigned)std::ios_base::hex, 16); }
INST_ALL(deep_decimal)
INST_ALL(deep_hex)
template <class F> void any_steps()
{
    F x = anyfx<F>();
    sink s;
    insert(s, x, (unsigned)std::ios_base::dec | other_flags());
    steps<F>(s, raw(x), 10);
}
OB(any_steps_f64) { any_steps<fixed64>(); }
OB(any_steps_q48) { any_steps<q48>(); }
OB(any_steps_q16) { any_steps<q16>(); }
