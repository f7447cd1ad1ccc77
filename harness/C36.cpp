// random engines on streams: seed and position in decimal, whatever the stream's format
// absint: --overflow
#include <ostream>
#include <ios>
#include "types.h"
// an output stream that keeps what is written, character by character
struct mock_traits : std::char_traits<char> { using char_type = signed char; using int_type = int; };
template <> class std::basic_ostream<signed char, mock_traits>
{
public:
    using char_type = signed char;
    using int_type = int;
    using traits_type = mock_traits;
    using ios_base = std::ios_base;
    using fmtflags = std::ios_base::fmtflags;
    using self = basic_ostream;
    struct sentry { sentry(basic_ostream&) {} explicit operator bool() const { return true; } };
    fmtflags fl;
    signed char fc = '*', c[96];
    int n = 0;
    std::streamsize prec = 6, wid = 0;
    explicit basic_ostream(fmtflags f) : fl(f) {}
    fmtflags flags() const { return fl; }
    fmtflags flags(fmtflags f) { fmtflags o = fl; fl = f; return o; }
    fmtflags setf(fmtflags f) { fmtflags o = fl; fl |= f; return o; }
    fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl; fl = (fl & ~m) | (f & m); return o; }
    void unsetf(fmtflags f) { fl &= ~f; }
    signed char fill() const { return fc; }
    signed char fill(signed char f) { signed char o = fc; fc = f; return o; }
    std::streamsize width() const { return wid; }
    std::streamsize width(std::streamsize w) { auto o = wid; wid = w; return o; }
    std::streamsize precision() const { return prec; }
    std::streamsize precision(std::streamsize w) { auto o = prec; prec = w; return o; }
    signed char widen(char ch) const { return (signed char)ch; }
    char narrow(signed char ch, char) const { return (char)ch; }
    bool good() const { return true; }
    bool fail() const { return false; }
    explicit operator bool() const { return true; }
    self& flush() { return *this; }
    self& put(signed char ch) { CHECK(n < 96); c[n++] = ch; return *this; }
    self& write(const signed char* p, std::streamsize k) { for(std::streamsize i = 0; i < k; ++i) put(p[i]); return *this; }
    self& number(bool neg, unsigned long long v)
    {
        auto b = fl & std::ios_base::basefield;
        unsigned base = b == std::ios_base::oct ? 8 : b == std::ios_base::hex ? 16 : 10;
        signed char d[24];
        int k = 0;
        do { unsigned g = (unsigned)(v % base); d[k++] = (signed char)(g < 10 ? '0' + g : (fl & std::ios_base::uppercase ? 'A' : 'a') + g - 10); v /= base; } while(v != 0);
        if(neg) put('-');
        if((fl & std::ios_base::showbase) && base != 10) { put('0'); if(base == 16) put(fl & std::ios_base::uppercase ? 'X' : 'x'); }
        for(int w = k; w < wid; ++w) put(fc);
        wid = 0;
        while(k > 0) put(d[--k]);
        return *this;
    }
    self& operator<<(unsigned v) { return number(false, v); }
    self& operator<<(unsigned long v) { return number(false, v); }
    self& operator<<(unsigned long long v) { return number(false, v); }
    self& operator<<(int v) { return number(v < 0, v < 0 ? 0ull - v : v); }
    self& operator<<(long v) { return number(v < 0, v < 0 ? 0ull - v : v); }
    using manip = std::ios_base& (*)(std::ios_base&);
    self& operator<<(manip m)
    {
        if(m == (manip)std::dec) setf(std::ios_base::dec, std::ios_base::basefield);
        else if(m == (manip)std::hex) setf(std::ios_base::hex, std::ios_base::basefield);
        else if(m == (manip)std::oct) setf(std::ios_base::oct, std::ios_base::basefield);
        else if(m == (manip)std::left) setf(std::ios_base::left, std::ios_base::adjustfield);
        else if(m == (manip)std::right) setf(std::ios_base::right, std::ios_base::adjustfield);
        else if(m == (manip)std::internal) setf(std::ios_base::internal, std::ios_base::adjustfield);
        else if(m == (manip)std::noshowbase) unsetf(std::ios_base::showbase);
        else if(m == (manip)std::showbase) setf(std::ios_base::showbase);
        else if(m == (manip)std::noshowpos) unsetf(std::ios_base::showpos);
        else if(m == (manip)std::nouppercase) unsetf(std::ios_base::uppercase);
        else if(m == (manip)std::uppercase) setf(std::ios_base::uppercase);
        return *this;
    }
    self& operator<<(char ch) { return put((signed char)ch); }
    self& operator<<(signed char ch) { return put(ch); }
    self& operator<<(const char* s) { while(*s) put((signed char)*s++); return *this; }
};
using mock_out = std::basic_ostream<signed char, mock_traits>;
#include <eirin/random.hpp>
using namespace eirin;
inline std::ios_base::fmtflags some_flags()
{
    int b = any_in<int>(0, 3, 4), o = any_in<int>(0, 7, 8);
    auto f = b == 0 ? std::ios_base::fmtflags{} : b == 1 ? std::ios_base::dec : b == 2 ? std::ios_base::hex : std::ios_base::oct;
    if(o & 1) f |= std::ios_base::showbase | std::ios_base::uppercase;
    if(o & 2) f |= std::ios_base::left;
    if(o & 4) f |= std::ios_base::skipws | std::ios_base::boolalpha;
    return f;
}
template <class E> using rt = typename E::result_type;
static const unsigned long long points[8] = {0, 7, 10, 255, 0x89ABCD, 0x80000000ull, 0xFFFFFFFFull, 0xFEDCBA9876543210ull};
inline int decimal(const mock_out& o, int i, unsigned long long v)
{
    unsigned long long p = 1;
    while(v / p >= 10) p *= 10;
    for(; p != 0; p /= 10) { CHECK(i < o.n && o.c[i] == '0' + (int)(v / p % 10)); ++i; }
    return i;
}
template <class E, class W> void text()
{
    auto f = some_flags();
    rt<E> s = (rt<E>)points[any_in<int>(0, 7, 8)], z = (rt<E>)points[any_in<int>(0, 7, 8)];
    W e;
    e.seed(s);
    e.discard(z);
    W before = e;
    mock_out o(f);
    mock_out* r = &(o << e);
    CHECK(r == &o);
    int i = decimal(o, 0, s);
    CHECK(i < o.n && o.c[i] == ' ');
    CHECK(decimal(o, i + 1, z) == o.n);
    CHECK(o.flags() == f && o.fill() == '*' && o.precision() == 6 && o.width() == 0);
    CHECK(e == before);
}
// two engines write the same text exactly when they are equal
template <class E> void identifies()
{
    static const unsigned short p[5] = {0, 1, 10, 11, 101};
    E a((rt<E>)p[any_in<int>(0, 4, 5)]), b((rt<E>)p[any_in<int>(0, 4, 5)]);
    a.discard(p[any_in<int>(0, 4, 5)]);
    b.discard(p[any_in<int>(0, 4, 5)]);
    mock_out x(std::ios_base::dec), y(std::ios_base::dec);
    x << a;
    y << b;
    bool same = x.n == y.n;
    for(int i = 0; same && i < x.n; ++i) same = x.c[i] == y.c[i];
    CHECK(same == (a == b));
}
OB(text_32) { text<pcg2014, pcg2014>(); }
OB(text_64) { text<pcg2014_64, pcg2014_64>(); }
OB(text_adapter_f32) { text<pcg2014, fixed_random_engine_adapter<fixed32, pcg2014>>(); }
OB(text_adapter_f64) { text<pcg2014_64, fixed_random_engine_adapter<fixed64, pcg2014_64>>(); }
OB(identifies_32) { identifies<pcg2014>(); }
OB(identifies_64) { identifies<pcg2014_64>(); }
