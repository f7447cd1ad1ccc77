// text to number: the value
// absint: --overflow --max-cells 20000
#include "text.h"
#include <eirin/io/parse.hpp>
#include <string_view>
#include "mock_in.h"
// entry points: true if accepted
struct by_cstring { template <class F> static bool go(const text& t, F& x) { return fixed_from_cstring(t.c, t.len, x); } };
struct by_f32 { static bool go(const text& t, fixed32& x) { return f32_from_cstring(t.c, t.len, x); } };
struct by_view { static bool go(const text& t, fixed32& x) { const char* e = io::parse(std::string_view(t.c, t.len), x); CHECK(e == t.c || e == t.c + t.len); return e != t.c; } };
struct by_range { static bool go(const text& t, fixed32& x) { const char* e = io::parse(t.c, t.c + t.len, x); CHECK(e == t.c || e == t.c + t.len); return e != t.c; } };
struct by_stream
{
    template <class F> static bool go(const text& t, F& x)
    {
        mock_in is(t.c, t.len);
        auto& r = (is >> x);
        CHECK(&r == &is);
        CHECK(is.pos == t.len); // consumed exactly the number
        return !is.failed;
    }
};
struct by_literal
{
    static bool go(const text& t, fixed32& x) { try { x = operator""_f32(t.c, (size_t)t.len); return true; } catch(const std::invalid_argument&) { return false; } }
    static bool go(const text& t, fixed64& x) { try { x = operator""_f64(t.c, (size_t)t.len); return true; } catch(const std::invalid_argument&) { return false; } }
};
// followed by another character, which stays unread
struct by_stream_more
{
    template <class F> static bool go(const text& t, F& x)
    {
        text u = t;
        int c = any_in<int>(0, 127);
        ASSUME(c != '.' && !(c >= '0' && c <= '9'));
        u.c[u.len++] = (char)c;
        mock_in is(u.c, u.len);
        is >> x;
        CHECK(is.pos == t.len);
        return !is.failed;
    }
};
template <class F, class E, int N, int M> void value()
{
    int minus = any_in<int>(0, 1, 2), n = any_in<int>(0, N, N + 1), m = any_in<int>(-1, M, M + 2);
    if(n == 0 && m <= 0) __sa_stop(); // at least one digit
    text t;
    t.make(minus, n, m >= 0, m < 0 ? 0 : m);
    t.c[t.len] = 0;
    constexpr int old = sizeof(vt<F>) == 1 ? 45 : 12345;
    F x = mk<F>(old);
    bool ok = E::go(t, x);
    i128 r = raw(x);
    if(ok) { CHECK(reads<F>(t, r)); CHECK(!outside<F>(t)); }
    else { CHECK(!inside<F>(t)); CHECK(r == old); }
}
OB(cstring_f32) { value<fixed32, by_cstring, 7, 8>(); }
OB(cstring_f64) { value<fixed64, by_cstring, 12, 13>(); }
OB(cstring_f20) { value<f20, by_cstring, 6, 9>(); }
OB(cstring_f8) { value<f8, by_cstring, 5, 6>(); }
OB(cstring_u16) { value<u16f, by_cstring, 7, 7>(); }
OB(cstring_q16) { value<q16, by_cstring, 16, 7>(); }
OB(cstring_q48) { value<q48, by_cstring, 6, 17>(); }
OB(cstring_b4) { value<b4, by_cstring, 3, 4>(); }
OB(cstring_r32) { value<r32, by_cstring, 7, 7>(); }
OB(cstring_r64) { value<r64, by_cstring, 11, 12>(); }
OB(f32) { value<fixed32, by_f32, 7, 8>(); }
OB(view_f32) { value<fixed32, by_view, 7, 8>(); }
OB(range_f32) { value<fixed32, by_range, 7, 8>(); }
// long texts: leading zeros and excess decimals
template <class F, class E> void padded()
{
    int z = any_in<int>(0, 2, 3) * 15, n = any_in<int>(0, 2, 3), m = any_in<int>(0, 3, 4), ex = any_in<int>(0, 6, 7) * 3, nine = any_in<int>(0, 1, 2);
    text t;
    t.neg = std::is_signed_v<vt<F>>;
    if(t.neg) t.c[t.len++] = '-';
    for(int i = 0; i < z; ++i) t.c[t.len++] = '0';
    t.digits(n);
    t.c[t.len++] = '.';
    t.digits(m);
    t.m = m;
    F y = mk<F>(1), x = mk<F>(2);
    i128 lo = t.mag;
    for(int i = 0; i < ex; ++i) t.c[t.len++] = nine ? '9' : '0';
    t.c[t.len] = 0;
    bool ok = E::go(t, x);
    ASSUME(lo + 1 < (highest<F>() >> F::precision) * ten(m));
    CHECK(ok);
    i128 a = raw(x) < 0 ? -raw(x) : raw(x), p = ten(m), f1 = (i128)1 << F::precision;
    // between the value of the text without the excess decimals and that with all of them nine
    CHECK((a + 2) * p > lo * f1 && a * p <= (lo + (nine && ex ? 1 : 0)) * f1);
    CHECK(raw(x) <= 0 || !t.neg);
}
OB(padded_f32) { padded<fixed32, by_cstring>(); }
OB(padded_f64) { padded<fixed64, by_cstring>(); }
OB(padded_f20) { padded<f20, by_cstring>(); }
OB(padded_f8) { padded<f8, by_cstring>(); }
OB(padded_u16) { padded<u16f, by_cstring>(); }
OB(padded_q16) { padded<q16, by_cstring>(); }
OB(padded_q48) { padded<q48, by_cstring>(); }
OB(padded_b4) { padded<b4, by_cstring>(); }
OB(padded_r64) { padded<r64, by_cstring>(); }
OB(padded_by_f32) { padded<fixed32, by_f32>(); }
OB(padded_view) { padded<fixed32, by_view>(); }
OB(padded_range) { padded<fixed32, by_range>(); }
OB(stream_f32) { value<fixed32, by_stream, 7, 8>(); }
OB(stream_f64) { value<fixed64, by_stream, 12, 13>(); }
OB(stream_f20) { value<f20, by_stream, 6, 9>(); }
OB(stream_f8) { value<f8, by_stream, 5, 6>(); }
OB(stream_u16) { value<u16f, by_stream, 7, 7>(); }
OB(stream_q16) { value<q16, by_stream, 8, 6>(); }
OB(stream_q48) { value<q48, by_stream, 6, 17>(); }
OB(stream_b4) { value<b4, by_stream, 3, 4>(); }
OB(stream_r32) { value<r32, by_stream, 7, 7>(); }
OB(stream_more_f32) { value<fixed32, by_stream_more, 3, 3>(); }
OB(stream_more_f64) { value<fixed64, by_stream_more, 3, 3>(); }
OB(padded_stream_f32) { padded<fixed32, by_stream>(); }
OB(padded_stream_f64) { padded<fixed64, by_stream>(); }
OB(literal_f32) { value<fixed32, by_literal, 7, 8>(); }
OB(literal_f64) { value<fixed64, by_literal, 12, 13>(); }
OB(padded_literal_f32) { padded<fixed32, by_literal>(); }
OB(padded_literal_f64) { padded<fixed64, by_literal>(); }
