// text to number: arbitrary bytes are rejected or read without touching anything outside the text
// absint: --overflow --max-cells 40000
#include "text.h"
#include <eirin/io/parse.hpp>
#include <string_view>
#include "mock_in.h"
#ifdef THOROUGH
#define L 10
#else
#define L 8
#endif
// an exactly sized buffer of arbitrary bytes; the analyser reports any access outside it
struct bytes
{
    char* p;
    int len;
    bytes(int n, int extra = 0) : p((char*)__sa_alloc(n + extra)), len(n) { for(int i = 0; i < n; ++i) p[i] = (char)any_in<int>(-128, 127); }
};
// what the bytes mean: sign, digits, optional point and digits; the number ends at the first other byte
struct scan : text
{
    bool whole;
    int used;
    template <class C> scan(const C* s, int n)
    {
        int i = 0;
        if(i < n && s[i] == '-') { neg = true; ++i; }
        while(i < n && s[i] >= '0' && s[i] <= '9') mag = mag * 10 + (s[i++] - '0');
        if(i < n && s[i] == '.')
        {
            ++i;
            while(i < n && s[i] >= '0' && s[i] <= '9') { mag = mag * 10 + (s[i++] - '0'); ++m; }
        }
        used = i;
        whole = i == n;
    }
};
template <class F> void verdict(const scan& t, bool ok, i128 r, bool grammar)
{
    if(ok) { CHECK(grammar); CHECK(reads<F>(t, r)); CHECK(!outside<F>(t)); }
    else { CHECK(!grammar || !inside<F>(t)); CHECK(r == 12345); }
}
// strict: every byte must belong to the number
template <class F, class E, int N> void strict()
{
    bytes b(any_in<int>(0, N, N + 1));
    F x = mk<F>(12345);
    bool ok = E::go(b.p, b.len, x);
    scan t(b.p, b.len);
    verdict<F>(t, ok, raw(x), t.whole);
}
struct by_f32 { static bool go(const char* p, int n, fixed32& x) { return f32_from_cstring(p, n, x); } };
struct by_literal
{
    static bool go(const char* p, int n, fixed32& x) { try { x = operator""_f32(p, (size_t)n); return true; } catch(const std::invalid_argument&) { return false; } }
    static bool go(const char* p, int n, fixed64& x) { try { x = operator""_f64(p, (size_t)n); return true; } catch(const std::invalid_argument&) { return false; } }
};
OB(strict_f32) { strict<fixed32, by_f32, L>(); }
OB(strict_literal_f32) { strict<fixed32, by_literal, L>(); }
OB(strict_literal_f64) { strict<fixed64, by_literal, L>(); }
// string views: accepted completely (end returned), or rejected (start returned, output untouched)
OB(view_f32)
{
    bytes b(any_in<int>(0, L, L + 1));
    fixed32 x = mk<fixed32>(12345);
    const char* e = io::parse(std::string_view(b.p, b.len), x);
    CHECK(e == b.p || e == b.p + b.len);
    scan t(b.p, b.len);
    if(b.len == 0) CHECK(raw(x) == 0 || raw(x) == 12345);
    else verdict<fixed32>(t, e != b.p, raw(x), t.whole);
}
// a range ends at the first byte equal to the one the end points at
OB(range_f32)
{
    bytes b(any_in<int>(0, 5, 6), 1);
    char stop = (char)any_in<int>(-128, 127);
    b.p[b.len] = stop;
    fixed32 x = mk<fixed32>(12345);
    const char* e = io::parse(b.p, b.p + b.len, x);
    int n = 0;
    while(b.p[n] != stop) ++n;
    CHECK(e == b.p || e == b.p + n);
    scan t(b.p, n);
    if(n == 0) CHECK(raw(x) == 0 || raw(x) == 12345);
    else verdict<fixed32>(t, e != b.p, raw(x), t.whole);
}
// lenient: the number ends at the first byte that does not belong to it
template <class F, int N> void lenient()
{
    bytes b(any_in<int>(0, N, N + 1));
    F x = mk<F>(12345);
    bool ok = fixed_from_cstring(b.p, b.len, x);
    scan t(b.p, b.len);
    verdict<F>(t, ok, raw(x), true);
}
OB(lenient_f32) { lenient<fixed32, L>(); }
OB(lenient_f64) { lenient<fixed64, L>(); }
OB(lenient_f8) { lenient<f8, L>(); }
OB(lenient_u16) { lenient<u16f, L>(); }
// streams of bytes or wide characters: likewise, the rest stays unread; an exhausted stream leaves the number untouched
template <class F, int N, class S = mock_in> void stream()
{
    using C = S::text_type;
    int n = any_in<int>(0, N, N + 1);
    C* p = (C*)__sa_alloc(n * sizeof(C));
    for(int i = 0; i < n; ++i) p[i] = (C)any_in<int>(sizeof(C) == 1 ? -128 : 0, sizeof(C) == 1 ? 127 : 0x10FFFF);
    F x = mk<F>(12345);
    S is(p, n);
    is >> x;
    scan t(p, n);
    CHECK(is.pos == t.used);
    if(n == 0) CHECK(raw(x) == 12345);
    else verdict<F>(t, !is.failed, raw(x), true);
}
OB(stream_f32) { stream<fixed32, L>(); }
OB(stream_f64) { stream<fixed64, L>(); }
OB(stream_f8) { stream<f8, L>(); }
OB(stream_wide_f32) { stream<fixed32, L - 2, mock_win>(); }
OB(stream_wide_f64) { stream<fixed64, L - 2, mock_win>(); }
