// std::format: layout and specification parsing
// absint: --overflow --max-cells 40000
#define SINK 1024
#include "fmt.h"
#include <format>
#ifdef THOROUGH
#define W 24
#else
#define W 12
#endif
// plain text of the magnitude for the given type (and two decimals for f), sign left out
template <class F, class C> void core(sink_of<C>& o, const F& x, char type)
{
    spec_of<C> s;
    if(type == 'f') { s.put('.'); s.put('2'); }
    if(type) s.put(type);
    s.put('}');
    sink_of<C> q;
    format(q, x, s);
    for(int i = raw(x) < 0 ? 1 : 0; i < q.n; ++i) o.c[o.n++] = q.c[i];
}
struct opts { int fill, align, sign, alt, zero, width; char type; };
template <class F, class C = char> void layout(const F& x, const opts& p)
{
    spec_of<C> s;
    if(p.align) { if(p.fill >= 0) s.put((C)p.fill); s.put("<>^"[p.align - 1]); }
    if(p.sign) s.put("-+ "[p.sign - 1]);
    if(p.alt) s.put('#');
    if(p.zero) s.put('0');
    if(p.width > 0) s.number(p.width);
    if(p.type == 'f') { s.put('.'); s.put('2'); }
    if(p.type) s.put(p.type);
    s.put('}');
    sink_of<C> o, d;
    format(o, x, s);
    core(d, x, p.type);
    // expected
    C e[96];
    int n = 0;
    char pre[4];
    int m = 0;
    if(raw(x) < 0) pre[m++] = '-';
    else if(p.sign == 2) pre[m++] = '+';
    else if(p.sign == 3) pre[m++] = ' ';
    if(p.alt)
    {
        if(p.type == 'x' || p.type == 'X' || p.type == 'b' || p.type == 'B') { pre[m++] = '0'; pre[m++] = p.type; }
        if(p.type == 'o') pre[m++] = '0';
        if(p.type == '?') { pre[m++] = '0'; pre[m++] = 'x'; }
    }
    int pad = p.width - m - d.n;
    if(pad < 0) pad = 0;
    C f = p.align && p.fill >= 0 ? (C)p.fill : ' ';
    int left = p.zero ? 0 : p.align == 1 ? 0 : p.align == 3 ? pad / 2 : pad, right = p.zero ? 0 : pad - left;
    for(int i = 0; i < left; ++i) e[n++] = f;
    for(int i = 0; i < m; ++i) e[n++] = pre[i];
    if(p.zero) for(int i = 0; i < pad; ++i) e[n++] = '0';
    for(int i = 0; i < d.n; ++i) e[n++] = d.c[i];
    for(int i = 0; i < right; ++i) e[n++] = f;
    CHECK(o.n == n);
    for(int i = 0; i < n; ++i) CHECK(o.c[i] == e[i]);
}
template <class F> F some(int k) { return mk<F>((i128)any_in<long long>(-(1LL << k), 1LL << k)); }
inline int any_fill(int last = 127) { int c = any_in<int>(-1, last); ASSUME(c != '{' && c != '}'); return c; }
inline int opt(int n) { return any_in<int>(0, n - 1, n); }
// fill, alignment, width
template <class F, char T> void align()
{
    opts p{-1, opt(4), 0, 0, 0, opt(W + 1), T};
    if(p.align) p.fill = any_fill();
    layout(some<F>(F::precision + 5), p);
}
OB(align_f32) { align<fixed32, 'f'>(); }
OB(align_plain_f32) { align<fixed32, 0>(); }
OB(align_f64) { align<fixed64, 'f'>(); }
OB(align_f8) { align<f8, 'd'>(); }
OB(align_hex_f20) { align<f20, 'x'>(); }
OB(align_u16) { align<u16f, 'd'>(); }
OB(align_debug_f8) { align<f8, '?'>(); }
// sign, alternative form, zero padding
template <class F, char T> void prefix()
{
    opts p{-1, 0, opt(4), opt(2), opt(2), opt(W + 1), T};
    if(p.zero && p.width == 0) __sa_stop();
    layout(some<F>(F::precision + 5), p);
}
OB(prefix_f32) { prefix<fixed32, 'f'>(); }
OB(prefix_plain_f32) { prefix<fixed32, 0>(); }
OB(prefix_f64) { prefix<fixed64, 'f'>(); }
OB(prefix_dec_f8) { prefix<f8, 'd'>(); }
OB(prefix_hex_f32) { prefix<fixed32, 'x'>(); }
OB(prefix_HEX_f32) { prefix<fixed32, 'X'>(); }
OB(prefix_oct_f32) { prefix<fixed32, 'o'>(); }
OB(prefix_bin_f8) { prefix<f8, 'b'>(); }
OB(prefix_BIN_f8) { prefix<f8, 'B'>(); }
OB(prefix_debug_f8) { prefix<f8, '?'>(); }
// everything together
template <class F, char T> void full()
{
    opts p{-1, opt(4), opt(4), opt(2), 0, any_in<int>(0, 2, 3) * 5, T};
    if(p.align) p.fill = any_fill();
    layout(some<F>(F::precision + 5), p);
}
OB(full_f32) { full<fixed32, 'f'>(); }
OB(full_hex_f32) { full<fixed32, 'x'>(); }
OB(full_dec_f8) { full<f8, 'd'>(); }
// wide characters
template <class F, char T> void align_w()
{
    opts p{-1, opt(4), 0, 0, 0, opt(W + 1), T};
    if(p.align) p.fill = any_fill(0x10FFFF);
    layout<F, wchar_t>(some<F>(F::precision + 5), p);
}
OB(align_w_f32) { align_w<fixed32, 'f'>(); }
OB(align_w_plain_f64) { align_w<fixed64, 0>(); }
template <class F, char T> void full_w()
{
    opts p{-1, opt(4), opt(4), opt(2), 0, any_in<int>(0, 2, 3) * 5, T};
    if(p.align) p.fill = any_fill(0x10FFFF);
    layout<F, wchar_t>(some<F>(F::precision + 5), p);
}
OB(full_w_f32) { full_w<fixed32, 'f'>(); }
OB(full_w_hex_f32) { full_w<fixed32, 'x'>(); }
// the text in wide characters is the text
template <class F, char T> void same_w()
{
    F x = anyfx<F>();
    spec s;
    spec_of<wchar_t> w;
    if(T) { s.put(T); w.put(T); }
    s.put('}'); w.put('}');
    sink o;
    sink_of<wchar_t> q;
    format(o, x, s);
    format(q, x, w);
    CHECK(o.n == q.n);
    for(int i = 0; i < o.n; ++i) CHECK(o.c[i] == q.c[i]);
}
OB(same_w_f32) { same_w<fixed32, 0>(); }
OB(same_w_f64) { same_w<fixed64, 'f'>(); }
OB(same_w_hex_f64) { same_w<fixed64, 'X'>(); }
OB(same_w_debug_f32) { same_w<fixed32, '?'>(); }
// arbitrary characters as specification
template <class F, int N, class C = char> void bytes()
{
    int n = opt(N + 1);
    C* b = (C*)__sa_alloc(n * sizeof(C));
    for(int i = 0; i < n; ++i) b[i] = (C)(sizeof(C) == 1 ? any_in<int>(-128, 127) : any_in<int>(0, 0x10FFFF));
    std::formatter<F, C> f;
    std::basic_format_parse_context<C> c(std::basic_string_view<C>(b, n));
    try
    {
        auto e = f.parse(c);
        int k = (int)(e - c.begin());
        CHECK(k >= 0 && k <= n);
        // nothing after a closing brace is consumed, save a brace that is not at the start and acts as text
        if(n > 0 && b[0] == '}') CHECK(k == 0);
        if(k < n && k > 0)
        {
            C l = b[k - 1];
            bool typed = l == 'g' || l == 'G' || l == 'f' || l == 'F' || l == 'd' || l == 'x' || l == 'X' || l == 'o' || l == 'b' || l == 'B' || l == '?';
            CHECK(typed || b[k] == '}');
        }
    }
    catch(const std::format_error&)
    {
        CHECK(n > 0 && b[0] != '}');
    }
}
OB(bytes_f32) { bytes<fixed32, 5>(); }
OB(bytes_w_f32) { bytes<fixed32, 4, wchar_t>(); }
// an unknown type is an error
template <class F> void unknown()
{
    int t = any_in<int>(-128, 127);
    ASSUME(t != 'g' && t != 'G' && t != 'f' && t != 'F' && t != 'd' && t != 'x' && t != 'X' && t != 'o' && t != 'b' && t != 'B' && t != '?' && t != '}');
    ASSUME(t != '<' && t != '>' && t != '^' && t != '+' && t != '-' && t != ' ' && t != '#' && t != '.' && t != ':' && !(t >= '0' && t <= '9'));
    int w = opt(2), q = opt(2);
    spec s;
    if(w) s.number(any_in<int>(1, 99));
    if(q) { s.put('.'); s.number(any_in<int>(0, 99)); }
    s.put((char)t);
    s.put('}');
    std::formatter<F, char> f;
    std::basic_format_parse_context<char> c(std::string_view(s.c, s.n));
    bool thrown = false;
    try { f.parse(c); }
    catch(const std::format_error&) { thrown = true; }
    CHECK(thrown);
}
OB(unknown_f32) { unknown<fixed32>(); }
OB(unknown_f64) { unknown<fixed64>(); }
// the text after the closing brace is not part of the specification
template <class F> void rest()
{
    int a = opt(4), sg = opt(4), alt = opt(2), z = opt(2), w = opt(3), q = opt(3), t = opt(12);
    if((a && sg) || (alt && q) || (z && t > 3)) __sa_stop();
    spec s;
    if(a) { int c = any_fill(); if(c >= 0) s.put((char)c); s.put("<>^"[a - 1]); }
    if(sg) s.put("-+ "[sg - 1]);
    if(alt) s.put('#');
    if(z) s.put('0');
    if(w == 1) s.number(any_in<int>(1, 9));
    if(w == 2) s.number(any_in<int>(10, 99));
    if(q) s.put('.');
    if(q == 1) s.number(any_in<int>(0, 9));
    if(q == 2) s.number(any_in<int>(10, 99));
    if(t) s.put("gGfFdxXobB?"[t - 1]);
    int n = s.n;
    s.put('}');
    s.put((char)any_in<int>(-128, 127));
    s.put((char)any_in<int>(-128, 127));
    std::formatter<F, char> f;
    std::basic_format_parse_context<char> c(std::string_view(s.c, s.n));
    CHECK(f.parse(c) == c.begin() + n);
}
OB(rest_f32) { rest<fixed32>(); }
// widths and precisions of three digits
template <class F, int N> void wide()
{
    int al = opt(4), zero = al ? 0 : opt(2);
    const int ws[] = {64, 99, 100, 127, 128, 129, 199, 255, 256, 257, 300, 511, 512, 513, 999};
    int w = ws[opt(15)];
    F x = mk<F>(((i128)1 << F::precision) * any_in<int>(-3, 3, 7) + any_in<int>(0, 1, 2));
    spec s;
    if(al) { s.put('*'); s.put("<>^"[al - 1]); }
    if(zero) s.put('0');
    s.number(w);
    s.put('.'); s.put('2'); s.put('f'); s.put('}');
    sink o, d;
    format(o, x, s);
    core(d, x, 'f');
    int neg = raw(x) < 0, pad = w - neg - d.n, left = zero ? 0 : al == 1 ? 0 : al == 3 ? pad / 2 : pad, i = 0;
    char f = al ? '*' : ' ';
    CHECK(o.n == w);
    for(; i < left; ++i) CHECK(o.c[i] == f);
    if(neg) CHECK(o.c[i++] == '-');
    if(zero) for(int k = 0; k < pad; ++k) CHECK(o.c[i++] == '0');
    for(int k = 0; k < d.n; ++k) CHECK(o.c[i++] == d.c[k]);
    for(; i < w; ++i) CHECK(o.c[i] == f);
}
OB(wide_f32) { wide<fixed32, 0>(); }
OB(wide_f64) { wide<fixed64, 0>(); }
template <class F> void precise()
{
    const int ps[] = {40, 99, 100, 127, 128, 200, 255, 256, 257, 300, 999};
    int p = ps[opt(11)];
    F x = mk<F>(((i128)1 << F::precision) * any_in<int>(-1, 1, 3) + any_in<int>(0, 1, 2));
    spec s;
    s.put('.'); s.number(p); s.put('f'); s.put('}');
    sink o;
    format(o, x, s);
    int neg = raw(x) < 0;
    CHECK(o.n == neg + 2 + p && o.c[neg + 1] == '.');
    // the fraction ends after as many decimals as there are fraction bits
    for(int i = neg + 2 + F::precision; i < o.n; ++i) CHECK(o.c[i] == '0');
}
OB(precise_f32) { precise<fixed32>(); }
OB(precise_f64) { precise<fixed64>(); }
// numbers too large for an int are errors
template <class F> void huge()
{
    int prec = opt(2), n = 9 + opt(4);
    spec s;
    if(prec) s.put('.');
    i128 v = any_in<int>(1, 9);
    s.put((char)('0' + (int)v));
    for(int i = 1; i < n; ++i) { int d = i < 3 ? opt(10) : i < n - 2 ? 4 : any_in<int>(0, 9); s.put((char)('0' + d)); v = v * 10 + d; }
    s.put('}');
    std::formatter<F, char> f;
    std::basic_format_parse_context<char> c(std::string_view(s.c, s.n));
    bool thrown = false;
    try { CHECK(f.parse(c) == c.begin() + s.n - 1); }
    catch(const std::format_error&) { thrown = true; }
    CHECK(thrown == (v > 2147483647));
}
OB(huge_f32) { huge<fixed32>(); }
