// formatting a number through std::formatter, character by character into a buffer
#pragma once
// instantiate std::string here rather than relying on the compiled library
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
#include "types.h"
#include <eirin/io/format.hpp>
#include <iterator>
#ifndef SINK
#define SINK 96
#endif
template <class C> struct sink_of
{
    C c[SINK];
    int n = 0;
};
using sink = sink_of<char>;
template <class C> struct out_of
{
    using difference_type = long;
    using iterator_category = std::output_iterator_tag;
    using value_type = void;
    using pointer = void;
    using reference = void;
    sink_of<C>* s;
    out_of& operator*() { return *this; }
    out_of& operator++() { return *this; }
    out_of operator++(int) { return *this; }
    out_of& operator=(C ch) { CHECK(s->n < SINK); s->c[s->n++] = ch; return *this; }
};
template <class C> struct ctx_of
{
    using iterator = out_of<C>;
    using char_type = C;
    sink_of<C>* s;
    iterator out() { return iterator{s}; }
};
using mock_ctx = ctx_of<char>;
// a format specification
template <class C> struct spec_of
{
    C c[24];
    int n = 0;
    void put(C ch) { c[n++] = ch; }
    void number(int v) { if(v >= 100) put((C)('0' + v / 100)); if(v >= 10) put((C)('0' + v / 10 % 10)); put((C)('0' + v % 10)); }
};
using spec = spec_of<char>;
template <class F, class C> void format(sink_of<C>& o, const F& x, const spec_of<C>& s)
{
    std::formatter<F, C> f;
    std::basic_format_parse_context<C> p(std::basic_string_view<C>(s.c, s.n));
    auto e = f.parse(p);
    CHECK(e == p.begin() + (s.n - 1)); // at the closing brace
    ctx_of<C> c{&o};
    f.format(x, c);
}
inline int value_of(char c, int base) { int d = c >= 'a' ? c - 'a' + 10 : c >= 'A' ? c - 'A' + 10 : c - '0'; CHECK(d >= 0 && d < base); return d; }
extern "C" wchar_t* sa_model_wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { for(size_t i = 0; i < n; ++i) d[i] = s[i]; return d; }
extern "C" wchar_t* sa_model_wmemmove(wchar_t* d, const wchar_t* s, size_t n)
{
    if(d < s) for(size_t i = 0; i < n; ++i) d[i] = s[i];
    else for(size_t i = n; i > 0; --i) d[i - 1] = s[i - 1];
    return d;
}
extern "C" wchar_t* sa_model_wmemset(wchar_t* d, wchar_t c, size_t n) { for(size_t i = 0; i < n; ++i) d[i] = c; return d; }
