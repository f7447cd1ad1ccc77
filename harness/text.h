// decimal texts with symbolic digits
#pragma once
#include "types.h"
struct text
{
    char c[64];
    int len = 0;
    i128 mag = 0; // value times 10^m
    int m = 0;
    bool neg = false;
    void digits(int n)
    {
        for(int i = 0; i < n; ++i)
        {
            int d = any_in<int>(0, 9);
            c[len++] = (char)('0' + d);
            mag = mag * 10 + d;
        }
    }
    // [-] n digits [. m digits]
    void make(bool minus, int n, bool dot, int mm)
    {
        neg = minus;
        if(minus) c[len++] = '-';
        digits(n);
        if(dot) { c[len++] = '.'; digits(mm); m = mm; }
    }
};
inline i128 ten(int k) { i128 p = 1; for(int i = 0; i < k; ++i) p *= 10; return p; }
// how many decimals a format of f bits distinguishes: the smallest k with 10^k >= 2^f
inline int decimals(int f) { int k = 0; for(i128 p = 1; p < ((i128)1 << f); p *= 10) ++k; return k; }
// r is the value of t in format F: never farther from zero than the text, exactly truncated up to the format's number of decimals, and less than two steps off beyond
template <class F> inline bool reads(const text& t, i128 r)
{
    i128 p = ten(t.m), a = t.mag << F::precision, b = (t.neg ? -r : r) * p; // compare b with a
    return b <= a && a < b + (t.m <= decimals(F::precision) ? p : 2 * p);
}
// certainly representable / certainly not
template <class F> inline bool inside(const text& t)
{
    i128 a = t.mag << F::precision, p = ten(t.m);
    return t.neg ? a < (1 - lowest<F>()) * p : a < (highest<F>() + 1) * p;
}
template <class F> inline bool outside(const text& t)
{
    i128 a = t.mag << F::precision, p = ten(t.m), s = t.m <= decimals(F::precision) ? 0 : 1;
    return t.neg ? a >= (1 + s - lowest<F>()) * p : a >= (highest<F>() + 1 + s) * p;
}
