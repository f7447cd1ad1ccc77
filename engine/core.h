// Core of the abstract interpreter: integer linear forms over hash-consed symbols, intervals,
// affine (first order) real forms, conditions.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

typedef __int128 i128;
typedef unsigned __int128 u128;
static const i128 IMAX = (i128)(~(u128)0 >> 1);
static const i128 IMIN = -IMAX - 1;

inline std::string to_s(i128 v)
{
    if(v == 0) return "0";
    bool neg = v < 0;
    u128 u = neg ? (u128)0 - (u128)v : (u128)v;
    std::string s;
    while(u) { s.insert(s.begin(), char('0' + (int)(u % 10))); u /= 10; }
    return neg ? "-" + s : s;
}

// ---- saturating arithmetic (IMAX / IMIN mean "unbounded") ----
inline i128 sat_add(i128 a, i128 b)
{
    if(a == IMAX || b == IMAX) return (a == IMIN || b == IMIN) ? IMAX : IMAX;
    if(a == IMIN || b == IMIN) return IMIN;
    i128 r;
    if(__builtin_add_overflow(a, b, &r)) return a > 0 ? IMAX : IMIN;
    return r;
}
inline i128 sat_mul(i128 a, i128 b)
{
    if(a == 0 || b == 0) return 0;
    i128 r;
    if(a == IMAX || a == IMIN || b == IMAX || b == IMIN || __builtin_mul_overflow(a, b, &r))
        return ((a > 0) == (b > 0)) ? IMAX : IMIN;
    return r;
}
inline i128 floor_div(i128 a, i128 b) // b > 0
{
    i128 q = a / b, r = a % b;
    return r < 0 ? q - 1 : q;
}
inline i128 floor_div_sat(i128 a, i128 b)
{
    if(a == IMAX || a == IMIN) return b == 1 ? a : floor_div(a, b);
    return floor_div(a, b);
}
inline i128 ceil_div(i128 a, i128 b) // b > 0
{
    i128 q = a / b, r = a % b;
    return r > 0 ? q + 1 : q;
}
inline i128 gcd128(i128 a, i128 b)
{
    if(a < 0) a = -a;
    if(b < 0) b = -b;
    while(b) { i128 t = a % b; a = b; b = t; }
    return a;
}

struct Range
{
    i128 lo = IMIN, hi = IMAX;
    bool empty() const { return lo > hi; }
    bool single() const { return lo == hi; }
    bool operator==(const Range& o) const { return lo == o.lo && hi == o.hi; }
};
inline Range isect(Range a, Range b) { return {a.lo > b.lo ? a.lo : b.lo, a.hi < b.hi ? a.hi : b.hi}; }
inline Range hull(Range a, Range b) { return {a.lo < b.lo ? a.lo : b.lo, a.hi > b.hi ? a.hi : b.hi}; }
inline Range width_range(unsigned n)
{
    if(n >= 128) return {IMIN, IMAX};
    i128 h = (i128)1 << (n - 1);
    return {-h, h - 1};
}

// ---- linear forms ----
struct Lin
{
    std::vector<std::pair<int, i128>> t; // sorted by symbol
    i128 c = 0;
    bool operator==(const Lin& o) const { return c == o.c && t == o.t; }
    bool isConst() const { return t.empty(); }
};
struct LinHash
{
    size_t operator()(const Lin& l) const
    {
        uint64_t h = (uint64_t)l.c * 0x9E3779B97F4A7C15ull ^ (uint64_t)(l.c >> 64);
        for(auto& p : l.t)
        {
            h ^= (uint64_t)p.first + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
            h ^= (uint64_t)p.second * 0xC2B2AE3D27D4EB4Full + (uint64_t)(p.second >> 64) + (h << 6) + (h >> 2);
        }
        return h;
    }
};

struct Overflow {}; // coefficient arithmetic left 128 bits

inline i128 ck_add(i128 a, i128 b) { i128 r; if(__builtin_add_overflow(a, b, &r)) throw Overflow(); return r; }
inline i128 ck_mul(i128 a, i128 b) { i128 r; if(__builtin_mul_overflow(a, b, &r)) throw Overflow(); return r; }

inline Lin lin_const(i128 c) { Lin l; l.c = c; return l; }
inline Lin lin_sym(int s) { Lin l; l.t.push_back({s, 1}); return l; }
inline Lin lin_add(const Lin& a, const Lin& b, i128 kb = 1)
{
    Lin r;
    r.c = ck_add(a.c, ck_mul(b.c, kb));
    size_t i = 0, j = 0;
    while(i < a.t.size() || j < b.t.size())
    {
        if(j >= b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
        else if(i >= a.t.size() || b.t[j].first < a.t[i].first) { r.t.push_back({b.t[j].first, ck_mul(b.t[j].second, kb)}); ++j; }
        else
        {
            i128 c = ck_add(a.t[i].second, ck_mul(b.t[j].second, kb));
            if(c != 0) r.t.push_back({a.t[i].first, c});
            ++i, ++j;
        }
    }
    return r;
}
inline Lin lin_scale(const Lin& a, i128 k)
{
    Lin r;
    if(k == 0) return r;
    r.c = ck_mul(a.c, k);
    for(auto& p : a.t) r.t.push_back({p.first, ck_mul(p.second, k)});
    return r;
}

// ---- real affine forms: c0 + c1*t1 + c2*t2 +- e , t in [-1,1] (restricted per state) ----
typedef long double ld;
struct Form
{
    ld c0 = 0, c1 = 0, c2 = 0, e = 0;
    ld rad() const { return fabsl(c1) + fabsl(c2) + e; }
};
static const ld FSLOP = ldexpl(1.0L, -61);
inline Form fslop(Form f)
{
    f.e += (fabsl(f.c0) + fabsl(f.c1) + fabsl(f.c2) + f.e) * FSLOP * 4;
    return f;
}
inline Form form_const(ld v) { Form f; f.c0 = v; f.e = fabsl(v) * FSLOP; return f; }
inline Form form_range(ld lo, ld hi) { Form f; f.c0 = (lo + hi) / 2; f.e = (hi - lo) / 2; return fslop(f); }
inline Form form_add(const Form& a, const Form& b, ld k = 1)
{
    return fslop({a.c0 + k * b.c0, a.c1 + k * b.c1, a.c2 + k * b.c2, a.e + fabsl(k) * b.e});
}
inline Form form_mul(const Form& a, const Form& b)
{
    Form r;
    r.c0 = a.c0 * b.c0;
    r.c1 = a.c0 * b.c1 + b.c0 * a.c1;
    r.c2 = a.c0 * b.c2 + b.c0 * a.c2;
    // quadratic part: a1 b1 t1^2 + a2 b2 t2^2 + (a1 b2 + a2 b1) t1 t2
    ld q1 = a.c1 * b.c1, q2 = a.c2 * b.c2, q12 = a.c1 * b.c2 + a.c2 * b.c1;
    r.c0 += q1 / 2 + q2 / 2;
    r.e = fabsl(q1) / 2 + fabsl(q2) / 2 + fabsl(q12);
    r.e += a.e * (fabsl(b.c0) + b.rad()) + b.e * (fabsl(a.c0) + fabsl(a.c1) + fabsl(a.c2));
    return fslop(r);
}
// unary function with g, g' at the centre and a bound on |g''| over the whole interval
inline Form form_unary(const Form& a, ld g, ld g1, ld g2max)
{
    Form r;
    ld R = a.rad();
    r.c0 = g;
    r.c1 = g1 * a.c1;
    r.c2 = g1 * a.c2;
    r.e = fabsl(g1) * a.e + g2max * R * R / 2;
    return fslop(r);
}
inline bool form_inv(const Form& a, Form& out)
{
    ld R = a.rad();
    ld m = fabsl(a.c0) - R;
    if(!(m > 0)) return false;
    out = form_unary(a, 1 / a.c0, -1 / (a.c0 * a.c0), 2 / (m * m * m));
    // alternative: plain interval
    ld lo = 1 / (a.c0 + R), hi = 1 / (a.c0 - R);
    if(lo > hi) std::swap(lo, hi);
    Form alt = form_range(lo, hi);
    if(alt.rad() < out.rad()) out = alt;
    return true;
}
