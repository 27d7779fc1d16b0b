// Fractions against an independent 128-bit oracle.
#pragma once
#include "h.hpp"
#include "pyincpp.hpp"
using pyincpp::Fraction;
using W = __int128;
struct R // a rational in lowest terms, denominator > 0
{
    W n, d;
    bool fits() const { return n >= INT_MIN && n <= INT_MAX && d <= INT_MAX; }
    friend bool operator==(const R&, const R&) = default;
    std::string str() const { return std::to_string((long long)n) + "/" + std::to_string((long long)d); }
};
inline W wabs(W x) { return x < 0 ? -x : x; }
inline W wgcd(W a, W b)
{
    a = wabs(a), b = wabs(b);
    while (b) { W t = a % b; a = b; b = t; }
    return a;
}
inline R red(W n, W d)
{
    if (d < 0) n = -n, d = -d;
    W g = wgcd(n, d);
    return {n / g, d / g};
}
inline R any_r()
{
    for (;;)
    {
        int a = H::any_int(), b = H::any_int();
        if (H::rng.p(15)) b = a == INT_MAX ? a : a + H::rng.in(0, 1);
        if (H::rng.p(10)) b = 1 << H::rng.in(0, 30);
        if (b == 0) b = 1;
        R r = red(a, b);
        if (r.fits()) return r;
    }
}
// related to r: results that cancel or are close
inline R any_rel(const R& r)
{
    for (int t = 0; t < 50; ++t)
    {
        R s = any_r();
        switch (H::rng.in(0, 6))
        {
        case 0: s = red(r.n, r.d); break;
        case 1: s = red(-r.n, r.d); break;
        case 2: s = r.n ? red(r.d, r.n) : r; break;
        case 3: s = red(s.n, r.d); break;
        case 4: s = red(W(r.n) + H::rng.in(-2, 2), r.d); break;
        case 5: s = red(r.n, std::max<W>(1, r.d + H::rng.in(-1, 1))); break;
        default: break;
        }
        if (s.fits()) return s;
    }
    return r;
}
inline Fraction mk(const R& r)
{
    W k = 1;
    if (H::rng.p(30)) { k = H::rng.in(-9, 9); if (k == 0) k = -1; }
    return Fraction((long long)(r.n * k), (long long)(r.d * k));
}
inline R val(const Fraction& f) { return {f.numerator(), f.denominator()}; }
inline void is(const Fraction& f, const R& r, const char* what)
{
    if (r.fits()) H::eq(val(f), r, what);
}
namespace H { inline std::string show(const R& r) { return r.str(); } inline std::string show(const Fraction& f) { return show(val(f)); } }
