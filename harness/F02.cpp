#include "fracs.hpp"
static void cmp(const R& a, const R& b)
{
    H::at("a =", a, "b =", b);
    Fraction x = mk(a), y = mk(b);
    W l = a.n * b.d, r = b.n * a.d;
    H::eq(x == y, l == r, "==");
    H::eq(x != y, l != r, "!=");
    H::eq(x < y, l < r, "<");
    H::eq(x <= y, l <= r, "<=");
    H::eq(x > y, l > r, ">");
    H::eq(x >= y, l >= r, ">=");
    auto c = x <=> y;
    H::ok((c < 0) == (l < r) && (c > 0) == (l > r) && (c == 0) == (l == r), "<=> has the wrong sign");
    if (l == r) H::eq(std::hash<Fraction>{}(x), std::hash<Fraction>{}(y), "hashes of equal fractions");
    H::eq(x == x, true, "a == a");
    // gcd = gcd(n)/lcm(d), lcm = lcm(n)/gcd(d)
    W gd = wgcd(a.d, b.d), gn = wgcd(a.n, b.n);
    is(Fraction::gcd(x, y), red(gn, a.d / gd * b.d), "gcd");
    is(Fraction::lcm(x, y), a.n == 0 || b.n == 0 ? R{0, 1} : red(wabs(a.n) / gn * wabs(b.n), gd), "lcm");
    is(Fraction::gcd(x, x), red(wabs(a.n), a.d), "gcd with itself");
    H::eq(val(x), a, "a afterwards");
    H::eq(val(y), b, "b afterwards");
}
// a fraction as close to a as one with denominator e can be, on either side
static R near_to(const R& a, long long e, int up)
{
    W m = a.n * e / a.d + up, g = wgcd(m, e);
    return g == 0 ? R{0, 1} : R{m / g, e / g};
}
HARNESS_MAIN(
    for (int n = -8; n <= 8; ++n) for (int d = 1; d <= 8; ++d) if (wgcd(n, d) == 1) for (int m = -8; m <= 8; ++m) for (int e = 1; e <= 8; ++e) if (wgcd(m, e) == 1 && H::mine()) cmp({n, d}, {m, e});
    for (int n : H::ints()) for (int d : H::ints()) if (d > 0 && wgcd(n, d) == 1 && H::mine()) for (int m : H::ints()) { cmp({n, d}, {m, 1}); if (m > 0 && wgcd(n, m) == 1) cmp({n, d}, {n, m}); if (wgcd(m, d) == 1) cmp({n, d}, {m, d}); }
    while (H::more()) { R a = any_r(); cmp(a, any_rel(a)); cmp(a, any_r());
        R c = near_to(a, 1 + (INT_MAX - 1) / (1 + H::rng.in(0, 1 << (H::rng.in(0, 20)))), H::rng.in(-1, 1));
        if (c.n <= INT_MAX && c.n > -INT_MAX) cmp(a, c);
        R f{INT_MAX - H::rng.in(0, 50), INT_MAX - H::rng.in(0, 50)};
        W g = wgcd(f.n, f.d);
        R b{f.n / g, f.d / g}, h = near_to(b, INT_MAX - H::rng.in(0, 50), 0);
        if (h.n <= INT_MAX) cmp(b, h); })
