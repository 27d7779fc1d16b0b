#include "ints.hpp"
static void cmp(const Int& x, const Int& y, const Z& a, const Z& b)
{
    H::eq(x == y, a == b, "==");
    H::eq(x != y, a != b, "!=");
    H::eq(x < y, a < b, "<");
    H::eq(x <= y, a <= b, "<=");
    H::eq(x > y, a > b, ">");
    H::eq(x >= y, a >= b, ">=");
    auto c = x <=> y;
    H::ok((c < 0) == (a < b) && (c == 0) == (a == b) && (c > 0) == (a > b), "<=> has the wrong sign");
}
static void facts(const Int& x, const Z& a)
{
    H::eq(x.is_zero(), a == 0, "is_zero");
    H::eq(x.is_positive(), a > 0, "is_positive");
    H::eq(x.is_negative(), a < 0, "is_negative");
    bool even = a % 2 == 0;
    H::eq(x.is_even(), even, "is_even");
    H::eq(x.is_odd(), !even, "is_odd");
    H::eq(x.digits(), a == 0 ? 0 : int(zabs(a).str().size()), "digits");
}
// the value a made by computation
static Int made(const Z& a, int how)
{
    switch (how)
    {
    case 0: return mk(a);
    case 1: { Z b = any_rel(a); return mk(a + b) - mk(b); }
    case 2: { Z b = any_rel(a); return mk(a - b) + mk(b); }
    case 3: { Z b = any_z(8); if (b == 0) b = 1; return mk(a * b) / mk(b); }
    case 4: { Int i = mk(a - 1); ++i; return i; }
    case 5: { Int i = mk(a + 1); --i; return i; }
    case 6: { return -mk(-a); }
    case 7: { Z m = zabs(a) + 1; return mk(a) % mk(m); }
    case 8: { Int i = mk(a); Int j(std::move(i)); return j; }
    default: { Int i; i = mk(a); return i; }
    }
}
HARNESS_MAIN(
    for (int a = -120; a <= 120; ++a)
    {
        if (!H::mine()) continue;
        for (int h = 0; h < 10; ++h) { H::at("a =", a, "made in way", h); facts(made(a, h), a); }
        for (int b = -120; b <= 120; ++b)
        {
            H::at("a =", a, "b =", b);
            cmp(Int(a), Int(b), a, b);
        }
    }
    for (int n = 0; n < 50; ++n)
        for (int m = 0; m < 50; ++m)
            if (H::mine()) for (int d = -1; d <= 1; ++d) for (int s : {1, -1}) { Z a = pow10(n); Z b = (pow10(m) + d) * s; H::at("a =", a, "b =", b); Int x = mk(a); Int y = mk(b); cmp(x, y, a, b); cmp(y, x, b, a); cmp(-x, y, -a, b); facts(x, a); facts(y, b); }
    while (H::more()) {
        int m = H::rng.p(10) ? 300 : 40;
        Z a = any_z(m); Z b = any_rel(a, m);
        if (H::rng.p(40) && a != 0)
        {   // differ in one digit only
            std::string t = a.str();
            std::size_t k = H::rng.next() % t.size();
            if (t[k] != '-') t[k] = '0' + H::rng.in(k == 0 || t[k - 1] == '-' ? 1 : 0, 9);
            b = Z(t);
        }
        int h = H::rng.in(0, 9), g = H::rng.in(0, 9);
        H::at("a =", a, "made in way", h, "b =", b, "made in way", g);
        Int x = made(a, h), y = made(b, g);
        cmp(x, y, a, b);
        cmp(x, x, a, a);
        facts(x, a);
        facts(y, b);
        H::eq(val(x), a, "value of a afterwards");
    })
