#include "ints.hpp"
static Z red(const Z& v, const Z& m)
{
    return m == 0 ? v : Z(v % m);
}
static Z zpow(Z b, unsigned e)
{
    return boost::multiprecision::pow(b, e);
}
// b^e mod m (truncated remainder of the exact power) for e >= 0, m != 0
static Z zpowm(const Z& b, Z e, const Z& m)
{
    Z am = zabs(m), r = 1 % am, x = ((b % am) + am) % am;
    bool odd = e % 2 != 0;
    while (e > 0)
    {
        if (e % 2 != 0)
            r = r * x % am;
        x = x * x % am;
        e /= 2;
    }
    // r is the mathematical residue; the truncated remainder has the sign of the power
    if (b < 0 && odd && r != 0)
        r -= am;
    return r;
}
static void one(const Z& b, const Z& e, const Z& m, bool defaulted = false)
{
    H::at("base", b, "exp", e, "mod", m);
    const Int x = mk(b), y = mk(e), w = mk(m);
    auto call = [&] { return defaulted ? Int::pow(x, y) : Int::pow(x, y, w); };
    if (e < 0)
    {
        if (b == 0)
            H::throws(call, "pow(0, negative)");
        else if (b == 1)
            same(H::calm(call, "pow"), red(1, m), "pow");
        else if (b == -1)
            same(H::calm(call, "pow"), red(e % 2 == 0 ? 1 : -1, m), "pow");
        else
            same(H::calm(call, "pow"), 0, "pow");
    }
    else if (m == 0)
        same(H::calm(call, "pow"), b == 0 || b == 1 || b == -1 ? (e == 0 ? Z(1) : b == 0 ? Z(0) : b == 1 || e % 2 == 0 ? Z(1) : Z(-1)) : zpow(b, e.convert_to<unsigned>()), "pow");
    else
        same(H::calm(call, "pow"), zpowm(b, e, m), "pow");
    same(x, b, "base afterwards");
    same(y, e, "exponent afterwards");
    same(w, m, "modulus afterwards");
}
HARNESS_MAIN(
    for (int b = -12; b <= 12; ++b)
        for (int e = -4; e <= 12; ++e)
        {
            if (!H::mine()) continue;
            one(b, e, 0, true);
            for (int m = -12; m <= 12; ++m) one(b, e, m);
        }
    for (int b = -3; b <= 3; ++b)
        for (int e = 0; e < 80; ++e) if (H::mine()) { one(b, e, 0, true); one(b, e, 1000000007); one(b, e, -97); }
    for (long long d : H::dict_ints)
        if (H::mine() && d != 0) { one(d, 3, 7); one(7, 5, d); one(-3, d < 0 ? -d : d, 11); one(d, 2, 0, true); one(10, d < 0 ? -d % 50 : d % 50, 0); one(-1, d, 5); one(1, -d, 5); }
    while (H::more()) {
        Z b = any_z(8); Z m = any_z(12);
        one(b, H::rng.in(-3, 25), H::rng.p(50) ? m : Z(0));
        one(any_z(10), zabs(any_z(7)), m == 0 ? Z(1) : m);
        { Z mm = m == 0 ? Z(3) : m; one(H::rng.in(-2, 2), any_z(9), mm); }
        one(H::rng.in(-1, 1), any_z(20), H::rng.p(50) ? Z(0) : m);
    })
