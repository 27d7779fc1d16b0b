#include "ints.hpp"
static Z zgcd(Z a, Z b)
{
    a = zabs(a); b = zabs(b);
    while (b != 0) { Z t = a % b; a = b; b = t; }
    return a;
}
static void one(const Z& a, const Z& b)
{
    H::at("a =", a, "b =", b);
    const Int x = mk(a), y = mk(b);
    Z g = zgcd(a, b);
    Z l = g == 0 ? Z(0) : Z(zabs(a * b) / g);
    same(H::calm([&] { return Int::gcd(x, y); }, "gcd"), g, "gcd(a, b)");
    same(H::calm([&] { return Int::lcm(x, y); }, "lcm"), l, "lcm(a, b)");
    same(Int::gcd(y, x), g, "gcd(b, a)");
    same(Int::lcm(y, x), l, "lcm(b, a)");
    same(Int::gcd(x, x), zabs(a), "gcd(a, a)");
    same(Int::lcm(x, x), zabs(a), "lcm(a, a)");
    same(x, a, "a afterwards");
    same(y, b, "b afterwards");
}
HARNESS_MAIN(
    for (int a = -45; a <= 45; ++a)
        for (int b = -45; b <= 45; ++b) if (H::mine()) one(a, b);
    for (long long d : H::dict_ints) if (H::mine()) for (long long e : H::dict_ints) one(d, e);
    { Z f = 1; Z g = 1; for (int k = 0; k < 60; ++k) { if (H::mine()) one(f, g); Z t = f + g; f = g; g = t; } }
    while (H::more()) {
        Z g = any_z(8); Z p = any_z(8); Z q = any_z(8);
        one(g * p, g * q);
        one(p, any_rel(p, 15));
        one(p, p * q);
    })
