#include "ints.hpp"
static void root(const Z& n)
{
    H::at("sqrt of", n);
    const Int x = mk(n);
    if (n < 0)
        H::throws([&] { (void)Int::sqrt(x); }, "sqrt of a negative number");
    else
    {
        Z r = val(H::calm([&] { return Int::sqrt(x); }, "sqrt"));
        H::ok(r >= 0 && r * r <= n && n < (r + 1) * (r + 1), "sqrt: got " + r.str());
        same(Int::sqrt(x), r, "sqrt");
    }
    same(x, n, "operand afterwards");
}
static void lg(const Z& n, const Z& b)
{
    H::at("log of", n, "to base", b);
    const Int x = mk(n), y = mk(b);
    if (n < 1 || b < 2)
        H::throws([&] { (void)Int::log(x, y); }, "log outside its domain");
    else
    {
        Z k = val(H::calm([&] { return Int::log(x, y); }, "log"));
        H::ok(k >= 0 && k < 100000, "log: got " + k.str());
        Z p = boost::multiprecision::pow(b, k.convert_to<unsigned>());
        H::ok(p <= n && n < p * b, "log: got " + k.str());
        same(Int::log(x, y), k, "log");
    }
    same(x, n, "operand afterwards");
    same(y, b, "base afterwards");
}
HARNESS_MAIN(
    for (int n = -20; n <= 3000; ++n) if (H::mine()) root(n);
    for (int r = 1; r < 1500; ++r) if (H::mine()) { Z q = Z(r) * r; root(q); root(q - 1); root(q + 1); root(q + 2 * r); }
    for (int n = -5; n <= 300; ++n)
        for (int b = -3; b <= 40; ++b) if (H::mine()) lg(n, b);
    for (int b = 2; b <= 40; ++b)
        for (int k = 0; k < (b < 17 ? 70 : 14); ++k) if (H::mine()) { Z p = boost::multiprecision::pow(Z(b), k); lg(p, b); lg(p - 1, b); lg(p + 1, b); }
    for (int b : {60, 64, 100, 128, 255, 256, 1000, 1024, 65536, 1000000, 1000000007})
        for (int k = 0; k < 12; ++k) if (H::mine()) { Z p = boost::multiprecision::pow(Z(b), k); lg(p, b); lg(p - 1, b); lg(p + 1, b); }
    for (int k = 0; k < 40; ++k) if (H::mine()) for (int d = -1; d <= 1; ++d) { lg(pow10(k) + d, 10); lg(pow10(k) + d, 9); lg(pow10(k) + d, 100); root(pow10(k) + d); }
    for (long long d : H::dict_ints) if (H::mine()) { root(d); root(Z(d) * d); root(Z(d) * d - 1); lg(d, 10); lg(d, 2); lg(1000000, d); lg(Z(d) * d * d, d); lg(Z(d) * d * d - 1, d); }
    while (H::more()) {
        Z r = any_z(H::rng.p(10) ? 20 : 9);
        root(r); root(r * r); root(r * r - 1); root(r * r + 2 * zabs(r));
        Z b = zabs(any_z(H::rng.p(20) ? 10 : 3)) + H::rng.in(-1, 2);
        lg(any_z(20), b);
        if (b > 1) { Z p = boost::multiprecision::pow(b, H::rng.in(0, b < 1000 ? 30 : 7)); lg(p, b); lg(p - 1, b); lg(p + 1, b); lg(p * b - 1, b); }
    })
