#include "ints.hpp"
static void pair_case(const Z& a, const Z& b)
{
    H::at("a =", a, "b =", b);
    const Int x = mk(a), y = mk(b);
    same(x * y, a * b, "a * b");
    Int s = x;
    H::ok(&(s *= y) == &s, "a *= b does not return a");
    same(s, a * b, "a *= b");
    same(x, a, "left operand afterwards");
    same(y, b, "right operand afterwards");
    Int t = x;
    t *= t;
    same(t, a * a, "a *= a");
    same(x * x, a * a, "a * a");
}
static void fact(int n)
{
    H::at("factorial of", n);
    static std::vector<Z> f{1};
    if (n < 0)
    {
        Int x(n);
        H::throws([&] { (void)x.factorial(); }, "factorial of a negative number");
        same(x, n, "operand afterwards");
        return;
    }
    while (int(f.size()) <= n)
        f.push_back(f.back() * int(f.size()));
    const Int x(n);
    same(x.factorial(), f[n], "factorial");
    same(x, n, "operand afterwards");
}
HARNESS_MAIN(
    for (int a = -110; a <= 110; ++a)
        for (int b = -110; b <= 110; ++b)
            if (H::mine()) pair_case(a, b);
    for (int n = -40; n <= 130; ++n)
        if (H::mine()) fact(n);
    for (int n : {200, 256, 300, 365, 400, 500, 512, 999, 1000, 1001, 1024, 1100, 2000})
        if (H::mine()) fact(n);
    for (int n = 1; n < 40; ++n)
        for (int m = 1; m < 40; ++m)
            if (H::mine()) { pair_case(pow10(n) - 1, pow10(m) - 1); pair_case(-pow10(n) + 1, pow10(m)); pair_case(pow10(n) + 1, -pow10(m) - 1); }
    for (long long d : H::dict_ints)
        if (H::mine()) { if (d >= -100000 && d <= 300) fact(int(d)); for (long long e : H::dict_ints) pair_case(d, e); }
    while (H::more()) {
        int m = H::rng.p(10) ? 400 : 50;
        Z a = any_z(m);
        pair_case(a, any_rel(a, m));
        if (H::rng.p(2)) fact(H::rng.in(0, 300));
        if (H::rng.p(5)) { Z z = -zabs(any_z(m)) - 1; H::at("factorial of", z); Int x = mk(z); H::throws([&] { (void)x.factorial(); }, "factorial of a negative number"); }
    })
