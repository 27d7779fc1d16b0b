#include "ints.hpp"
static void pair_case(const Z& a, const Z& b)
{
    H::at("a =", a, "b =", b);
    const Int x = mk(a), y = mk(b);
    if (b == 0)
    {
        H::throws([&] { (void)(x / y); }, "a / 0");
        H::throws([&] { (void)(x % y); }, "a % 0");
        Int s = x;
        H::throws([&] { s /= y; }, "a /= 0");
        same(s, a, "a after a /= 0");
        H::throws([&] { s %= y; }, "a %= 0");
        same(s, a, "a after a %= 0");
        Int z = y;
        H::throws([&] { z /= z; }, "0 /= 0");
        H::throws([&] { z %= z; }, "0 %= 0");
        same(z, 0, "0 after 0 /= 0");
    }
    else
    {
        auto [q, r] = tdiv(a, b);
        same(x / y, q, "a / b");
        same(x % y, r, "a % b");
        Int s = x;
        H::ok(&(s /= y) == &s, "a /= b does not return a");
        same(s, q, "a /= b");
        Int t = x;
        H::ok(&(t %= y) == &t, "a %= b does not return a");
        same(t, r, "a %= b");
        Int u = y;
        u /= u;
        same(u, 1, "b /= b");
        Int w = y;
        w %= w;
        same(w, 0, "b %= b");
    }
    same(x, a, "left operand afterwards");
    same(y, b, "right operand afterwards");
}
HARNESS_MAIN(
    for (int a = -130; a <= 130; ++a)
        for (int b = -60; b <= 60; ++b)
            if (H::mine()) pair_case(a, b);
    for (int n = 0; n < 30; ++n)
        for (int m = 0; m < 30; ++m)
            for (int d = -1; d <= 1; ++d)
                if (H::mine()) { pair_case(pow10(n) + d, pow10(m)); pair_case(-pow10(n) + d, pow10(m) - 1); pair_case(pow10(n) * 7 + d, -pow10(m) - 1); }
    for (long long d : H::dict_ints)
        if (H::mine()) for (long long e : H::dict_ints) { pair_case(d, e); pair_case(Z(d) * e, e); pair_case(Z(d) * e - 1, e); }
    while (H::more()) {
        int m = H::rng.p(10) ? 200 : 40;
        Z a = any_z(m);
        pair_case(a, any_rel(a, m));
        Z b = any_z(m / 2), q = any_z(m / 2);
        if (b != 0) for (Z r : {Z(0), Z(1), Z(zabs(b) - 1)}) pair_case(b * q + (H::rng.p(50) ? r : Z(-r)), b);
    })
