#include "ints.hpp"
static void pair_case(const Z& a, const Z& b)
{
    H::at("a =", a, "b =", b);
    const Int x = mk(a), y = mk(b);
    same(x + y, a + b, "a + b");
    same(x - y, a - b, "a - b");
    Int s = x;
    Int& r = (s += y);
    H::ok(&r == &s, "a += b does not return a");
    same(s, a + b, "a += b");
    Int d = x;
    Int& r2 = (d -= y);
    H::ok(&r2 == &d, "a -= b does not return a");
    same(d, a - b, "a -= b");
    same(x, a, "left operand afterwards");
    same(y, b, "right operand afterwards");
}
static void one_case(const Z& a)
{
    H::at("a =", a);
    const Int x = mk(a);
    same(-x, -a, "-a");
    same(+x, a, "+a");
    same(x.abs(), zabs(a), "a.abs()");
    Int i = x;
    H::ok(&++i == &i, "++a does not return a");
    same(i, a + 1, "++a");
    Int j = x;
    H::ok(&--j == &j, "--a does not return a");
    same(j, a - 1, "--a");
    Int s = x;
    s += s;
    same(s, a * 2, "a += a");
    Int t = x;
    t -= t;
    same(t, 0, "a -= a");
    same(x + x, a * 2, "a + a");
    same(x - x, 0, "a - a");
    same(x, a, "operand afterwards");
}
HARNESS_MAIN(
    for (int a = -130; a <= 130; ++a)
        for (int b = -130; b <= 130; ++b)
            if (H::mine()) pair_case(a, b);
    for (int a = -1200; a <= 1200; ++a)
        if (H::mine()) one_case(a);
    for (int n = 1; n < 60; ++n)
        for (int d = -2; d <= 2; ++d)
        {
            if (!H::mine()) continue;
            for (int sg : {1, -1})
            {
                one_case((pow10(n) + d) * sg);
                for (int m = 0; m <= n; ++m) { pair_case((pow10(n) + d) * sg, pow10(m)); pair_case((pow10(n) + d) * sg, -pow10(m) + 1); pair_case(pow10(m), (pow10(n) + d) * sg); }
            }
        }
    while (H::more()) {
        int m = H::rng.p(10) ? 700 : 60;
        Z a = any_z(m);
        pair_case(a, any_rel(a, m));
        one_case(any_z(m));
        // a walk of mixed operations on one object
        Z v = any_z(20);
        Int w = mk(v);
        for (int k = 0; k < 12; ++k)
        {
            Z u = any_rel(v, 20);
            int op = H::rng.in(0, 4);
            H::at("walk: v =", v, "op", op, "u =", u);
            if (op == 0) v += u, w += mk(u);
            if (op == 1) v -= u, w -= mk(u);
            if (op == 2) ++v, ++w;
            if (op == 3) --v, --w;
            if (op == 4) v = -v, w = -w;
            same(w, v, "after the operation");
        }
    })
