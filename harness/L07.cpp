// variants: 6
#include "seqs.hpp"
static void mul(int n, int t)
{
    H::at("repeat", n, "elements", t, "times");
    V v;
    std::string s;
    for (int i = 0; i < n; ++i)
        v.push_back(el(i)), s += char(33 + i * 7 % 200);
    LS x = mk(v);
    const Str c(s);
    if (t < 0 || (long long)n * t >= INT_MAX)
    {
        H::throws([&] { x * t; }, "List * t");
        H::throws([&] { x *= t; }, "List *= t");
        H::throws([&] { c * t; }, "Str * t");
        H::eq(rd(x), v, "list after the throw");
        H::eq(rds(c), s, "string after the throw");
        return;
    }
    V w;
    std::string u;
    for (int k = 0; k < t; ++k)
        if (n) w.insert(w.end(), v.begin(), v.end()), u += s;
    H::eq(rd(H::calm([&] { return x * t; }, "List * t")), w, "List * t");
    H::eq(rd(x), v, "list after x * t");
    H::ok(&(x *= t) == &x, "x *= t returns the list");
    H::eq(rd(x), w, "List *= t");
    H::eq(rds(H::calm([&] { return c * t; }, "Str * t")), u, "Str * t");
    H::eq(rds(c), s, "string afterwards");
}
static void plus(const std::string& a, const std::string& b)
{
    H::at("concatenate", a, "and", b);
    const Str x(a), y(b);
    H::eq(rds(x + y), a + b, "x + y");
    H::eq(rds(x + x), a + a, "x + x");
    H::eq(rds(x), a, "x afterwards");
    H::eq(rds(y), b, "y afterwards");
    if (!b.empty())
    {
        std::string w = a;
        w.push_back(b[0]);
        H::eq(rds(x + b[0]), w, "x + c");
    }
    V v, w;
    for (char c : a) v.push_back(el(c));
    for (char c : b) w.push_back(el(c));
    LS l = mk(v), m = mk(w);
    V vw = v;
    vw.insert(vw.end(), w.begin(), w.end());
    H::eq(rd(l + m), vw, "list + list");
    H::eq(rd(l), v, "list afterwards");
    H::eq(rd(m), w, "other list afterwards");
    if (!w.empty())
    {
        V v1 = v;
        v1.push_back(w[0]);
        H::eq(rd(l + w[0]), v1, "list + element");
    }
}
HARNESS_MAIN(
    for (int n = 0; n <= 6; ++n) for (int t = -3; t <= 9; ++t) if (H::mine()) mul(n, t);
    for (int n : {1, 2, 3, 7, 46341, 65536}) for (int t : H::ints()) if (VARIANT != 5 || n < 100) if ((t < 0 || (long long)n * t >= INT_MAX || (long long)n * t < (VARIANT == 5 ? 500 : 20000)) && H::mine()) mul(n, t);
    while (H::more()) { int n = H::any_size(40); mul(n, H::rng.p(65) ? H::rng.in(-2, 30) : H::rng.p(50) ? H::any_size(400) : n > 1 ? H::rng.in(INT_MAX / n, INT_MAX - 1) : -H::rng.in(1, INT_MAX - 1)); plus(H::any_str(20), H::any_str(20)); })
