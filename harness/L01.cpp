// variants: 6
#include "seqs.hpp"
template <class L>
static void run(const char* name, const V& v, L x, int i)
{
    H::at(name, "of", v, "index", i);
    int n = v.size();
    const L& c = x;
    if (i < -n || i >= n)
    {
        H::throws([&] { (void)x[i]; }, "x[i]");
        H::throws([&] { (void)c[i]; }, "x[i] const");
        H::eq(rd(x), v, "x afterwards");
        return;
    }
    int p = wrap(i, n);
    H::calm([&] { H::eq(x[i], v[p], "x[i]"); H::eq(c[i], v[p], "x[i] const"); }, "x[i]");
    H::ok(&x[i] == &*(x.begin() + p) && &c[i] == &x[i], "x[i] is not the element itself");
    V w = v;
    w[p] = el(9999);
    x[i] = el(9999);
    H::eq(rd(x), w, "x after x[i] = ...");
    for (int j = 0; j < n; ++j)
        H::eq(c[j], w[j], "x[j] of the written object"), H::eq(c[j - n], w[j], "x[j - n]");
}
static void str(const std::string& s, int i)
{
    H::at("Str", s, "index", i);
    int n = s.size();
    const Str x(s);
    if (i < -n || i >= n)
        H::throws([&] { (void)x[i]; }, "x[i]");
    else
    {
        H::calm([&] { H::eq(x[i], s[wrap(i, n)], "x[i]"); }, "x[i]");
        H::ok(&x[i] == x.data() + wrap(i, n), "x[i] is not the element itself");
    }
    H::eq(rds(x), s, "x afterwards");
}
static V iota(int n)
{
    V v;
    for (int i = 0; i < n; ++i)
        v.push_back(el(i));
    return v;
}
static void all(const V& v, int i)
{
    run("List", v, mk(v), i);
    run("Deque", v, mkd(v), i);
    std::string s;
    for (std::size_t k = 0; k < v.size(); ++k)
        s += char(33 + k * 7 % 200);
    str(s, i);
}
HARNESS_MAIN(
    for (int n = 0; n <= 8; ++n) { for (int i = -n - 3; i <= n + 3; ++i) if (H::mine()) all(iota(n), i); for (int i : H::ints()) if (H::mine()) all(iota(n), i); }
    while (H::more()) { V v = any_v(H::rng.p(10) ? 600 : 30); all(v, any_ix(v.size())); })
