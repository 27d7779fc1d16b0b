// variants: 6
#include "seqs.hpp"
static void search(const V& v, const E& e, int a, int b)
{
    H::at("search", e, "in", v, "from", a, "to", b);
    const LS x = mk(v);
    long long lo = a < 0 ? 0 : a, hi = b > (long long)v.size() ? (long long)v.size() : b;
    int p = -1;
    for (long long i = lo; i < hi && p < 0; ++i)
        if (v[i] == e) p = int(i);
    H::eq(H::calm([&] { return x.index(e, a, b); }, "index"), p, "index(e, a, b)");
    H::eq(x.contains(e, a, b), p >= 0, "contains(e, a, b)");
    int f = std::find(v.begin(), v.end(), e) - v.begin();
    H::eq(x.index(e), f == int(v.size()) ? -1 : f, "index(e)");
    H::eq(x.contains(e), f != int(v.size()), "contains(e)");
    H::eq(int(x.find(e) - x.begin()), f, "find(e)");
    H::eq(x.find(e) == x.end(), f == int(v.size()), "find(e) == end()");
    H::eq(x.count(e), int(std::count(v.begin(), v.end(), e)), "count(e)");
    H::eq(V(x.rbegin(), x.rend()), V(v.rbegin(), v.rend()), "rbegin() .. rend()");
    if (!v.empty())
    {
        int j = H::rng.in(0, int(v.size()) - 1);
        H::eq(x.index(x[j]), int(std::find(v.begin(), v.end(), v[j]) - v.begin()), "index(x[j])");
        H::eq(x.index(x[j], j), j, "index(x[j], j)");
    }
    H::eq(rd(x), v, "x afterwards");
}
HARNESS_MAIN(
    for (int n = 0; n <= 4; ++n) for (int m = 0; m < (1 << n); ++m) { V v; for (int i = 0; i < n; ++i) v.push_back(pool()[m >> i & 1]); for (int a = -2; a <= n + 2; ++a) for (int b = -2; b <= n + 2; ++b) if (H::mine()) search(v, pool()[0], a, b); }
    for (int a : H::ints()) for (int b : H::ints()) if (H::mine()) search({pool()[1], pool()[0], pool()[0]}, pool()[0], a, b);
    while (H::more()) { V v = any_v(H::rng.p(10) ? 300 : 12); int a = any_ix(v.size()); search(v, any_e(), a, any_ix(v.size())); })
