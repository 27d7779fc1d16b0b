// variants: 6
#include "seqs.hpp"
static void slice(int n, long long a, long long b, int d)
{
    H::at("slice of", n, "elements: start", a, "stop", b, "step", d);
    V v;
    std::string s;
    for (int i = 0; i < n; ++i)
        v.push_back(el(i)), s += char(33 + i * 7 % 200);
    const LS x = mk(v);
    const Str t(s);
    if (d == 0 || a < -n || a >= n || b < -n - 1 || b > n)
    {
        H::throws([&] { x.slice(a, b, d); }, "List::slice");
        H::throws([&] { t.slice(a, b, d); }, "Str::slice");
    }
    else
    {
        V w;
        std::string u;
        for (long long i = wrap(a, n), e = wrap(b, n); d > 0 ? i < e : i > e; i += d)
            w.push_back(v[i]), u += s[i];
        H::eq(rd(H::calm([&] { return x.slice(a, b, d); }, "List::slice")), w, "List::slice");
        H::eq(rds(H::calm([&] { return t.slice(a, b, d); }, "Str::slice")), u, "Str::slice");
        if (d == 1)
            H::eq(rd(x.slice(a, b)), w, "List::slice with the default step"), H::eq(rds(t.slice(a, b)), u, "Str::slice with the default step");
    }
    H::eq(rd(x), v, "list afterwards");
    H::eq(rds(t), s, "string afterwards");
}
HARNESS_MAIN(
    for (int n = 0; n <= 4; ++n) for (int a = -n - 2; a <= n + 2; ++a) for (int b = -n - 3; b <= n + 3; ++b) for (int d = -n - 2; d <= n + 2; ++d) if (H::mine()) slice(n, a, b, d);
    for (int d : H::ints()) for (int n : {1, 2, 3, 7}) for (int a = -n; a < n; ++a) for (int b = -n - 1; b <= n; ++b) if (H::mine()) slice(n, a, b, d);
    for (int a : H::ints()) for (int b : H::ints()) if (H::mine()) slice(3, a, b, 1);
    while (H::more()) { int n = H::any_size(H::rng.p(5) ? 500 : 30); int a = any_ix(n); int b = any_ix(n); slice(n, a, b, H::rng.p(50) ? H::any_int() : H::rng.in(-n - 1, n + 1)); if (n) slice(n, H::rng.in(-n, n - 1), H::rng.in(-n - 1, n), H::rng.p(30) ? H::any_int() : H::rng.in(-4, 4)); })
