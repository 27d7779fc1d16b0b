#include "seqs.hpp"
static int find_(const std::string& s, const std::string& p, long long start, long long stop)
{
    long long n = s.size(), m = p.size();
    start = std::max(start, 0LL);
    stop = std::min(stop, n);
    for (long long i = start; i + m <= stop; ++i)
        if (std::equal(p.begin(), p.end(), s.begin() + i))
            return i;
    return -1;
}
static void one(const std::string& s, const std::string& p, int a, int b)
{
    H::at("search", p, "in", s, "from", a, "to", b);
    const Str x(s), y(p);
    int want = find_(s, p, a, b);
    H::eq(H::calm([&] { return x.find(y, a, b); }, "find"), want, "find(p, start, stop)");
    H::eq(x.contains(y, a, b), want != -1, "contains(p, start, stop)");
    H::eq(x.find(y, a), find_(s, p, a, INT_MAX), "find(p, start)");
    H::eq(x.contains(y, a), find_(s, p, a, INT_MAX) != -1, "contains(p, start)");
    H::eq(x.find(x, a, b), find_(s, s, a, b), "x.find(x)");
    H::eq(rds(x), s, "x afterwards");
}
static void two(const std::string& s, const std::string& p)
{
    H::at("search", p, "in", s);
    const Str x(s), y(p);
    int n = s.size(), m = p.size();
    int cnt = 0;
    if (m == 0)
        cnt = n + 1;
    else
        for (int i = 0; (i = find_(s, p, i, n)) != -1; i += m)
            ++cnt;
    H::eq(H::calm([&] { return x.count(y); }, "count"), cnt, "count");
    H::eq(x.find(y), find_(s, p, 0, n), "find(p)");
    H::eq(x.contains(y), find_(s, p, 0, n) != -1, "contains(p)");
    H::eq(x.starts_with(y), m <= n && s.substr(0, m) == p, "starts_with");
    H::eq(x.ends_with(y), m <= n && s.substr(n - m) == p, "ends_with");
    H::eq(x.count(x), n ? 1 : 1, "x.count(x)");
    H::ok(x.starts_with(x) && x.ends_with(x), "x starts and ends with x");
    H::eq(rds(x), s, "x afterwards");
    H::eq(rds(y), p, "p afterwards");
}
static std::string pat(const std::string& s)
{
    if (!s.empty() && H::rng.p(60))
    {
        std::size_t i = H::rng.next() % s.size();
        return s.substr(i, H::rng.in(0, 4));
    }
    return H::any_str(4);
}
HARNESS_MAIN(
    for (int n = 0; n <= 5; ++n) for (int bits = 0; bits < 1 << n; ++bits) for (int m = 0; m <= 3; ++m) for (int pb = 0; pb < 1 << m; ++pb) {
        std::string s; std::string p;
        for (int i = 0; i < n; ++i) s += char('a' + (bits >> i & 1));
        for (int i = 0; i < m; ++i) p += char('a' + (pb >> i & 1));
        if (H::mine()) { two(s, p); for (int a = -2; a <= n + 2; ++a) for (int b = -2; b <= n + 2; ++b) one(s, p, a, b); } }
    for (int a : H::ints()) for (int b : H::ints()) if (H::mine()) { one("abcab", "ab", a, b); one("", "", a, b); one("aaa", "", a, b); }
    while (H::more()) { auto s = H::any_str(H::rng.p(5) ? 700 : 40); auto p = pat(s); two(s, p); int n = s.size(); one(s, p, any_ix(n), H::rng.p(20) ? H::any_int() : H::rng.in(-1, n + 2)); one(s, p, H::rng.in(-1, n + 1), H::rng.in(0, n + 1)); })
