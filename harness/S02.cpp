#include "seqs.hpp"
static V split_(const std::string& s, const std::string& sep, bool keep)
{
    V r;
    std::string cur;
    for (std::size_t i = 0; i < s.size();)
        if (s.compare(i, sep.size(), sep) == 0)
        {
            if (keep || !cur.empty()) r.push_back(cur);
            cur.clear();
            i += sep.size();
        }
        else
            cur += s[i++];
    if (keep || !cur.empty()) r.push_back(cur);
    return r;
}
static std::string replace_(const std::string& s, const std::string& o, const std::string& n)
{
    std::string r;
    if (o.empty())
    {
        r = n;
        for (char c : s) r += c, r += n;
        return r;
    }
    for (std::size_t i = 0; i < s.size();)
        if (s.compare(i, o.size(), o) == 0)
            r += n, i += o.size();
        else
            r += s[i++];
    return r;
}
static std::string join_(const std::string& sep, const V& v)
{
    std::string r;
    for (std::size_t i = 0; i < v.size(); ++i)
        r += (i ? sep : "") + v[i];
    return r;
}
static V rdl(const List<Str>& l)
{
    V r;
    for (int i = 0; i < l.size(); ++i) r.push_back(rds(l[i]));
    return r;
}
static void run(const std::string& s, const std::string& p, const std::string& q)
{
    H::at("string", s, "separator", p, "other", q);
    const Str x(s), y(p), z(q);
    if (p.empty())
    {
        H::throws([&] { x.split(y); }, "split by an empty separator");
        H::throws([&] { x.split(y, true); }, "split by an empty separator");
    }
    else
    {
        auto k = H::calm([&] { return x.split(y, true); }, "split");
        H::eq(rdl(k), split_(s, p, true), "split(sep, true)");
        H::eq(rdl(x.split(y, false)), split_(s, p, false), "split(sep, false)");
        H::eq(rdl(x.split(y)), split_(s, p, false), "split(sep)");
        H::eq(rds(y.join(k)), s, "sep.join(split(sep, true))");
    }
    H::eq(rdl(x.split()), split_(s, " ", false), "split()");
    H::eq(rds(H::calm([&] { return x.replace(y, z); }, "replace")), replace_(s, p, q), "replace(old, new)");
    H::eq(rds(x.replace(y, y)), replace_(s, p, p), "replace(p, p)");
    H::eq(rds(x.replace(y, x)), replace_(s, p, s), "replace(p, itself)");
    H::eq(rds(x.replace(x, z)), replace_(s, s, q), "replace(itself, q)");
    if (!s.empty()) H::eq(rdl(x.split(x, true)), split_(s, s, true), "split(itself)");
    H::eq(rds(x), s, "x afterwards");
    H::eq(rds(y), p, "pattern afterwards");
    H::eq(rds(z), q, "replacement afterwards");
}
static void join(const std::string& sep, const V& v)
{
    H::at("join", v, "with", sep);
    List<Str> l;
    for (auto& e : v) l += Str(e);
    const Str x(sep);
    H::eq(rds(H::calm([&] { return x.join(l); }, "join")), join_(sep, v), "join");
    H::eq(rdl(l), v, "list afterwards");
    H::eq(rds(x), sep, "separator afterwards");
}
static std::string bits(int n, int b)
{
    std::string s;
    for (int i = 0; i < n; ++i) s += char('a' + (b >> i & 1));
    return s;
}
HARNESS_MAIN(
    for (int n = 0; n <= 6; ++n) for (int b = 0; b < 1 << n; ++b) for (int m = 0; m <= 3; ++m) for (int c = 0; c < 1 << m; ++c) for (int q = 0; q < 3; ++q) if (H::mine()) run(bits(n, b), bits(m, c), bits(q, q));
    while (H::more()) { auto s = H::any_str(H::rng.p(5) ? 500 : 30); std::string p = !s.empty() && H::rng.p(50) ? s.substr(H::rng.next() % s.size(), H::rng.in(0, 3)) : H::any_str(3);
        run(s, p, H::rng.p(60) ? H::any_str(4) : H::rng.p(50) ? p + p : s);
        V v; for (int k = H::any_size(8); k > 0; --k) v.push_back(H::any_str(5)); join(H::any_str(3), v); })
