// variants: 6
#include "seqs.hpp"
static int ord(const E& a, const E& b) { return a < b ? -1 : b < a ? 1 : 0; }
static int ord(unsigned char a, unsigned char b) { return a < b ? -1 : a > b; }
template <class W, class O>
static int want(const W& a, const W& b, O o)
{
    for (std::size_t i = 0; i < a.size() && i < b.size(); ++i)
        if (int c = o(a[i], b[i])) return c;
    return a.size() < b.size() ? -1 : a.size() > b.size();
}
template <class X>
static void check(const X& x, const X& y, int c, bool same, const char* what)
{
    const std::string w(what);
    H::eq(x == y, same, (w + " ==").c_str());
    H::eq(y == x, same, (w + " == swapped").c_str());
    H::eq(x != y, !same, (w + " !=").c_str());
    H::eq(x < y, c < 0, (w + " <").c_str());
    H::eq(x <= y, c <= 0, (w + " <=").c_str());
    H::eq(x > y, c > 0, (w + " >").c_str());
    H::eq(x >= y, c >= 0, (w + " >=").c_str());
    H::eq(y < x, c > 0, (w + " < swapped").c_str());
    const auto t = x <=> y;
    H::ok((t < 0) == (c < 0) && (t > 0) == (c > 0) && (t == 0) == (c == 0), w + " <=>");
    H::ok(x == x && !(x < x) && x <= x && (x <=> x) == 0, w + " with itself");
}
static void one(const V& a, const V& b)
{
    H::at("compare", a, b);
    const int c = want(a, b, [](const E& x, const E& y) { return ord(x, y); });
    const bool s = a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin());
    LS x = mk(a), y = mk(b);
    if (H::rng.p(20)) { x.insert(x.size(), el(3)); x.remove(x.size() - 1); } // an element was there before
    check(x, y, c, s, "List");
    DS p = mkd(a), q = mkd(b);
    if (H::rng.p(20)) { p.push_front(el(3)); p.pop_front(); }
    check(p, q, c, s, "Deque");
    H::eq(rd(x), a, "list afterwards");
    H::eq(rd(q), b, "deque afterwards");
}
static void text(const std::string& a, const std::string& b)
{
    H::at("compare", a, b);
    const int c = want(a, b, [](char x, char y) { return ord((unsigned char)x, (unsigned char)y); });
    const Str x(a), y(b);
    check(x, y, c, a == b, "Str");
    H::eq(rds(x), a, "string afterwards");
}
static V near(V v)
{
    const int how = H::rng.in(0, 6);
    if (v.empty() || how == 0) return any_v(6);
    if (how == 1) v.resize(H::rng.next() % v.size());
    else if (how == 2) for (int k = H::rng.in(1, 3); k > 0; --k) v.push_back(any_e());
    else if (how >= 3) for (int k = H::rng.in(0, 2); k > 0; --k) v[H::rng.next() % v.size()] = H::rng.p(50) ? any_e() : el(H::rng.in(0, 9));
    return v;
}
static std::string nears(std::string s)
{
    const int how = H::rng.in(0, 6);
    if (s.empty() || how == 0) return H::any_str(6);
    if (how == 1) s.resize(H::rng.next() % s.size());
    else if (how == 2) for (int k = H::rng.in(1, 3); k > 0; --k) s += H::any_char();
    else for (int k = H::rng.in(0, 2); k > 0; --k) s[H::rng.next() % s.size()] = H::rng.p(30) ? '\0' : H::any_char();
    return s;
}
HARNESS_MAIN(
    { std::vector<V> all{{}}; const V& es = pool();
      for (std::size_t i = 0; i < all.size() && all[i].size() < 3; ++i) for (std::size_t k = 0; k < 4; ++k) { V v = all[i]; v.push_back(es[k]); all.push_back(v); }
      for (auto& a : all) for (auto& b : all) if (H::mine()) one(a, b); }
    for (int i = 0; i < 256; ++i) for (int k = 0; k < 256; ++k) if (H::mine()) { text(std::string(1, char(i)), std::string(1, char(k))); text("x" + std::string(1, char(i)), std::string(1, char(k)) + "x"); }
    { std::vector<std::string> all{""};
      for (std::size_t i = 0; i < all.size() && all[i].size() < 4; ++i) for (char c : {'a', '\0', '\x80'}) all.push_back(all[i] + c);
      for (auto& a : all) for (auto& b : all) if (H::mine()) text(a, b); }
    while (H::more()) {
        const V v = any_v(H::rng.p(5) ? 400 : 12);
        one(v, near(v));
        const std::string s = H::any_str(H::rng.p(5) ? 400 : 20);
        text(s, nears(s)); })
