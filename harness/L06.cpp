// variants: 4
#include "seqs.hpp"
// variant 0: Item, whose tag == and the comparators do not see; otherwise an arithmetic type or a string
#if VARIANT == 1
using K = int;
static K mkk(int key, int) { return key - 1; }
static int key(K k) { return k + 1; }
static K acted(K k) { return k * 2 + 1; }
#elif VARIANT == 2
using K = double;
static K mkk(int key, int tag) { return key == 1 ? (tag % 2 ? 0.0 : -0.0) : (key - 1) / 2.0; }
static int key(K k) { return int(k * 2 + 1); }
static K acted(K k) { return k + 0.5; }
#elif VARIANT == 3
using K = std::string;
static K mkk(int key, int) { return std::string(1 + key % 3 * 20, char('a' + key)); }
static int key(const K& k) { return k.empty() ? 99 : (unsigned char)k[0] - 'a'; }
static K acted(const K& k) { return k + "x"; }
#else
using K = Item;
static K mkk(int key, int tag) { return {key, tag}; }
static int key(const K& k) { return k.key; }
static K acted(const K& k) { return {k.key + 1, k.tag * 2}; }
#endif
using VK = std::vector<K>;
static bool alike(const VK& a, const VK& b)
{
#if VARIANT == 0
    return same(a, b);
#elif VARIANT == 2
    return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0);
#else
    return a == b;
#endif
}
static void run(const VK& v)
{
    H::at("list (key.tag)", v);
    auto mk = [&] { if (H::rng.p(50)) return List<K>(v); List<K> l; for (auto& e : v) l += e; return l; };
    auto rd = [](const List<K>& l) { H::eq(l.size(), int(l.end() - l.begin()), "size()"); return VK(l.begin(), l.end()); };
    auto is = [](const VK& got, const VK& want, const char* w) { H::ok(alike(got, want), std::string(w) + ": got " + H::show(got) + ", expected " + H::show(want)); };
    VK u;
    for (auto& e : v)
    {
        bool seen = false;
        for (auto& f : u) seen |= f == e;
        if (!seen) u.push_back(e);
    }
    List<K> x = mk();
    H::ok(&x.uniquify() == &x, "uniquify returns the list");
    is(rd(x), u, "uniquify");
    VK s = v, r = v;
    std::stable_sort(s.begin(), s.end(), [](const K& a, const K& b) { return key(a) < key(b); });
    std::stable_sort(r.begin(), r.end(), [](const K& a, const K& b) { return key(a) > key(b); });
    List<K> y = mk(), z = mk(), w = mk();
    H::ok(&y.sort() == &y, "sort returns the list");
    is(rd(y), s, "sort()");
    z.sort([](const K& a, const K& b) { return key(a) > key(b); });
    is(rd(z), r, "sort(>)");
    w.sort([](const K&, const K&) { return false; });
    is(rd(w), v, "sort with all elements equivalent");
    int m = H::rng.in(1, 4);
    VK f;
    for (auto& e : v)
        if (key(e) % m == 0) f.push_back(e);
    List<K> p = mk();
    H::ok(&p.filter([&](const K& e) { return key(e) % m == 0; }) == &p, "filter returns the list");
    is(rd(p), f, "filter");
    VK log, g;
    for (auto& e : v) g.push_back(acted(e));
    List<K> q = mk();
    H::ok(&q.map([&](K& e) { log.push_back(e); e = acted(e); }) == &q, "map returns the list");
    is(rd(q), g, "map");
    is(log, v, "order of map's calls");
}
static VK any(int n, int keys)
{
    VK v;
    for (int i = 0; i < n; ++i) v.push_back(mkk(H::rng.in(0, keys), i));
    return v;
}
HARNESS_MAIN(
    for (int n = 0; n <= 4; ++n) { int t = 1; for (int i = 0; i < n; ++i) t *= 3; for (int m = 0; m < t; ++m) if (H::mine()) { VK v; int q = m; for (int i = 0; i < n; ++i, q /= 3) v.push_back(mkk(q % 3, i)); run(v); } }
    while (H::more()) { int n = H::any_size(H::rng.p(10) ? 400 : 25); run(any(n, H::rng.p(50) ? 3 : H::rng.p(50) ? 50 : n / 2 + 1)); })
