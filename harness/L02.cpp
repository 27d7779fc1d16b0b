// variants: 6
#include "seqs.hpp"
#include <list>
static V cat(const V& a, const V& b)
{
    V r = a;
    r.insert(r.end(), b.begin(), b.end());
    return r;
}
static V without_first(const V& a, const E& e)
{
    V r = a;
    auto it = std::find(r.begin(), r.end(), e);
    if (it != r.end()) r.erase(it);
    return r;
}
static V without_all(const V& a, const E& e)
{
    V r;
    for (auto& x : a)
        if (!(x == e)) r.push_back(x);
    return r;
}
static void edits(const V& v, int i, const E& e)
{
    int n = v.size();
    {
        H::at("insert at", i, "element", e, "into", v);
        LS x = mk(v);
        if (i < -n || i > n)
            H::throws([&] { x.insert(i, e); }, "insert"), H::eq(rd(x), v, "list after the throw");
        else
        {
            V w = v;
            w.insert(w.begin() + wrap(i, n), e);
            H::calm([&] { x.insert(i, e); }, "insert");
            H::eq(rd(x), w, "insert");
            if (n)
            {
                int j = H::rng.in(0, n - 1);
                H::at("insert at", i, "own element", j, "of", v);
                LS y = mk(v);
                V u = v;
                u.insert(u.begin() + wrap(i, n), v[j]);
                H::calm([&] { y.insert(i, y[j]); }, "insert of an own element");
                H::eq(rd(y), u, "insert of an own element");
            }
        }
    }
    {
        H::at("remove at", i, "from", v);
        LS x = mk(v);
        if (i < -n || i >= n)
            H::throws([&] { x.remove(i); }, "remove"), H::eq(rd(x), v, "list after the throw");
        else
        {
            V w = v;
            w.erase(w.begin() + wrap(i, n));
            E r = H::calm([&] { return x.remove(i); }, "remove");
            H::eq(r, v[wrap(i, n)], "removed element");
            H::eq(rd(x), w, "remove");
        }
    }
}
static void element(const V& v, const E& e)
{
    H::at("list", v, "element", e);
    const LS x = mk(v);
    V plus = cat(v, {e}), minus = without_first(v, e), over = without_all(v, e);
    H::eq(rd(x + e), plus, "x + e");
    H::eq(rd(x - e), minus, "x - e");
    H::eq(rd(x / e), over, "x / e");
    LS a = mk(v), b = mk(v), c = mk(v);
    H::ok(&(a += e) == &a && &(b -= e) == &b && &(c /= e) == &c, "the compound forms return the list");
    H::eq(rd(a), plus, "x += e");
    H::eq(rd(b), minus, "x -= e");
    H::eq(rd(c), over, "x /= e");
    if (!v.empty())
    {
        int j = H::rng.in(0, int(v.size()) - 1);
        H::at("list", v, "own element", j);
        LS p = mk(v), m = mk(v), d = mk(v);
        p += p[j], m -= m[j], d /= d[j];
        H::eq(rd(p), cat(v, {v[j]}), "x += x[j]");
        H::eq(rd(m), without_first(v, v[j]), "x -= x[j]");
        H::eq(rd(d), without_all(v, v[j]), "x /= x[j]");
        H::eq(rd(x + x[j]), cat(v, {v[j]}), "x + x[j]");
        H::eq(rd(x - x[j]), without_first(v, v[j]), "x - x[j]");
        H::eq(rd(x / x[j]), without_all(v, v[j]), "x / x[j]");
    }
    H::eq(rd(x), v, "x afterwards");
}
static void lists(const V& v, const V& w)
{
    H::at("list", v, "other", w);
    LS x = mk(v);
    const LS y = mk(w);
    H::eq(rd(x + y), cat(v, w), "x + y");
    H::eq(rd(x), v, "x after x + y");
    H::ok(&(x += y) == &x, "x += y returns the list");
    H::eq(rd(x), cat(v, w), "x += y");
    H::eq(rd(y), w, "y afterwards");
    LS z = mk(v), u = mk(v), t = mk(v);
    z += z;
    H::eq(rd(z), cat(v, v), "x += x");
    H::eq(rd(u + u), cat(v, v), "x + x");
    u.extend(w.begin(), w.end());
    H::eq(rd(u), cat(v, w), "extend by a vector's range");
    std::list<E> ll(w.begin(), w.end());
    t.extend(ll.begin(), ll.end());
    H::eq(rd(t), cat(v, w), "extend by a std::list's range");
    H::eq(rd(LS(w.begin(), w.end())), w, "List(first, last)");
    LS o = mk(v);
    o.extend(H::Once<E>(w), H::Once<E>());
    H::eq(rd(o), cat(v, w), "extend by an input iterator's range");
    H::eq(rd(LS(H::Once<E>(w), H::Once<E>())), w, "List(first, last) of input iterators");
    LS k = mk(v);
    k.clear();
    H::eq(rd(k), V{}, "clear");
    if (v.size() >= 2)
    {
        LS i{v[0], v[1]};
        H::eq(rd(i), V{v[0], v[1]}, "initializer list");
    }
}
static void erase(const V& v, int a, int b)
{
    H::at("erase", a, b, "of", v);
    LS x = mk(v);
    int n = v.size();
    if (a < 0 || b > n || a > b)
        H::throws([&] { x.erase(a, b); }, "erase"), H::eq(rd(x), v, "list after the throw");
    else
    {
        V w = v;
        w.erase(w.begin() + a, w.begin() + b);
        H::ok(&H::calm([&]() -> LS& { return x.erase(a, b); }, "erase") == &x, "erase returns the list");
        H::eq(rd(x), w, "erase");
    }
}
HARNESS_MAIN(
    for (int n = 0; n <= 5; ++n) for (int a = -2; a <= n + 2; ++a) for (int b = -2; b <= n + 2; ++b) if (H::mine()) erase(V(pool().begin(), pool().begin() + n), a, b);
    for (int n = 0; n <= 5; ++n) { V v(pool().begin(), pool().begin() + n); for (int i : H::ints()) if (H::mine()) { edits(v, i, el(77)); erase(v, i, n); erase(v, 0, i); erase(v, i, i); } }
    while (H::more()) { V v = any_v(H::rng.p(10) ? 300 : 12); edits(v, any_ix(v.size()), any_e()); element(v, any_e()); lists(v, any_v(12)); int a = any_ix(v.size()); erase(v, a, any_ix(v.size())); erase(v, H::rng.in(0, v.size()), H::rng.in(0, v.size())); })
