#include "assoc.hpp"
using MI = std::map<int, int>;
template <class K, class W>
static Dict<K, W> mkd(const MI& m)
{
    std::vector<std::pair<K, W>> v;
    for (auto& [k, w] : m)
        v.push_back({make<K>(k), make<W>(w)});
    if (H::rng.p(50))
        std::reverse(v.begin(), v.end());
    Dict<K, W> d;
    using O = H::Once<std::pair<K, W>>;
    switch (H::rng.in(0, 5))
    {
    case 4: return Dict<K, W>(O(v), O());
    case 5: d.extend(O(v), O()); return d;
    case 0: return Dict<K, W>(v.begin(), v.end());
    case 1: return Dict<K, W>(std::map<K, W>(v.begin(), v.end()));
    case 2: d.extend(v.begin(), v.end()); return d;
    default:
        for (auto& [k, w] : v)
            H::ok(d.add(k, w), "add of an absent key returned false");
        return d;
    }
}
template <class K, class W>
static void check(Dict<K, W>& d, const MI& m, int n)
{
    const Dict<K, W>& c = d;
    H::eq(c.size(), int(m.size()), "size()");
    H::eq(c.is_empty(), m.empty(), "is_empty()");
    auto it = c.begin();
    SI ks, vs;
    for (auto& [k, w] : m)
    {
        H::ok(it != c.end() && it->first == make<K>(k) && it->second == make<W>(w), "the pair of key " + std::to_string(k) + " is wrong or missing");
        ++it;
        ks.insert(k), vs.insert(w);
    }
    H::ok(it == c.end(), "more pairs than expected");
    auto rt = c.rbegin();
    for (auto q = m.rbegin(); q != m.rend(); ++q, ++rt)
        H::ok(rt != c.rend() && rt->first == make<K>(q->first), "backward iteration differs");
    H::ok(rt == c.rend(), "backward iteration does not end");
    is(c.keys(), ks, "keys()");
    is(c.values(), vs, "values()");
    auto items = c.items();
    H::eq(items.size(), int(m.size()), "items().size()");
    for (auto& [k, w] : m)
        H::ok(items.contains({make<K>(k), make<W>(w)}), "items() misses the pair of key " + std::to_string(k));
    for (int j = 0; j < 6; ++j)
    {
        int k = any_key(n);
        K key = make<K>(k);
        W def = make<W>(77);
        bool in = m.count(k);
        H::eq(c.contains(key), in, "contains(key)");
        auto f = c.find(key);
        H::eq(f != c.end(), in, "find(key) != end()");
        H::ok(!in || (f->first == key && f->second == make<W>(m.at(k))), "find(key) is another pair");
        H::ok(H::calm([&] { return c.get(key, def); }, "get") == make<W>(in ? m.at(k) : 77), "get(key, default) is wrong");
        if (in)
        {
            H::ok(H::calm([&]() -> const W& { return c[key]; }, "d[key] const") == make<W>(m.at(k)), "d[key] const is wrong");
            H::ok(H::calm([&]() -> W& { return d[key]; }, "d[key]") == make<W>(m.at(k)), "d[key] is wrong");
        }
        else
        {
            H::throws([&] { (void)c[key]; }, "d[absent key] const");
            H::throws([&] { (void)d[key]; }, "d[absent key]");
            H::eq(c.size(), int(m.size()), "size() after d[absent key]");
        }
    }
    if (m.empty())
    {
        H::throws([&] { c.min(); }, "min() of an empty dict");
        H::throws([&] { c.max(); }, "max() of an empty dict");
    }
    else
    {
        H::ok(H::calm([&] { return c.min(); }, "min()") == make<K>(m.begin()->first), "min() is not the smallest key");
        H::ok(H::calm([&] { return c.max(); }, "max()") == make<K>(m.rbegin()->first), "max() is not the largest key");
    }
}
static MI any_map(int m)
{
    MI r;
    int distinct = H::rng.p(50);
    for (int k : any_set(m))
        r[k] = distinct ? H::rng.in(-1000, 1000) : H::rng.in(0, 3);
    return r;
}
template <class K, class W>
static void history(const char* name, int n, int steps)
{
    MI m = any_map(n);
    H::at(name, "from", m);
    Dict<K, W> d = mkd<K, W>(m);
    check(d, m, n);
    for (int t = 0; t < steps; ++t)
    {
        int k = any_key(n), w = H::rng.p(50) ? H::rng.in(0, 3) : H::rng.in(-1000, 1000), op = H::rng.in(0, 13);
        K key = make<K>(k);
        W val = make<W>(w);
        H::at(name, "dict", m, "step", op, "key", k, "value", w);
        if (op < 4)
            H::eq(H::calm([&] { return d.add(key, val); }, "add"), m.insert({k, w}).second, "returned by add");
        else if (op < 8)
            H::eq(H::calm([&] { return d.remove(key); }, "remove"), m.erase(k) == 1, "returned by remove");
        else if (op == 8 && !m.empty())
        {
            auto p = H::calm([&] { return d.pop(); }, "pop");
            auto it = std::find_if(m.begin(), m.end(), [&](auto& q) { return make<K>(q.first) == p.first; });
            H::ok(it != m.end() && p.second == make<W>(it->second), "pop returned something that was not stored");
            m.erase(it);
        }
        else if (op == 8)
            H::throws([&] { d.pop(); }, "pop of an empty dict");
        else if (op == 9)
        {
            std::vector<std::pair<int, int>> v;
            std::vector<std::pair<K, W>> x;
            for (int j = H::rng.in(0, 5); j > 0; --j)
            {
                int a = any_key(n), b = H::rng.in(0, 50);
                v.push_back({a, b}), x.push_back({make<K>(a), make<W>(b)});
            }
            using O = H::Once<std::pair<K, W>>;
            H::calm([&] { H::rng.p(30) ? d.extend(O(x), O()) : d.extend(x.begin(), x.end()); }, "extend");
            for (auto& p : v)
                m.insert(p);
        }
        else if (op < 12 && m.count(k))
            d[key] = val, m[k] = w;
        else if (op == 12 && !m.empty())
        {
            // arguments that are stored in the dict itself
            auto it = std::next(m.begin(), H::rng.in(0, int(m.size()) - 1));
            auto f = d.find(make<K>(it->first));
            H::eq(d.add(key, f->second), m.insert({k, it->second}).second, "returned by add of a stored value");
            H::ok(d.get(f->first, val) == make<W>(it->second), "get of a stored key");
            if (H::rng.p(50))
            {
                H::eq(d.remove(f->first), true, "remove of a reference to a stored key");
                m.erase(it);
            }
        }
        else if (op == 13 && H::rng.p(20))
            d.clear(), m.clear();
        check(d, m, n);
    }
    // ==
    MI o = H::rng.p(40) ? m : any_map(n);
    if (!o.empty() && H::rng.p(60))
    {
        auto it = std::next(o.begin(), H::rng.in(0, int(o.size()) - 1));
        int act = H::rng.in(0, 2);
        if (act == 0) it->second += 1;
        else if (act == 1) o.erase(it);
        else { int w = it->second; int k = it->first; o.erase(it); o[k + 1] = w; }
    }
    H::at(name, "dict", m, "== dict", o);
    Dict<K, W> e = mkd<K, W>(o);
    H::eq(d == e, m == o, "==");
    H::eq(d != e, m != o, "!=");
    H::eq(d == d, true, "d == d");
    check(d, m, n);
    check(e, o, n);
}
static void tags()
{
    H::at("Dict keeps the stored value when the key is added again");
    Dict<Item, int> d{{{1, 7}, 10}, {{1, 8}, 11}, {{0, 1}, 12}};
    H::eq(d.size(), 2, "size()");
    H::eq(d.get({1, 0}, -1), 10, "the value of a key given twice: the first one");
    H::eq(d.add({1, 3}, 13), false, "add of an existing key");
    H::eq(d.get({1, 0}, -1), 10, "the stored value");
    H::eq(d.find({1, 0})->first.tag, 7, "the stored key");
    const int def = 5;
    H::ok(&d.get({9, 9}, def) == &def, "get returns a reference to something else than the default");
    H::ok(&d.get({1, 0}, def) == &d[Item{1, 0}], "get returns a reference to something else than the stored value");
}
HARNESS_MAIN(
    tags();
    while (H::more()) {
        int m = H::rng.p(10) ? 200 : 10;
        int n = H::rng.in(1, 20);
        switch (H::rng.in(0, 6))
        {
        case 0: history<std::string, std::string>("Dict<string,string>", m, n); break;
        case 1: history<Item, Int>("Dict<Item,Int>", m, n); break;
        case 2: history<Int, int>("Dict<Int,int>", m, n); break;
        case 3: history<Str, Fraction>("Dict<Str,Fraction>", m, n); break;
        case 4: history<LS, Item>("Dict<List,Item>", m, n); break;
        case 5: history<Rev, int>("Dict<reverse order,int>", m, n); break;
        default: history<int, int>("Dict<int,int>", m, n);
        }
    })
