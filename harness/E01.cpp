#include "assoc.hpp"
template <class T>
static void check(const Set<T>& x, const SI& s, int m)
{
    is(x, s, "the set");
    for (int j = 0; j < 6; ++j)
    {
        int k = any_key(m);
        T e = make<T>(k);
        auto it = x.find(e);
        H::eq(it != x.end(), s.count(k) == 1, "find(e) != end()");
        H::ok(it == x.end() || *it == e, "find(e) is another element");
        H::eq(x.contains(e), s.count(k) == 1, "contains(e)");
    }
    if (s.empty())
    {
        H::throws([&] { x.min(); }, "min() of an empty set");
        H::throws([&] { x.max(); }, "max() of an empty set");
    }
    else
    {
        H::ok(H::calm([&] { return x.min(); }, "min()") == make<T>(*s.begin()), "min() is not the smallest member");
        H::ok(H::calm([&] { return x.max(); }, "max()") == make<T>(*s.rbegin()), "max() is not the largest member");
    }
}
template <class T>
static void history(const char* name, int m, int steps)
{
    SI s = any_set(m);
    H::at(name, "from", s);
    Set<T> x = mks<T>(s);
    check(x, s, m);
    for (int t = 0; t < steps; ++t)
    {
        int k = any_key(m), op = H::rng.in(0, 11);
        T e = make<T>(k);
        H::at(name, "set", s, "step", op, "element", k);
        if (op < 4)
            H::eq(H::calm([&] { return x.add(e); }, "add"), s.insert(k).second, "returned by add");
        else if (op < 8)
            H::eq(H::calm([&] { return x.remove(e); }, "remove"), s.erase(k) == 1, "returned by remove");
        else if (op == 8 && !s.empty())
        {
            T g = H::calm([&] { return x.pop(); }, "pop");
            auto it = std::find_if(s.begin(), s.end(), [&](int q) { return make<T>(q) == g; });
            H::ok(it != s.end(), "pop returned something that was not a member");
            s.erase(it);
        }
        else if (op == 8)
            H::throws([&] { x.pop(); }, "pop of an empty set");
        else if (op == 9)
        {
            std::vector<int> v;
            for (int n = H::rng.in(0, 5); n > 0; --n)
                v.push_back(any_key(m));
            auto w = members<T>(v);
            if (H::rng.p(30))
                H::calm([&] { x.extend(H::Once<T>(w), H::Once<T>()); }, "extend by input iterators");
            else
                H::calm([&] { x.extend(w.begin(), w.end()); }, "extend");
            s.insert(v.begin(), v.end());
        }
        else if (op == 10 && !s.empty())
        {
            // an argument that is a member itself
            int n = H::rng.in(0, int(s.size()) - 1);
            auto it = x.begin();
            std::advance(it, n);
            H::eq(x.add(*it), false, "add of a reference to a member");
            if (H::rng.p(50))
            {
                H::eq(x.remove(*it), true, "remove of a reference to a member");
                s.erase(std::next(s.begin(), n));
            }
        }
        else if (op == 11 && H::rng.p(20))
            x.clear(), s.clear();
        check(x, s, m);
    }
}
static void tags()
{
    Set<Item> x;
    H::at("Set keeps the stored element when an equal one is added");
    x.add(Item{1, 7});
    H::eq(x.add(Item{1, 8}), false, "add of an equal element");
    H::eq(x.size(), 1, "size()");
    H::ok(x.begin()->tag == 7, "the stored element was replaced");
    H::eq(x.pop().tag, 7, "the popped element");
    Set<Item> y{{2, 1}, {1, 5}, {2, 3}, {1, 9}};
    H::eq(y.size(), 2, "size()");
}
HARNESS_MAIN(
    tags();
    for (int bits = 0; bits < 64; ++bits) for (int k = -1; k < 7; ++k) if (H::mine())
    {
        SI s;
        for (int i = 0; i < 6; ++i)
            if (bits >> i & 1)
                s.insert(i);
        H::at("set of int", s, "element", k);
        Set<int> x = mks<int>(s);
        H::eq(x.add(k), s.count(k) == 0, "returned by add");
        SI t = s;
        t.insert(k);
        check(x, t, 7);
        x = mks<int>(s);
        H::eq(x.remove(k), s.count(k) == 1, "returned by remove");
        t = s;
        t.erase(k);
        check(x, t, 7);
    }
    while (H::more()) {
        int m = H::rng.p(10) ? 300 : 12;
        int n = H::rng.in(1, 30);
        switch (H::rng.in(0, 7))
        {
        case 0: history<std::string>("Set<std::string>", m, n); break;
        case 1: history<Item>("Set<Item>", m, n); break;
        case 2: history<Int>("Set<Int>", m, n); break;
        case 3: history<Str>("Set<Str>", m, n); break;
        case 4: history<Fraction>("Set<Fraction>", m, n); break;
        case 5: history<LS>("Set<List>", m, n); break;
        case 6: history<Rev>("Set<reverse order>", m, n); break;
        default: history<int>("Set<int>", m, n);
        }
    })
