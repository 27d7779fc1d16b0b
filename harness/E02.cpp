#include "assoc.hpp"
static SI model(char op, const SI& a, const SI& b)
{
    SI all = a, r;
    all.insert(b.begin(), b.end());
    for (int k : all)
    {
        bool p = a.count(k), q = b.count(k);
        if (op == '&' ? p && q : op == '|' ? p || q : op == '-' ? p && !q : p != q)
            r.insert(k);
    }
    return r;
}
static bool sub(const SI& a, const SI& b)
{
    for (int k : a)
        if (!b.count(k))
            return false;
    return true;
}
template <class T>
static void pairs(const char* name, const SI& a, const SI& b)
{
    H::at(name, "A", a, "B", b);
    const Set<T> x = mks<T>(a), y = mks<T>(b);
    is<T>(H::calm([&] { return x & y; }, "A & B"), model('&', a, b), "A & B");
    is<T>(H::calm([&] { return x | y; }, "A | B"), model('|', a, b), "A | B");
    is<T>(H::calm([&] { return x - y; }, "A - B"), model('-', a, b), "A - B");
    is<T>(H::calm([&] { return x ^ y; }, "A ^ B"), model('^', a, b), "A ^ B");
    bool le = sub(a, b), ge = sub(b, a);
    H::eq(x <= y, le, "A <= B");
    H::eq(x >= y, ge, "A >= B");
    H::eq(x < y, le && !ge, "A < B");
    H::eq(x > y, ge && !le, "A > B");
    H::eq(x == y, le && ge, "A == B");
    H::eq(x != y, !(le && ge), "A != B");
    is(x, a, "A afterwards");
    is(y, b, "B afterwards");
    for (char op : {'&', '|', '-', '^'})
    {
        Set<T> z = x;
        Set<T>& r = op == '&' ? z &= y : op == '|' ? z |= y : op == '-' ? z -= y : z ^= y;
        std::string what = std::string("A ") + op + "= B";
        H::ok(&r == &z, what + " does not return A");
        is(z, model(op, a, b), what.c_str());
        is(y, b, "B afterwards");
        Set<T> w = x;
        op == '&' ? w &= w : op == '|' ? w |= w : op == '-' ? w -= w : w ^= w;
        is(w, model(op, a, a), (std::string("A ") + op + "= A").c_str());
    }
    is(x & x, a, "A & A"), is(x | x, a, "A | A"), is(x - x, SI(), "A - A"), is(x ^ x, SI(), "A ^ A");
    H::ok(x <= x && x >= x && x == x && !(x < x) && !(x > x), "A compared with itself");
}
static void all(const SI& a, const SI& b)
{
    switch (H::rng.in(0, 6))
    {
    case 0: pairs<std::string>("std::string", a, b); break;
    case 1: pairs<Item>("Item", a, b); break;
    case 2: pairs<Int>("Int", a, b); break;
    case 3: pairs<LS>("List", a, b); break;
    case 4: pairs<Rev>("reverse order", a, b); break;
    default: pairs<int>("int", a, b);
    }
}
static SI bits(int n)
{
    SI s;
    for (int i = 0; i < 5; ++i)
        if (n >> i & 1)
            s.insert(i);
    return s;
}
HARNESS_MAIN(
    for (int a = 0; a < 32; ++a) for (int b = 0; b < 32; ++b) if (H::mine()) { pairs<int>("int", bits(a), bits(b)); all(bits(a), bits(b)); }
    while (H::more()) {
        int m = H::rng.p(10) ? 300 : 15;
        SI a = any_set(m), b = H::rng.p(50) ? any_set(m) : a;
        for (int n = H::rng.in(0, 3); n > 0 && !b.empty(); --n)
            if (H::rng.p(50)) b.erase(std::next(b.begin(), H::rng.in(0, int(b.size()) - 1)));
            else b.insert(any_key(m));
        if (H::rng.p(50)) std::swap(a, b);
        all(a, b);
    })
