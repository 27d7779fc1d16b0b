// variants: 2
#if VARIANT == 1
#define _GLIBCXX_DEBUG 1 // checked iterators
#undef VARIANT
#define VARIANT 0
#endif
// Every public operation with extreme and random arguments under ASan, UBSan and the library's assertions: it completes
// or throws std::runtime_error, and nothing else happens.
#include "assoc.hpp"
#include "fracs.hpp"
#include "ints.hpp"
using pyincpp::Complex;
template <class F>
static void go(F f)
{
    try
    {
        f();
    }
    catch (const std::runtime_error&)
    {
        ++H::expected_throws;
    }
    catch (const std::exception& e)
    {
        H::die(std::string("threw ") + e.what() + ", which is not a std::runtime_error");
    }
}
// an index or count: near the ends of the container, or anywhere in int
static int ix(int n) { return any_ix(n); }
// a count for an operation whose result has size * count elements
static int times(int n) { int k = H::rng.p(60) ? H::rng.in(-3, 5) : H::any_int(); return k > 30000 / (n + 1) && (n == 0 || (long long)k * n <= INT_MAX) ? H::rng.in(0, 3) : k; }
static double dbl()
{
    static const double v[] = {0.0, -0.0, 1.0, -1.0, 0.5, 1e300, -1e300, 1e-300, 5e-324, 1.7976931348623157e308, INFINITY, -INFINITY, NAN, 2147483647.0, -2147483648.0, 4294967296.5, 3.141592653589793};
    return H::rng.p(50) ? v[H::rng.next() % (sizeof v / sizeof *v)] : H::any_int() / 3.0;
}

static void ints()
{
    Z za = any_z(H::rng.p(10) ? 300 : 25), zb = any_rel(za, H::rng.p(10) ? 300 : 25);
    int f = H::rng.in(0, 31), k = H::any_int();
    H::at("Int operation", f, za.str(), zb.str(), k);
    Int a = mk(za), b = mk(zb), small(H::rng.in(-5, 300));
    go([&] {
        switch (f)
        {
        case 0: a += b, a += a; break;
        case 1: a -= b, a -= a; break;
        case 2: a *= b, b *= b; break;
        case 3: a /= b; break;
        case 4: a %= b; break;
        case 5: a /= a; break;
        case 6: a %= a; break;
        case 7: ++a, --b, --b; break;
        case 8: (void)(a + b), (void)(a - b), (void)(a * b), (void)-a, (void)+a, (void)a.abs(); break;
        case 9: (void)(a / b), (void)(b / a); break;
        case 10: (void)(a % b), (void)(b % a); break;
        case 11: (void)small.factorial(); break;
        case 12: (void)Int(k % 20000).next_prime(); break;
        case 13: if (zabs(za) <= INT_MAX) (void)a.to_integer<int>(); break;
        case 14: if (zabs(za) <= LLONG_MAX) (void)a.to_integer<long long>(); break;
        case 15: if (za >= 0) (void)(a % 256).to_integer<unsigned char>(); break;
        case 16: (void)Int::sqrt(a); break;
        case 17: (void)Int::pow(a, small % 20, b); break;
        case 18: if (k && (a.digits() < 40 && b.digits() < 40 || b.is_negative())) (void)Int::pow(a, b, Int(k)); break;
        case 19: (void)Int::pow(a, small % 12); break;
        case 20: (void)Int::log(a, b); break;
        case 21: (void)Int::log(a, small); break;
        case 22: (void)Int::gcd(a, b); break;
        case 23: (void)Int::lcm(a, b); break;
        case 24: (void)Int::random(H::rng.p(50) ? H::rng.in(-3, 200) : H::rng.p(50) ? INT_MIN : -1); break;
        case 25: (void)H::text(a), (void)(a < b), (void)(a == b), (void)a.digits(), (void)a.is_even(), (void)a.is_odd(), (void)a.is_zero(); break;
        case 26: (void)Int(k % 3000000).is_prime(); break;
        case 27: (void)std::hash<Int>{}(a); break;
        case 28: { std::string t = H::rng.p(50) ? H::any_str(9) : za.str() + std::string(1, H::any_char()); (void)Int(t.c_str()); break; }
        case 29: { std::istringstream is(H::any_str(9)); is >> a; break; }
        case 30: { Int c(k); (void)H::text(c), (void)c.to_integer<int>(), --c; break; }
        default: (void)Int::pow(H::rng.p(50) ? Int(H::rng.in(-1, 1)) : Int(0), b, H::rng.p(50) ? Int(0) : a);
        }
    });
    (void)H::text(a), (void)H::text(b);
}
static void fracs()
{
    R r = any_r(), s = any_rel(r);
    int f = H::rng.in(0, 13);
    long long n = H::rng.p(50) ? (long long)H::any_int() * H::any_int() : H::rng.p(50) ? LLONG_MIN + H::rng.in(0, 1) : LLONG_MAX - H::rng.in(0, 1), d = H::rng.p(50) ? H::any_int() : H::rng.p(50) ? LLONG_MIN : -1;
    H::at("Fraction operation", f, r, s, n, d);
    Fraction a = mk(r), b = mk(s);
    go([&] {
        switch (f)
        {
        case 0: (void)Fraction(n, d); break;
        case 1: a += b; break;
        case 2: a -= b; break;
        case 3: a *= b; break;
        case 4: a /= b; break;
        case 5: a %= b; break;
        case 6: ++a, --b, --b; break;
        case 7: (void)-a, (void)a.abs(), (void)+a; break;
        case 8: (void)Fraction::gcd(a, b); break;
        case 9: (void)Fraction::lcm(a, b); break;
        case 10: (void)(a < b), (void)(a == b), (void)std::hash<Fraction>{}(a), (void)double(a); break;
        case 11: (void)H::text(a), (void)a.numerator(), (void)a.denominator(); break;
        case 12: a += a, b -= b; break;
        default: { std::istringstream is(H::rng.p(50) ? H::text(a) + H::any_str(3) : H::any_str(8)); is >> a; }
        }
    });
    (void)H::text(a), (void)H::text(b);
}
static void complexes()
{
    double p = dbl(), q = dbl(), r = dbl(), s = dbl();
    int f = H::rng.in(0, 9);
    H::at("Complex operation", f, p, q, r, s);
    go([&] {
        Complex a(p, q), b(r, s);
        switch (f)
        {
        case 0: a += b; break;
        case 1: a -= b; break;
        case 2: a *= b; break;
        case 3: a /= b; break;
        case 4: (void)-a, (void)+a, (void)a.conjugate(), (void)a.abs(), (void)a.arg(); break;
        case 5: (void)Complex::pow(a, b); break;
        case 6: (void)(a == b), (void)std::hash<Complex>{}(a); break;
        case 7: (void)H::text(a), (void)a.real(), (void)a.imag(); break;
        case 8: a /= a, b *= b; break;
        default: { std::istringstream is(H::rng.p(50) ? H::text(a) + H::any_str(3) : H::any_str(8)); is >> a; }
        }
    });
}
template <class L>
static void walk(const L& l)
{
    int n = 0;
    for (auto it = l.begin(); it != l.end(); ++it, ++n)
        (void)(*it == *l.begin());
    H::eq(l.size(), n, "size()");
}
template <class T>
static T el() { return make<T>(H::rng.in(0, 3)); }
template <class T>
static void lists()
{
    List<T> l, m;
    int n = H::any_size(H::rng.p(5) ? 200 : 7), f = H::rng.in(0, 23);
    for (int i = 0; i < n; ++i)
        l += el<T>();
    for (int i = H::rng.in(0, 4); i > 0; --i)
        m += el<T>();
    int i = ix(n), j = ix(n), k = H::rng.p(70) ? ix(n) : H::rng.in(-2, 2), t = times(n);
    T e = el<T>();
    H::at("List operation", f, n, i, j, k, t);
    go([&] {
        switch (f)
        {
        case 0: (void)l[i], l[i] = e; break;
        case 1: l.insert(i, e); break;
        case 2: l.insert(i, l[j]); break;
        case 3: (void)l.remove(i); break;
        case 4: l += l[i]; break;
        case 5: l += l; break;
        case 6: l -= l[i]; break;
        case 7: l *= t; break;
        case 8: l /= l[i]; break;
        case 9: l >>= i; break;
        case 10: l <<= i; break;
        case 11: l.erase(i, j); break;
        case 12: (void)l.slice(i, j, k); break;
        case 13: (void)l.index(e, i, j); break;
        case 14: (void)l.contains(e, i, j), (void)l.count(e), (void)l.find(e); break;
        case 15: (void)(l * t); break;
        case 16: (void)(l + m), (void)(l - e), (void)(l / e), (void)(l + e); break;
        case 17: l.reverse(), l.uniquify(), l.sort(); break;
        case 18: l.filter([&](const T& x) { return x == e; }); break;
        case 19: l.extend(m.begin(), m.end()); break;
        case 20: l.clear(), (void)l.is_empty(), l.reverse(), l >>= i, l <<= j, l.uniquify(), l.sort(), (void)l.slice(i, j, k); break;
        case 21: (void)(l < m), (void)(l == m), (void)H::text(l); break;
        case 22: { const List<T>& c = l; (void)c[i]; break; }
        default: l.map([&](T& x) { x = e; }); (void)l.rbegin(), (void)l.rend();
        }
    });
    walk(l);
}
template <class T>
static void deques()
{
    Deque<T> d, c;
    int n = H::any_size(H::rng.p(5) ? 200 : 7), f = H::rng.in(0, 13);
    for (int i = 0; i < n; ++i)
        H::rng.p(50) ? d.push_back(el<T>()) : d.push_front(el<T>());
    int i = ix(n), j = ix(n);
    T e = el<T>();
    H::at("Deque operation", f, n, i, j);
    go([&] {
        switch (f)
        {
        case 0: (void)d[i], d[i] = e; break;
        case 1: d.push_back(d[i]); break;
        case 2: d.push_front(d[i]); break;
        case 3: (void)d.pop_back(); break;
        case 4: (void)d.pop_front(); break;
        case 5: d >>= i; break;
        case 6: d <<= i; break;
        case 7: (void)d.front(), (void)d.back(); break;
        case 8: { const Deque<T>& q = d; (void)q.front(), (void)q.back(), (void)q[i]; break; }
        case 9: d.reverse(); break;
        case 10: d.clear(), d.reverse(), d >>= i, d <<= j; break;
        case 11: d.extend_back(c.begin(), c.end()), d.extend_front(c.begin(), c.end()); break;
        case 12: (void)(d == c), (void)(d < c), (void)H::text(d); break;
        default: while (true) H::rng.p(50) ? d.pop_back() : d.pop_front();
        }
    });
    walk(d);
}
template <class T>
static void assocs()
{
    SI a = any_set(7), b = any_set(7);
    int f = H::rng.in(0, 19), k = any_key(9);
    H::at("Set or Dict operation", f, a, b, k);
    Set<T> s = mks<T>(a), t = mks<T>(b);
    Dict<T, std::string> d, g;
    for (int x : a)
        d.add(make<T>(x), std::to_string(x));
    T e = make<T>(k);
    go([&] {
        switch (f)
        {
        case 0: s &= t; break;
        case 1: s |= t; break;
        case 2: s -= t; break;
        case 3: s ^= t; break;
        case 4: s &= s, s |= s; break;
        case 5: s ^= s; break;
        case 6: s -= s; break;
        case 7: (void)s.min(), (void)s.max(); break;
        case 8: (void)s.pop(); break;
        case 9: s.add(e), s.remove(e), s.remove(e), (void)s.contains(e), (void)s.find(e); break;
        case 10: if (!s.is_empty()) s.remove(*s.begin()); if (!s.is_empty()) s.add(*s.begin()); break;
        case 11: (void)(s & t), (void)(s | t), (void)(s - t), (void)(s ^ t); break;
        case 12: (void)(s < t), (void)(s <= t), (void)(s > t), (void)(s >= t), (void)(s == t), (void)H::text(s); break;
        case 13: while (true) s.pop(); break;
        case 14: (void)d[e]; break;
        case 15: { const auto& c = d; (void)c[e]; break; }
        case 16: (void)d.get(e, "none"), (void)d.keys(), (void)d.values(), (void)d.items(), (void)H::text(d); break;
        case 17: (void)d.min(), (void)d.max(); break;
        case 18: if (!d.is_empty()) d.remove(d.begin()->first); (void)d.add(e, "x"), (void)d.remove(e), (void)d.contains(e), (void)(d == g); break;
        default: while (true) d.pop();
        }
    });
    for (auto it = s.begin(); it != s.end(); ++it)
        (void)(*it == e);
    for (auto it = d.rbegin(); it != d.rend(); ++it)
        (void)it->second.size();
}
static void strs()
{
    std::string p = H::any_str(H::rng.p(5) ? 200 : 9), q = H::rng.p(40) ? p.substr(p.size() / 2) : H::any_str(3), w = H::any_str(5);
    int n = int(p.size()), i = ix(n), j = ix(n), k = H::rng.p(70) ? ix(n) : H::rng.in(-2, 2), f = H::rng.in(0, 23), t = times(n);
    char c = H::any_char();
    H::at("Str operation", f, p, q, w, i, j, k, t);
    Str s(p), o(q), r(w);
    go([&] {
        switch (f)
        {
        case 0: (void)s[i]; break;
        case 1: (void)s.find(o, i, j), (void)s.contains(o, i, j); break;
        case 2: (void)s.count(o); break;
        case 3: (void)s.to_decimal(); break;
        case 4: (void)s.to_integer(H::rng.p(50) ? H::rng.in(0, 38) : i); break;
        case 5: (void)s.starts_with(o), (void)s.ends_with(o); break;
        case 6: (void)(s >> i); break;
        case 7: (void)(s << i); break;
        case 8: (void)s.reverse(), (void)s.lower(), (void)s.upper(); break;
        case 9: (void)s.erase(i, j); break;
        case 10: (void)s.replace(o, r); break;
        case 11: (void)s.strip(), (void)s.strip((signed char)c); break;
        case 12: (void)s.slice(i, j, k); break;
        case 13: (void)(s * t); break;
        case 14: (void)(s + o), (void)(s + c); break;
        case 15: (void)s.split(o, H::rng.p(50)); break;
        case 16: (void)s.join(List<Str>{o, r, s}); break;
        case 17: (void)s.format(i, o, q); break;
        case 18: (void)s.format(), (void)s.format(1.5); break;
        case 19: (void)(s < o), (void)(s == o), (void)H::text(s), (void)std::hash<Str>{}(s); break;
        case 20: { std::istringstream is(q); is >> s; break; }
        case 21: (void)Str().slice(i, j, k), (void)Str().find(Str(), i, j), (void)Str().split(), (void)Str().reverse(), (void)(Str() >> i), (void)(Str() << i), (void)Str().strip(); break;
        case 22: (void)s.replace(s, s), (void)s.split(s), (void)s.join(List<Str>()), (void)s.count(s), (void)s.find(s); break;
        default: { std::string num = (H::rng.p(50) ? "-" : "") + std::to_string(H::any_int()) + (H::rng.p(30) ? "." : "") + (H::rng.p(30) ? "e" + std::to_string(H::any_int()) : "") + (H::rng.p(20) ? w : ""); (void)Str(num).to_decimal(), (void)Str(num).to_integer(10); }
        }
    });
    (void)rds(s);
}
HARNESS_MAIN(
    while (H::more()) {
        switch (H::rng.in(0, 11))
        {
        case 0: case 1: ints(); break;
        case 2: fracs(); break;
        case 3: complexes(); break;
        case 4: lists<std::string>(); break;
        case 5: lists<Int>(); break;
        case 6: deques<std::string>(); break;
        case 7: deques<Str>(); break;
        case 8: assocs<std::string>(); break;
        case 9: assocs<Int>(); break;
        default: strs();
        }
    })
