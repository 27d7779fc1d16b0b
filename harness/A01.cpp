// Copies, moves, assignments and the operands of operations, by histories over several objects of one type.
#include "assoc.hpp"
#include "fracs.hpp"
#include "ints.hpp"
using pyincpp::Complex;

// the complete observable value of an object
template <class T>
static std::string look(const T& x) { return H::text(x); }
static std::string look(const Int& x) { return H::text(x) + " " + std::to_string(x.digits()) + (x.is_negative() ? "-" : x.is_positive() ? "+" : "0"); }
static std::string look(const Complex& x) { char b[99]; snprintf(b, 99, "%.17g %.17g", x.real() + 0.0, x.imag() + 0.0); return b; }
template <class T>
static std::string look(const List<T>& x) { std::string r = std::to_string(x.size()); for (auto it = x.begin(); it != x.end(); ++it) r += "," + look(*it); return r; }
template <class T>
static std::string look(const Deque<T>& x) { std::string r = std::to_string(x.size()); for (auto it = x.begin(); it != x.end(); ++it) r += "," + look(*it); return r; }
template <class T>
static std::string look(const Set<T>& x) { std::string r = std::to_string(x.size()); for (auto it = x.begin(); it != x.end(); ++it) r += "," + look(*it); return r; }
template <class K, class W>
static std::string look(const Dict<K, W>& x) { std::string r = std::to_string(x.size()); for (auto it = x.begin(); it != x.end(); ++it) r += "," + look(it->first) + ":" + look(it->second); return r; }

template <class T> struct Kit;
template <class F>
static void maybe(F f) { try { f(); } catch (const std::runtime_error&) {} }
template <> struct Kit<Int>
{
    static constexpr bool zero = true;
    static Int any() { return mk(any_z(H::rng.p(20) ? 60 : 12)); }
    static void change(Int& x, const Int& y)
    {
        switch (H::rng.in(0, 8)) { case 0: x += y; break; case 1: x -= y; break; case 2: x *= y; break; case 3: maybe([&] { x /= y; }); break; case 4: maybe([&] { x %= y; }); break;
        case 5: ++x; break; case 6: --x; break; case 7: x = -y; break; default: x = x + y; }
        if (x.digits() > 120) x = Int(7);
    }
    static void use(const Int& a, const Int& b)
    {
        switch (H::rng.in(0, 12)) { case 0: (void)(a + b); break; case 1: (void)(a - b); break; case 2: (void)(a * b); break; case 3: maybe([&] { (void)(a / b); }); break; case 4: maybe([&] { (void)(a % b); }); break;
        case 5: (void)(-a), (void)(+a), (void)a.abs(); break; case 6: maybe([&] { (void)Int::gcd(a, b); }); break; case 7: maybe([&] { (void)Int::lcm(a, b); }); break; case 8: maybe([&] { (void)Int::sqrt(a); }); break;
        case 9: (void)(a < b), (void)(a == b), (void)a.is_even(), (void)a.is_odd(); break; case 10: maybe([&] { (void)a.to_integer<int>(); }); break; case 11: (void)std::hash<Int>{}(a); break;
        default: maybe([&] { (void)Int::pow(a, Int(H::rng.in(-2, 5)), b); }); }
    }
};
template <> struct Kit<Fraction>
{
    static constexpr bool zero = true;
    static Fraction any() { return Fraction(H::rng.in(-50, 50), H::rng.in(1, 40)); }
    static void change(Fraction& x, const Fraction& y)
    {
        if (std::abs(x.numerator()) > 5000 || x.denominator() > 5000) x = any();
        switch (H::rng.in(0, 6)) { case 0: x += y; break; case 1: x -= y; break; case 2: x *= y; break; case 3: maybe([&] { x /= y; }); break; case 4: maybe([&] { x %= y; }); break; case 5: ++x; break; default: --x; }
        if (std::abs(x.numerator()) > 5000 || x.denominator() > 5000) x = any();
    }
    static void use(const Fraction& a, const Fraction& b)
    {
        switch (H::rng.in(0, 7)) { case 0: (void)(a + b); break; case 1: (void)(a - b); break; case 2: (void)(a * b); break; case 3: maybe([&] { (void)(a / b); }); break; case 4: maybe([&] { (void)(a % b); }); break;
        case 5: (void)(-a), (void)a.abs(), (void)double(a); break; case 6: maybe([&] { (void)Fraction::gcd(a, b), (void)Fraction::lcm(a, b); }); break; default: (void)(a < b), (void)(a == b), (void)std::hash<Fraction>{}(a); }
    }
};
template <> struct Kit<Complex>
{
    static constexpr bool zero = true;
    static Complex any() { return Complex(H::rng.in(-20, 20) / 4.0, H::rng.in(-20, 20) / 4.0); }
    static void change(Complex& x, const Complex& y)
    {
        switch (H::rng.in(0, 4)) { case 0: x += y; break; case 1: x -= y; break; case 2: x *= y; break; case 3: maybe([&] { x /= y; }); break; default: x = x.conjugate(); }
        if (!(x.abs() < 1e9)) x = any();
    }
    static void use(const Complex& a, const Complex& b)
    {
        switch (H::rng.in(0, 6)) { case 0: (void)(a + b); break; case 1: (void)(a - b); break; case 2: (void)(a * b); break; case 3: maybe([&] { (void)(a / b); }); break; case 4: (void)(-a), (void)a.conjugate(), (void)a.abs(), (void)a.arg(); break;
        case 5: maybe([&] { (void)Complex::pow(a, b); }); break; default: (void)(a == b), (void)std::hash<Complex>{}(a); }
    }
};
template <> struct Kit<Str>
{
    static constexpr bool zero = false;
    static Str any() { return Str(H::any_str(H::rng.p(20) ? 60 : 6)); }
    static void change(Str& x, const Str& y)
    {
        switch (H::rng.in(0, 4)) { case 0: x = x + y; break; case 1: x = y; break; case 2: x = x.reverse(); break; case 3: { std::istringstream is("word and more"); is >> x; break; } default: x = x + 'z'; }
        if (x.size() > 200) x = Str("short");
    }
    static void use(const Str& a, const Str& b)
    {
        int i = H::rng.in(-9, 9), j = H::rng.in(-9, 9);
        switch (H::rng.in(0, 12)) { case 0: (void)(a + b), (void)(a + 'x'); break; case 1: (void)a.reverse(), (void)a.lower(), (void)a.upper(); break; case 2: maybe([&] { (void)a.erase(i, j); }); break; case 3: maybe([&] { (void)a.replace(b, a); }); break;
        case 4: (void)a.strip(); break; case 5: maybe([&] { (void)a.slice(i, j, H::rng.in(-3, 3)); }); break; case 6: maybe([&] { (void)(a * (i & 3)); }); break; case 7: maybe([&] { (void)a.split(b, i > 0); }); break; case 8: (void)a.join(List<Str>{a, b}); break;
        case 9: (void)(a >> i), (void)(a << j); break; case 10: maybe([&] { (void)a.format(b, a, i); }); break; case 11: (void)a.find(b, i, j), (void)a.count(b), (void)a.starts_with(b), (void)a.ends_with(b); break;
        default: maybe([&] { (void)a.to_decimal(); }); maybe([&] { (void)a.to_integer(); }); (void)std::hash<Str>{}(a); }
    }
};
template <class T> struct Kit<List<T>>
{
    static constexpr bool zero = false;
    static List<T> any() { List<T> l; for (int n = H::any_size(H::rng.p(10) ? 40 : 6); n > 0; --n) l += make<T>(H::rng.in(0, 4)); return l; }
    static void change(List<T>& x, const List<T>& y)
    {
        T e = make<T>(H::rng.in(0, 4));
        int i = H::rng.in(-3, 8), n = x.size();
        switch (H::rng.in(0, 13)) { case 0: x += e; break; case 1: x += y; break; case 2: x -= e; break; case 3: maybe([&] { x.insert(i, e); }); break; case 4: maybe([&] { x.remove(i); }); break; case 5: x.reverse(); break; case 6: x.uniquify(); break; case 7: x.sort(); break;
        case 8: maybe([&] { x.erase(i, n); }); break; case 9: x.clear(); break; case 10: maybe([&] { x[i] = e; }); break; case 11: x >>= i; break; case 12: x <<= i; break; default: if (n < 20) x *= 2; }
        if (x.size() > 100) x = any();
    }
    static void use(const List<T>& a, const List<T>& b)
    {
        T e = make<T>(H::rng.in(0, 4));
        int i = H::rng.in(-9, 9);
        switch (H::rng.in(0, 7)) { case 0: (void)(a + b), (void)(a + e); break; case 1: (void)(a - e); break; case 2: maybe([&] { (void)(a * (i & 3)); }); break; case 3: (void)(a / e); break; case 4: maybe([&] { (void)a.slice(i, 3, H::rng.in(-2, 2)); }); break;
        case 5: (void)a.index(e), (void)a.count(e), (void)a.find(e); break; case 6: maybe([&] { (void)a[i]; }); break; default: (void)(a == b), (void)(a < b); }
    }
};
template <class T> struct Kit<Deque<T>>
{
    static constexpr bool zero = false;
    static Deque<T> any() { Deque<T> l; for (int n = H::any_size(H::rng.p(10) ? 40 : 6); n > 0; --n) H::rng.p(50) ? l.push_back(make<T>(H::rng.in(0, 4))) : l.push_front(make<T>(H::rng.in(0, 4))); return l; }
    static void change(Deque<T>& x, const Deque<T>& y)
    {
        T e = make<T>(H::rng.in(0, 4));
        int i = H::rng.in(-3, 8);
        switch (H::rng.in(0, 9)) { case 0: x.push_back(e); break; case 1: x.push_front(e); break; case 2: maybe([&] { x.pop_back(); }); break; case 3: maybe([&] { x.pop_front(); }); break; case 4: x.reverse(); break; case 5: x >>= i; break; case 6: x <<= i; break; case 7: x.clear(); break;
        case 8: maybe([&] { x[i] = e; }); break; default: { Deque<T> z(y); x.extend_back(z.begin(), z.end()); } }
        if (x.size() > 100) x = any();
    }
    static void use(const Deque<T>& a, const Deque<T>& b)
    {
        int i = H::rng.in(-9, 9);
        maybe([&] { (void)a[i]; }), maybe([&] { (void)a.front(), (void)a.back(); }), (void)(a == b), (void)(a < b);
    }
};
template <class T> struct Kit<Set<T>>
{
    static constexpr bool zero = false;
    static Set<T> any() { return mks<T>(any_set(8)); }
    static void change(Set<T>& x, const Set<T>& y)
    {
        T e = make<T>(H::rng.in(0, 9));
        switch (H::rng.in(0, 7)) { case 0: x.add(e); break; case 1: x.remove(e); break; case 2: maybe([&] { x.pop(); }); break; case 3: x &= y; break; case 4: x |= y; break; case 5: x -= y; break; case 6: x ^= y; break; default: x.clear(); }
    }
    static void use(const Set<T>& a, const Set<T>& b)
    {
        switch (H::rng.in(0, 3)) { case 0: (void)(a & b), (void)(a | b); break; case 1: (void)(a - b), (void)(a ^ b); break; case 2: maybe([&] { (void)a.min(), (void)a.max(); }); break; default: (void)(a < b), (void)(a <= b), (void)(a > b), (void)(a >= b), (void)(a == b); }
    }
};
template <class K, class W> struct Kit<Dict<K, W>>
{
    static constexpr bool zero = false;
    static Dict<K, W> any() { Dict<K, W> d; for (int n = H::any_size(8); n > 0; --n) d.add(make<K>(H::rng.in(0, 9)), make<W>(H::rng.in(0, 9))); return d; }
    static void change(Dict<K, W>& x, const Dict<K, W>& y)
    {
        K k = make<K>(H::rng.in(0, 9));
        W v = make<W>(H::rng.in(0, 9));
        switch (H::rng.in(0, 5)) { case 0: x.add(k, v); break; case 1: x.remove(k); break; case 2: maybe([&] { x.pop(); }); break; case 3: maybe([&] { x[k] = v; }); break; case 4: for (auto& p : y) x.add(p.first, p.second); break; default: x.clear(); }
    }
    static void use(const Dict<K, W>& a, const Dict<K, W>& b)
    {
        K k = make<K>(H::rng.in(0, 9));
        W v = make<W>(H::rng.in(0, 9));
        switch (H::rng.in(0, 3)) { case 0: (void)a.keys(), (void)a.values(), (void)a.items(); break; case 1: (void)a.get(k, v), (void)a.contains(k), (void)a.find(k); break; case 2: maybe([&] { (void)a[k], (void)a.min(), (void)a.max(); }); break; default: (void)(a == b); }
    }
};
template <class T> struct Kit<Tuple<T, T, int>>
{
    static constexpr bool zero = false;
    using X = Tuple<T, T, int>;
    static X any() { return X(make<T>(H::rng.in(0, 9)), make<T>(H::rng.in(0, 9)), H::rng.in(0, 9)); }
    static void change(X& x, const X& y) { x = H::rng.p(50) ? y : any(); }
    static void use(const X& a, const X& b) { (void)(a == b), (void)(a != b), (void)a.template get<1>(), (void)a.rest(), (void)a.size(); }
};

// a history over n objects: the value of every object is known after every step
template <class T>
static void history(const char* name)
{
    const int n = 4;
    std::vector<T> x;
    for (int i = 0; i < n; ++i)
        x.push_back(Kit<T>::any());
    std::string zero, log;
    if constexpr (Kit<T>::zero) zero = look(T());
    auto all = [&] { std::vector<std::string> r; for (auto& a : x) r.push_back(look(a)); return r; };
    auto was = all();
    H::at("objects of", name, was);
    for (int step = 0; step < 12; ++step)
    {
        int i = H::rng.in(0, n - 1), j = H::rng.in(0, n - 1), how = H::rng.in(0, 7);
        log += " " + std::to_string(how) + ":" + std::to_string(i) + "," + std::to_string(j);
        auto want = was;
        switch (how)
        {
        case 0:
            x[i] = x[j], want[i] = was[j];
            break;
        case 1:
            if (i == j) continue;
            x[i] = std::move(x[j]);
            want[i] = was[j];
            if constexpr (Kit<T>::zero) want[j] = zero;
            else x[j] = Kit<T>::any(), want[j] = look(x[j]);
            break;
        case 2:
        {
            T t(std::move(x[j]));
            H::eq(look(t), was[j], "a move-constructed object");
            if constexpr (Kit<T>::zero) { H::eq(look(x[j]), zero, "a moved-from object"); Kit<T>::change(x[j], t); }
            x[j] = t;
            H::eq(look(x[j]), was[j], "a moved-from object, assigned again");
            break;
        }
        case 3:
        {
            T t(x[j]);
            H::eq(look(t), was[j], "a copy");
            Kit<T>::change(t, x[i]);
            std::string now = look(t);
            H::eq(all(), was, "the objects after a change of a copy");
            Kit<T>::change(x[j], x[i]);
            want[j] = look(x[j]);
            H::eq(look(t), now, "a copy after a change of the original");
            break;
        }
        case 4:
            Kit<T>::change(x[i], x[j]);
            want[i] = look(x[i]);
            break;
        case 5:
        {
            auto& r = (x[i] = x[i]);
            H::ok(&r == &x[i], "= does not return the object");
            break;
        }
        default:
            Kit<T>::use(x[i], x[j]);
        }
        if (all() != want)
            H::die("after the steps" + log + ": got " + H::show(all()) + ", expected " + H::show(want));
        was = want;
    }
}
HARNESS_MAIN(
    while (H::more()) {
        switch (H::rng.in(0, 13))
        {
        case 0: case 1: history<Int>("Int"); break;
        case 2: history<Fraction>("Fraction"); break;
        case 3: history<Complex>("Complex"); break;
        case 4: case 5: history<Str>("Str"); break;
        case 6: history<List<std::string>>("List of std::string"); break;
        case 7: history<List<Int>>("List of Int"); break;
        case 8: history<Deque<std::string>>("Deque of std::string"); break;
        case 9: history<Deque<Str>>("Deque of Str"); break;
        case 10: history<Set<std::string>>("Set of std::string"); break;
        case 11: history<Dict<std::string, Int>>("Dict of std::string, Int"); break;
        case 12: history<Tuple<Str, Str, int>>("Tuple of Str, Str, int"); break;
        default: history<List<List<std::string>>>("List of List of std::string");
        }
    })
