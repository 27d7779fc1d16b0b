// a == b implies std::hash(a) == std::hash(b), however a and b were produced; unordered containers work.
#include "ints.hpp"
#include "fracs.hpp"
#include <unordered_map>
using pyincpp::Complex;
using pyincpp::Str;
template <class T>
static std::size_t h(const T& x)
{
    return std::hash<T>{}(x);
}
// the same integer, produced differently
static Int produced(const Z& z)
{
    Int r;
    switch (H::rng.in(0, 11))
    {
    case 0: r = mk(z - 1); observed(r); ++r; return r;
    case 1: r = mk(z + 1); observed(r); --r; return r;
    case 2: { Z d = any_z(); r = mk(z + d); observed(r); r -= mk(d); return r; }
    case 3: { Z d = any_z(); r = mk(z - d); r += mk(d); return r; }
    case 4: { Z d = any_z(20); if (d == 0) d = 3; r = mk(z * d); r /= mk(d); return r; }
    case 5: return mk(z * z) / (z == 0 ? Int(1) : mk(z));
    case 6: return -mk(-z);
    case 7: { r = mk(any_z()); observed(r); r = mk(z); return r; }
    case 8: { Int t = mk(z); observed(t); r = std::move(t); return r; }
    case 9: { Z d = zabs(z) + 1 + zabs(any_len(30)); return z < 0 ? mk(z - d) % mk(d) : mk(z + d) % mk(d); }
    case 10: return mk(z, H::rng.in(1, 3));
    default: r = mk(z); r *= Int(1); r += Int(0); return r;
    }
}
static void integers()
{
    Z z = H::rng.p(15) ? Z(0) : any_z(H::rng.p(5) ? 2000 : 60);
    Z y = H::rng.p(50) ? z : any_rel(z);
    H::at("Int", z, y);
    Int a = produced(z), b = produced(y);
    H::eq(a == b, z == y, "==");
    if (a == b)
        H::eq(h(a), h(b), "std::hash of equal integers");
    H::eq(h(a), h(a), "std::hash of the same object");
    std::unordered_set<Int> s{a, b};
    H::eq(s.size(), std::size_t(z == y ? 1 : 2), "size of an unordered_set of the two");
    H::ok(s.count(mk(z)) == 1 && s.count(mk(y)) == 1, "unordered_set lookup fails");
}
static void fractions()
{
    R r = any_r(), q = H::rng.p(50) ? r : any_rel(r);
    H::at("Fraction", r, q);
    Fraction a = mk(r), b = mk(q);
    if (H::rng.p(50) && r.n != 0) // (1/r)'s inverse
        a = Fraction(1) / (r.n == INT_MIN || r.n == 0 ? a : a), a = r.n == INT_MIN ? mk(r) : Fraction(1) / a;
    if (H::rng.p(30))
        b -= Fraction(0), b *= Fraction(1);
    H::eq(a == b, r == q, "==");
    if (a == b)
        H::eq(h(a), h(b), "std::hash of equal fractions");
    std::unordered_set<Fraction> s{a, b};
    H::eq(s.size(), std::size_t(r == q ? 1 : 2), "size of an unordered_set of the two");
}
static void strings()
{
    std::string s = H::any_str(60), t = H::rng.p(60) ? s : H::any_str(60);
    if (H::rng.p(20) && !t.empty())
        t[H::rng.next() % t.size()] ^= 1;
    H::at("Str", s, t);
    Str a(s), b;
    if (H::rng.p(50))
        (void)h(a), (void)h(b);
    switch (H::rng.in(0, t.find('\n') == t.npos ? 6 : 4))
    {
    case 5: { std::istringstream is(t + "\n"); is >> b; break; }
    case 6: { std::istringstream is("first\n" + t + "\n"); Str e; is >> e; (void)h(e); is >> e; b = e; break; }
    case 0: { std::size_t k = H::rng.next() % (t.size() + 1); b = Str(t.substr(0, k)) + Str(t.substr(k)); break; }
    case 1: { Str e(t + "xyz"); b = e.slice(0, int(t.size())); break; }
    case 2: { std::string w = t; w.reserve(1000); b = Str(w); break; }
    case 3: { Str e(std::string(400, 'q')); (void)h(e); e = Str(t); b = e; break; }
    default: b = Str(t);
    }
    H::eq(a == b, s == t, "==");
    if (a == b)
        H::eq(h(a), h(b), "std::hash of equal strings");
    H::eq(a == b, s == t, "== after hashing");
    std::unordered_set<Str> u{a, b};
    H::ok(u.count(Str(s)) == 1 && u.count(Str(t)) == 1, "unordered_set lookup fails");
    H::eq(u.size(), std::size_t(s == t ? 1 : 2), "size of an unordered_set of the two");
}
static double part()
{
    switch (H::rng.in(0, 6))
    {
    case 0: return 0.0;
    case 1: return -0.0;
    case 2: return H::rng.in(-5, 5);
    case 3: return H::rng.in(-50, 50) / 10.0;
    case 4: return std::ldexp((double)H::any_int(), H::rng.in(-60, 200));
    default: return H::any_int() / 3.0;
    }
}
static double near(double d)
{
    int k = H::rng.in(0, 5);
    if (k < 3) return d;
    if (k == 3) return d == 0 ? -d : d;
    return std::nextafter(d, k == 4 ? 1e300 : -1e300);
}
static void complexes()
{
    double r = part(), i = part(), p = near(r), q = near(i);
    H::at("Complex", r, i, p, q);
    Complex a(r, i), b(p, q);
    if (H::rng.p(30))
        b = b + Complex(0, 0);
    if (!(a == b) || h(a) == h(b))
        return;
    // == is tolerant (X01): equal numbers that are not the same are a known finding, everything else is not
    constexpr double eps = std::numeric_limits<double>::epsilon();
    bool identical = a.real() == b.real() && a.imag() == b.imag();
    if (!identical && std::abs(a.real() - b.real()) < eps && std::abs(a.imag() - b.imag()) < eps)
        H::finding(false, "complex-tolerant-hash", "Complex(" + H::show(r) + ", " + H::show(i) + ") == Complex(" + H::show(p) + ", " + H::show(q) + ") (== is tolerant) but their std::hash values differ");
    else
        H::die("std::hash of equal complex numbers differs");
}
HARNESS_MAIN(
    {
        H::at("Complex(0.1 + 0.2) and Complex(0.3)");
        Complex a(0.1 + 0.2);
        Complex b(0.3);
        H::finding(!(a == b) || h(a) == h(b), "complex-tolerant-hash", "Complex(0.1 + 0.2) == Complex(0.3) (== is tolerant) but their std::hash values differ");
    }
    while (H::more()) { integers(); integers(); fractions(); strings(); complexes(); })
