#include "fracs.hpp"
static void ctor(long long n, long long d)
{
    H::at("Fraction(n, d) with n =", n, "d =", d);
    if (d == 0) { H::throws([&] { Fraction f(n, d); }, "Fraction(n, 0)"); return; }
    is(H::calm([&] { return Fraction(n, d); }, "Fraction(n, d)"), red(n, d), "Fraction(n, d)");
    if (d == 1) is(Fraction(n), red(n, 1), "Fraction(n)");
}
template <class F, class G>
static void op(const R& a, const R& b, F f, G g, const R* want, const char* what)
{
    Fraction x = mk(a), y = mk(b), z = x;
    if (!want)
    {
        H::throws([&] { f(x, y); }, what);
        H::throws([&] { g(z, y); }, what);
        H::eq(val(z), a, "left operand after a throwing compound operator");
    }
    else
    {
        is(H::calm([&] { return f(x, y); }, what), *want, what);
        Fraction& r = g(z, y);
        H::ok(&r == &z, std::string(what) + "=: does not return the object");
        is(z, *want, what);
    }
    H::eq(val(x), a, "left operand afterwards");
    H::eq(val(y), b, "right operand afterwards");
    if (a == b && want)
    {
        Fraction s = mk(a);
        is(f(s, s), *want, what);
        g(s, s);
        is(s, *want, "compound with itself");
    }
}
static void all(const R& a, const R& b)
{
    H::at("a =", a, "b =", b);
    R s = red(a.n * b.d + b.n * a.d, a.d * b.d), d = red(a.n * b.d - b.n * a.d, a.d * b.d), m = red(a.n * b.n, a.d * b.d), q{}, r{};
    if (b.n) q = red(a.n * b.d, a.d * b.n), r = red((a.n * b.d) % (a.d * b.n), a.d * b.d);
    op(a, b, [](auto& x, auto& y) { return x + y; }, [](auto& x, auto& y) -> Fraction& { return x += y; }, &s, "+");
    op(a, b, [](auto& x, auto& y) { return x - y; }, [](auto& x, auto& y) -> Fraction& { return x -= y; }, &d, "-");
    op(a, b, [](auto& x, auto& y) { return x * y; }, [](auto& x, auto& y) -> Fraction& { return x *= y; }, &m, "*");
    op(a, b, [](auto& x, auto& y) { return x / y; }, [](auto& x, auto& y) -> Fraction& { return x /= y; }, b.n ? &q : nullptr, "/");
    op(a, b, [](auto& x, auto& y) { return x % y; }, [](auto& x, auto& y) -> Fraction& { return x %= y; }, b.n ? &r : nullptr, "%");
}
static void one(const R& a)
{
    H::at("a =", a);
    Fraction x = mk(a);
    is(+x, a, "+a");
    is(-x, red(-a.n, a.d), "-a");
    is(x.abs(), red(wabs(a.n), a.d), "abs");
    Fraction y = x;
    is(++y, red(a.n + a.d, a.d), "++a");
    y = x;
    is(--y, red(a.n - a.d, a.d), "--a");
    H::eq(val(x), a, "a afterwards");
    H::eq(double(x), double(a.n) / double(a.d), "double(a)");
}
HARNESS_MAIN(
    for (int n = -30; n <= 30; ++n) for (int d = -30; d <= 30; ++d) if (H::mine()) ctor(n, d);
    for (int n : H::ints()) for (int d : H::ints()) if (H::mine()) { ctor(n, d); ctor(1LL * n * d, 1LL * d * d); ctor(1LL * n * n, 1LL * n * d); }
    for (int n = -6; n <= 6; ++n) for (int d = 1; d <= 6; ++d) if (wgcd(n, d) == 1) { if (H::mine()) one({n, d}); for (int m = -6; m <= 6; ++m) for (int e = 1; e <= 6; ++e) if (wgcd(m, e) == 1 && H::mine()) all({n, d}, {m, e}); }
    while (H::more()) {
        R a = any_r(), b = H::rng.p(50) ? any_rel(a) : any_r();
        all(a, b);
        one(a);
        ctor((long long)H::rng.next() >> H::rng.in(1, 40), (long long)H::rng.next() >> H::rng.in(1, 40));
    })
