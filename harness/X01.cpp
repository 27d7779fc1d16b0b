// Complex arithmetic against long double.
#include "h.hpp"
#include "pyincpp.hpp"
#include <cmath>
#include <complex>
using pyincpp::Complex;
using LD = long double;
using LC = std::complex<LD>;
static const LD E = 2.220446049250313e-16L;
struct Z { double r, i; std::string str() const { return "(" + H::show(r) + ", " + H::show(i) + ")"; } };
static LC lc(const Z& z) { return {z.r, z.i}; }
static Complex mk(const Z& z) { return Complex(z.r, z.i); }
static bool same(const Complex& c, const Z& z) { return c.real() == z.r && c.imag() == z.i && std::signbit(c.real()) == std::signbit(z.r) && std::signbit(c.imag()) == std::signbit(z.i); }
static void near(const Complex& got, const LC& want, LD tol, const char* what)
{
    LD d = std::hypot((LD)got.real() - want.real(), (LD)got.imag() - want.imag());
    H::ok(d <= tol, std::string(what) + ": got " + H::show(Z{got.real(), got.imag()}) + ", expected about " + H::show(Z{(double)want.real(), (double)want.imag()}));
}
static double any_d()
{
    switch (H::rng.in(0, 9))
    {
    case 0: return 0;
    case 1: return H::rng.in(-5, 5);
    case 2: return H::rng.in(-5, 5) + 0.5;
    case 3: return H::any_int();
    case 4: return std::ldexp(1.0, H::rng.in(-200, 200)) * (H::rng.p(50) ? 1 : -1);
    case 5: return -0.0;
    case 6: return 1 + H::rng.in(-3, 3) * (double)E;
    case 7: return std::ldexp((double)(int)H::rng.next(), H::rng.in(-120, 60));
    default: return (int)H::rng.next() / 1048576.0;
    }
}
static Z any_z()
{
    Z z{any_d(), any_d()};
    if (H::rng.p(10)) z.i = z.r;
    if (H::rng.p(10)) z.i = -z.r;
    return z;
}
template <class F, class G>
static void op(const Z& a, const Z& b, F f, G g, LC want, LD tol, bool thr, bool either, const char* what)
{
    Complex x = mk(a), y = mk(b), z = x;
    if (thr)
    {
        H::throws([&] { f(x, y); }, what);
        H::throws([&] { g(z, y); }, what);
        H::ok(same(z, a), "left operand changed by a throwing compound operator");
        if (a.r == b.r && a.i == b.i) { H::throws([&] { g(z, z); }, what); H::ok(same(z, a), "object changed by a throwing compound operator with itself"); }
    }
    else
    {
        auto run = [&] {
            near(f(x, y), want, tol, what);
            Complex& r = g(z, y);
            H::ok(&r == &z, std::string(what) + "=: does not return the object");
            near(z, want, tol, (std::string(what) + "=").c_str());
            if (a.r == b.r && a.i == b.i)
            {
                Complex s = mk(a);
                near(f(s, s), want, tol, what);
                g(s, s);
                near(s, want, tol, "compound with itself");
            }
        };
        if (either) { try { run(); } catch (const std::runtime_error&) {} }
        else run();
    }
    H::ok(same(x, a) && same(y, b), "operand changed");
}
static bool tiny(const Z& z) { return std::abs(z.r) < 4 * E && std::abs(z.i) < 4 * E; }
static void all(const Z& a, const Z& b)
{
    H::at("a =", a, "b =", b);
    LD ma = std::abs(lc(a)), mb = std::abs(lc(b)), U = 1e-300L;
    bool zero = b.r == 0 && b.i == 0;
    op(a, b, [](auto& x, auto& y) { return x + y; }, [](auto& x, auto& y) -> Complex& { return x += y; }, lc(a) + lc(b), 4 * E * (ma + mb), false, false, "+");
    op(a, b, [](auto& x, auto& y) { return x - y; }, [](auto& x, auto& y) -> Complex& { return x -= y; }, lc(a) - lc(b), 4 * E * (ma + mb), false, false, "-");
    op(a, b, [](auto& x, auto& y) { return x * y; }, [](auto& x, auto& y) -> Complex& { return x *= y; }, lc(a) * lc(b), 16 * E * ma * mb + U, false, false, "*");
    op(a, b, [](auto& x, auto& y) { return x / y; }, [](auto& x, auto& y) -> Complex& { return x /= y; }, zero ? LC(0) : lc(a) / lc(b), zero ? 0 : 32 * E * ma / mb + U, zero, !zero && tiny(b), "/");
    Complex x = mk(a), y = mk(b);
    bool eq = a.r == b.r && a.i == b.i, far = std::abs(a.r - b.r) > 4 * E || std::abs(a.i - b.i) > 4 * E;
    if (eq) H::ok(x == y && !(x != y), "== of identical numbers");
    if (far) H::ok(!(x == y) && x != y, "== of different numbers");
}
static void one(const Z& a)
{
    H::at("a =", a);
    Complex x = mk(a);
    H::ok(x.real() == a.r && x.imag() == a.i, "real, imag");
    near(+x, lc(a), 0, "+a");
    near(-x, -lc(a), 0, "-a");
    near(x.conjugate(), std::conj(lc(a)), 0, "conjugate");
    LD m = std::abs(lc(a)), g = std::arg(lc(a));
    H::ok(std::abs(x.abs() - m) <= 4 * E * m, "abs");
    H::ok(std::abs(x.arg() - g) <= 8 * E * 4, "arg");
    near(Complex::pow(x, 0), LC(1), 0, "pow(z, 0)");
    H::ok(same(x, a), "operand changed");
}
static void powr(const Z& a, const Z& b)
{
    H::at("pow: z =", a, "w =", b);
    Complex x = mk(a), y = mk(b);
    if (b.r == 0 && b.i == 0) { near(H::calm([&] { return Complex::pow(x, y); }, "pow"), LC(1), 0, "pow(z, 0)"); return; }
    if (tiny(b)) return;
    if (a.r == 0 && a.i == 0) { H::throws([&] { Complex::pow(x, y); }, "pow(0, w)"); H::ok(same(x, a) && same(y, b), "operand changed"); return; }
    if (tiny(a)) return;
    LC L(std::log(std::abs(lc(a))), std::arg(lc(a)));
    LC e = lc(b) * L;
    if (std::abs(e.real()) > 600 || std::abs(e) > 1e6 || std::abs(lc(b)) > 1e9) return;
    // |z|^Re w and e^(-arg z Im w) must both be in range
    if (std::abs(b.r * std::log(std::abs(lc(a)))) > 600 || std::abs(b.i * std::arg(lc(a))) > 600) return;
    LC want = std::exp(e);
    LD c = (std::abs(b.r) + std::abs(b.i)) * (std::abs(L.real()) + std::abs(L.imag()) + 1) + 1;
    near(H::calm([&] { return Complex::pow(x, y); }, "pow"), want, 64 * E * c * std::abs(want), "pow");
    H::ok(same(x, a) && same(y, b), "operand changed");
}
HARNESS_MAIN(
    std::vector<double> v{0, -0.0, 1, -1, 0.5, -0.5, 2, 3, -4, 1e10, -1e10, 1e-10, 1e-16, 1e100, 1e-100, 1e150};
    for (long long k : H::dict_ints) if (k < 1000000000 && k > 2) { v.push_back(k); v.push_back(-k); }
    if (v.size() > 60) v.resize(60);
    for (double a : v) for (double b : v) { if (H::mine()) one({a, b}); }
    for (std::size_t i = 0; i < 15; ++i) for (std::size_t j = 0; j < 15; ++j) for (std::size_t k = 0; k < 15; ++k) for (std::size_t l = 0; l < 15; ++l) if (H::mine()) { all({v[i], v[j]}, {v[k], v[l]}); powr({v[i], v[j]}, {v[k], v[l]}); }
    while (H::more()) {
        Z a = any_z(), b = H::rng.p(20) ? a : any_z();
        if (H::rng.p(10)) b = {-a.r, -a.i};
        if (H::rng.p(10)) b = {a.r, -a.i};
        all(a, b);
        one(a);
        powr(a, b);
        powr(a, {(double)H::rng.in(-8, 8), H::rng.p(50) ? 0.0 : H::rng.in(-4, 4) / 2.0});
    })
