// Reading from streams against an independent reader of the text.
#include "fracs.hpp"
using pyincpp::Complex;
using pyincpp::Int;
using pyincpp::Str;
struct Out { bool ok = false; std::size_t end = 0; };
static bool dig(const std::string& t, std::size_t i) { return i < t.size() && t[i] >= '0' && t[i] <= '9'; }
static bool ws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool blank(char c) { return c >= 0 && c <= 32; }
static bool ends(const std::string& t, std::size_t i) { return i >= t.size() || blank(t[i]); }
static std::size_t skip(const std::string& t, std::size_t i) { while (i < t.size() && blank(t[i])) ++i; return i; }
static std::optional<long long> integer(const std::string& t, std::size_t& i)
{
    bool neg = false;
    if (i < t.size() && (t[i] == '+' || t[i] == '-')) neg = t[i++] == '-';
    if (!dig(t, i)) return {};
    long long v = 0;
    for (; dig(t, i); ++i) if (v < 100000000000LL) v = v * 10 + (t[i] - '0');
    if (neg) v = -v;
    if (v < INT_MIN || v > INT_MAX) return {};
    return v;
}
static std::optional<double> real(const std::string& t, std::size_t& i)
{
    std::size_t b = i;
    if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i;
    bool m = false;
    while (dig(t, i)) ++i, m = true;
    if (i < t.size() && t[i] == '.') { ++i; while (dig(t, i)) ++i, m = true; }
    if (!m) return {};
    if (i < t.size() && (t[i] == 'e' || t[i] == 'E'))
    {
        ++i;
        if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i;
        if (!dig(t, i)) return {};
        while (dig(t, i)) ++i;
    }
    double v = std::strtod(t.substr(b, i - b).c_str(), nullptr);
    if (std::isinf(v)) return {};
    return v;
}
struct FracRead
{
    using T = Fraction;
    static constexpr const char* name = "Fraction";
    static T before() { return Fraction(7, 3); }
    std::optional<std::pair<R, bool>> want; // value, representable
    Out read(const std::string& t, std::size_t p)
    {
        want.reset();
        std::size_t i = skip(t, p);
        auto n = integer(t, i);
        if (!n) return {};
        if (ends(t, i)) { want = {{*n, 1}, true}; return {true, i}; }
        if (t[i] != '/') return {};
        ++i;
        auto d = integer(t, i);
        if (!d || *d == 0 || !ends(t, i)) return {};
        R r = red(*n, *d);
        want = {r, r.fits()};
        return {true, i};
    }
    void check(const T& x) { if (want->second) H::ok(x.numerator() == want->first.n && x.denominator() == want->first.d, "read as " + H::show(x.numerator()) + "/" + H::show(x.denominator()) + ", expected " + want->first.str()); }
    static bool same(const T& a, const T& b) { return a.numerator() == b.numerator() && a.denominator() == b.denominator(); }
};
struct CplxRead
{
    using T = Complex;
    static constexpr const char* name = "Complex";
    static T before() { return Complex(7, 3); }
    double re = 0, im = 0;
    Out read(const std::string& t, std::size_t p)
    {
        std::size_t i = skip(t, p);
        auto x = real(t, i);
        if (!x) return {};
        if (ends(t, i)) { re = *x, im = 0; return {true, i}; }
        if (t[i] == 'j') { re = 0, im = *x; return {ends(t, i + 1), i + 1}; }
        if (t[i] != '+' && t[i] != '-') return {};
        auto y = real(t, i);
        if (!y || i >= t.size() || t[i] != 'j' || !ends(t, i + 1)) return {};
        re = *x, im = *y;
        return {true, i + 1};
    }
    void check(const T& x) { H::eq(x.real(), re, "real part"); H::eq(x.imag(), im, "imaginary part"); }
    static bool same(const T& a, const T& b) { return a.real() == b.real() && a.imag() == b.imag(); }
};
struct IntRead
{
    using T = Int;
    static constexpr const char* name = "Int";
    static T before() { return Int(73); }
    std::string want;
    Out read(const std::string& t, std::size_t p)
    {
        std::size_t i = p;
        while (i < t.size() && ws(t[i])) ++i;
        std::size_t b = i;
        while (i < t.size() && !ws(t[i])) ++i;
        std::string w = t.substr(b, i - b);
        w = w.c_str();
        bool neg = false;
        std::size_t k = 0;
        if (!w.empty() && (w[0] == '+' || w[0] == '-')) neg = w[k++] == '-';
        if (k == w.size()) return {};
        for (std::size_t q = k; q < w.size(); ++q) if (!dig(w, q)) return {};
        while (k + 1 < w.size() && w[k] == '0') ++k;
        want = w.substr(k);
        if (neg && want != "0") want = "-" + want;
        return {true, i};
    }
    void check(const T& x) { std::ostringstream o; o << x; H::eq(o.str(), want, "value"); }
    static bool same(const T& a, const T& b) { return a == b; }
};
struct StrRead
{
    using T = Str;
    static constexpr const char* name = "Str";
    static T before() { return Str("before"); }
    std::string want;
    Out read(const std::string& t, std::size_t p)
    {
        std::size_t e = t.find('\n', p);
        if (p >= t.size()) return {};
        want = t.substr(p, e == std::string::npos ? e : e - p);
        return {true, e == std::string::npos ? t.size() : e + 1};
    }
    void check(const T& x) { H::eq(std::string(x.begin(), x.end()), want, "line"); }
    static bool same(const T& a, const T& b) { return a == b; }
};
template <class P>
static void go(const std::string& text)
{
    std::istringstream is(text);
    std::size_t pos = 0;
    bool eof = false;
    for (int round = 0; round < 8; ++round)
    {
        H::at(P::name, text, pos, round);
        P p;
        Out o = eof ? Out{} : p.read(text, pos);
        auto x = P::before();
        bool threw = false;
        try
        {
            std::istream& r = (is >> x);
            H::ok(&r == &is, "does not return the stream");
        }
        catch (const std::runtime_error&)
        {
            threw = true;
        }
        catch (...)
        {
            H::die("another exception than runtime_error");
        }
        if (!o.ok)
        {
            H::ok(threw || is.fail(), "accepted a text that is not a literal");
            if (threw) H::ok(P::same(x, P::before()), "the number was changed although reading it threw");
            break;
        }
        H::ok(!threw, "threw on a literal");
        H::ok(!is.fail(), "the stream failed on a literal");
        p.check(x);
        bool at_end = std::is_same_v<P, StrRead> ? text.find('\n', pos) == std::string::npos : o.end >= text.size();
        H::eq(is.eof(), at_end, "end of the stream reached");
        eof = is.eof();
        if (!eof)
            H::eq(std::size_t(is.tellg()), o.end, "position of the stream");
        pos = o.end;
    }
    // a stream that has failed before reads nothing
    std::istringstream bad(text);
    bad.setstate(std::ios::failbit);
    auto y = P::before();
    H::at(P::name, text, -1, 0);
    try { bad >> y; H::ok(bad.fail(), "a failed stream recovered"); } catch (const std::runtime_error&) {}
    H::ok(P::same(y, P::before()), "a failed stream changed the operand");
}
static void all(const std::string& s) { go<FracRead>(s); go<CplxRead>(s); go<IntRead>(s); go<StrRead>(s); }
static int rare_length() { return H::rng.p(90) ? H::rng.in(20, 600) : H::rng.in(600, 5000); }
static std::string num()
{
    if (H::rng.next() % 100 == 0)
    {
        std::string s;
        for (int n = rare_length(); n > 0; --n) s += char('0' + H::rng.in(0, 9));
        return s;
    }
    if (H::rng.next() % 200 == 0) return std::string(rare_length(), '0') + std::to_string(H::rng.in(0, 999));
    if (H::rng.p(80)) return std::to_string(H::rng.p(60) ? H::rng.in(0, 20) : std::abs((long long)H::any_int()));
    if (H::rng.p(50)) return std::to_string(2147483640LL + H::rng.in(0, 15));
    return std::string(H::rng.in(0, 3), '0') + std::to_string(H::rng.in(0, 999)) + std::to_string(H::rng.next() % 100000000000ULL);
}
static std::string sign() { return H::rng.p(50) ? "" : H::rng.p(50) ? "-" : "+"; }
static std::string dbl()
{
    std::string s = H::rng.p(85) ? num() : "";
    if (H::rng.p(50)) s += "." + (H::rng.p(80) ? num() : "");
    if (H::rng.p(20)) s += std::string(1, "eE"[H::rng.in(0, 1)]) + sign() + std::to_string(H::rng.p(90) ? H::rng.in(0, 40) : H::rng.in(200, 500));
    return s;
}
static std::string gap()
{
    std::string s;
    if (H::rng.next() % 100 == 0) return std::string(rare_length(), " \t\n\r\v\f"[H::rng.in(0, 5)]);
    for (int k = H::rng.p(80) ? 1 : H::rng.in(0, 4); k > 0; --k) s += H::rng.p(5) ? char(H::rng.in(0, 32)) : " \t\n\r\v\f"[H::rng.in(0, 5)];
    return s;
}
static std::string text(int kind)
{
    std::string s = H::rng.p(70) ? "" : gap();
    for (int k = H::rng.in(1, 3); k > 0; --k)
    {
        std::string l = sign();
        if (kind == 0) { l += num(); if (H::rng.p(60)) l += "/" + sign() + num(); }
        else if (kind == 1) { l += dbl(); if (H::rng.p(60)) l += (H::rng.p(95) ? (H::rng.p(50) ? "+" : "-") : "") + dbl() + (H::rng.p(90) ? "j" : ""); else if (H::rng.p(40)) l += "j"; }
        else l += num();
        s += l;
        if (k > 1 || H::rng.p(30)) s += gap();
    }
    if (H::rng.p(20)) s.insert(H::rng.next() % (s.size() + 1), 1, H::rng.p(50) ? H::any_char() : "+-.eE0j/ "[H::rng.in(0, 8)]);
    if (H::rng.p(8) && !s.empty()) s.erase(H::rng.next() % s.size(), 1);
    return s;
}
HARNESS_MAIN(
    for (const std::string al : {std::string("+-0 7/"), std::string("+-1. jeE"), std::string("+12\n |/j\0", 9)})
        for (int n = 0; n <= 5; ++n) { long t = 1; for (int i = 0; i < n; ++i) t *= al.size(); for (long k = 0; k < t; ++k) { if (!H::mine()) continue; std::string s; long q = k; for (int i = 0; i < n; ++i) s += al[q % al.size()], q /= al.size(); all(s); } }
    for (int c = 0; c < 256; ++c) if (H::mine()) for (auto pre : {"", "1", "1/", "1/2", "1.", "1+", "1+2", "1+2j", "2j", "-", " "}) for (auto post : {"", "1", "2j", "/3", " ", " 1/2", "j "}) all(pre + std::string(1, char(c)) + post);
    for (auto s : {"2147483647", "2147483648", "-2147483648", "-2147483649", "1/2147483647", "1/2147483648", "-2147483648/-2147483648", "2147483647/-2147483647", "0/0", "1/0", "0/5", "00012/-0004", "1e308", "1e309", "1e-400j", "1e5+1e5j 3", "12345678901234567890/3"}) if (H::mine()) all(s);
    while (H::more()) { go<FracRead>(text(0)); go<CplxRead>(text(1)); go<IntRead>(text(2)); go<StrRead>(text(H::rng.in(0, 2))); all(H::any_str(6)); })
