#include "ints.hpp"
#include "pyincpp.hpp"
using pyincpp::Str;
static int dig(char c)
{
    return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99;
}
static bool accepted(const std::string& s, int b, Z& v)
{
    if (b < 2 || b > 36)
        return false;
    std::size_t i = 0, n = s.size();
    auto blank = [&] { return i < n && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r'); };
    while (blank()) ++i;
    bool neg = i < n && s[i] == '-';
    if (i < n && (s[i] == '-' || s[i] == '+')) ++i;
    std::size_t k = i;
    v = 0;
    while (i < n && dig(s[i]) < b) v = v * b + dig(s[i++]);
    if (i == k) return false;
    while (blank()) ++i;
    if (neg) v = -v;
    return i == n;
}
static void run(const std::string& s, int b)
{
    H::at("text", s, "base", b);
    Z v;
    const Str x(s);
    auto f = [&] { return x.to_integer(b); };
    if (accepted(s, b, v))
    {
        same(H::calm(f, "to_integer"), v, "to_integer(base)");
        if (b == 10) same(x.to_integer(), v, "to_integer()");
    }
    else
        H::throws(f, "to_integer");
    H::eq(std::string(x.begin(), x.end()), s, "string afterwards");
}
static std::string lit()
{
    std::string s;
    int b = H::rng.in(2, 36);
    auto bl = [&] { for (int k = H::rng.p(60) ? 0 : H::rng.in(0, 3); k > 0; --k) s += " \t\n\r"[H::rng.in(0, 3)]; };
    bl();
    if (H::rng.p(50)) s += "+-"[H::rng.in(0, 1)];
    if (H::rng.p(3)) bl();
    int n = H::rng.p(90) ? H::any_size(12) : H::any_size(120);
    for (int i = 0; i < n; ++i)
    {
        int d = H::rng.p(15) ? 0 : H::rng.p(15) ? b - 1 : H::rng.in(0, b - 1);
        s += d < 10 ? char('0' + d) : char((H::rng.p(50) ? 'a' : 'A') + d - 10);
    }
    bl();
    if (H::rng.p(15)) s.insert(H::rng.next() % (s.size() + 1), 1, H::any_char());
    return s;
}
HARNESS_MAIN(
    const std::string al = " \n+-0917fFzZg.e_\v"; 
    for (int n = 0; n <= 3; ++n) { int t = 1; for (int i = 0; i < n; ++i) t *= al.size(); for (int k = 0; k < t; ++k) { std::string s; for (int i = 0; i < n; ++i) { int q = k; for (int j = 0; j < i; ++j) q /= al.size(); s += al[q % al.size()]; } for (int b : {10, 2, 16, 36, 8}) if (H::mine()) run(s, b); } }
    for (int c = 0; c < 256; ++c) for (int b = 0; b <= 38; ++b) if (H::mine()) { run(std::string(1, char(c)), b); run("1" + std::string(1, char(c)), b); run(std::string(1, char(c)) + "1", b); run("-1" + std::string(1, char(c)) + "0", b); }
    for (int b : H::ints()) if (H::mine()) run("1", b);
    while (H::more()) { auto s = lit(); run(s, H::rng.in(2, 36)); run(s, 10); run(s, 36); run(s, H::any_int()); run(H::any_str(6), 36); })
