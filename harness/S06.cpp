#include "seqs.hpp"
#include <iomanip>
static std::string format_(const std::string& s, const V& args)
{
    std::string r;
    std::size_t p = 0;
    for (auto& a : args)
    {
        auto o = s.find('{', p);
        if (o == std::string::npos) break;
        auto c = s.find('}', o + 1);
        if (c == std::string::npos) break;
        r += s.substr(p, o - p) + a;
        p = c + 1;
    }
    return r + s.substr(p);
}
// an argument whose output formats other strings, and one that leaves the stream's flags changed
struct Nested
{
    int k;
    friend std::ostream& operator<<(std::ostream& os, const Nested& x)
    {
        const Str s = x.k > 0 ? Str("<{}|{}>").format(Nested{x.k - 1}, x.k) : Str("<{}>").format(x.k);
        return os << std::string(s.begin(), s.end());
    }
};
static std::string nested(int k) { return k > 0 ? "<" + nested(k - 1) + "|" + std::to_string(k) + ">" : "<0>"; }
struct Sticky
{
    friend std::ostream& operator<<(std::ostream& os, const Sticky&) { return os << std::hex << std::showpos << std::setfill('*') << "s"; }
};
struct Thrower
{
    friend std::ostream& operator<<(std::ostream& os, const Thrower&) { os << "partial"; throw std::runtime_error("no text"); }
};
static void run(const std::string& s, const std::string& t, int n)
{
    H::at("format", s, "with", t, n);
    const Str x(s);
    std::string i = std::to_string(n), l = "[" + i + ", 2]";
    auto c = [&](const Str& got, const V& args, const char* what) { H::eq(rds(got), format_(s, args), what); };
    H::calm([&] {
        c(x.format(), {}, "format()");
        c(x.format(t), {t}, "format(string)");
        c(x.format(n), {i}, "format(int)");
        c(x.format('{'), {"{"}, "format('{')");
        c(x.format(t, n), {t, i}, "format(string, int)");
        c(x.format(n, t.c_str()), {i, t.c_str()}, "format(int, char*)");
        c(x.format(List<int>{n, 2}, t), {l, t}, "format(list, string)");
        c(x.format(n, t, n), {i, t, i}, "format(int, string, int)");
        c(x.format(t, t, n, n), {t, t, i, i}, "4 arguments");
        c(x.format(n, t, 7, t, 'x'), {i, t, "7", t, "x"}, "5 arguments");
        c(x.format(1, 2, 3, 4, 5, 6), {"1", "2", "3", "4", "5", "6"}, "6 arguments");
        c(x.format(Nested{2}, n), {nested(2), i}, "arguments that format");
        for (int r = 0; r < 2; ++r)
            c(x.format(n, Sticky()), {i, "s"}, "an argument that leaves the stream's flags changed");
        c(x.format(n, t), {i, t}, "format(int, string) afterwards");
        
        try { (void)x.format(t, Thrower()); } catch (const std::runtime_error&) { }
        c(x.format(n, t), {i, t}, "format(int, string) after an argument threw");
        H::eq(rds(x.format(x, n)), format_(s, {"\"" + s + "\"", i}), "format(itself, int)");
    }, "format");
    H::eq(rds(x), s, "format string afterwards");
}
HARNESS_MAIN(
    const std::string al = "{}a";
    for (int n = 0; n <= 7; ++n) { int t = 1; for (int i = 0; i < n; ++i) t *= 3; for (int k = 0; k < t; ++k) if (H::mine()) { std::string s; for (int i = 0, q = k; i < n; ++i) s += al[q % 3], q /= 3; run(s, k % 2 ? "x" : "{}", k); } }
    while (H::more()) { std::string s; for (int k = H::any_size(12); k > 0; --k) s += H::rng.p(40) ? "{}" : H::rng.p(30) ? "{0}" : H::rng.p(20) ? "{" : H::rng.p(20) ? "}" : H::rng.p(10) ? std::string(1, '\0') : H::any_str(3); run(s, H::rng.p(30) ? "" : H::any_str(5), H::any_int()); })
