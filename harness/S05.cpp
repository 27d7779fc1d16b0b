#include "seqs.hpp"
static void run(const std::string& s)
{
    H::at("string", s);
    const Str x(s);
    std::string lo, up;
    for (char c : s)
        lo += c >= 'A' && c <= 'Z' ? char(c + 32) : c, up += c >= 'a' && c <= 'z' ? char(c - 32) : c;
    H::eq(rds(x.lower()), lo, "lower");
    H::eq(rds(x.upper()), up, "upper");
    auto strip = [&](auto bad) {
        std::size_t i = 0, j = s.size();
        while (i < j && bad(s[i])) ++i;
        while (j > i && bad(s[j - 1])) --j;
        return s.substr(i, j - i);
    };
    H::eq(rds(H::calm([&] { return x.strip(); }, "strip")), strip([](char c) { return (unsigned char)c <= 0x20; }), "strip()");
    for (int k = 0; k < 4; ++k)
    {
        char c = k == 0 ? H::any_char() : s.empty() ? 'a' : k == 1 ? s.front() : k == 2 ? s.back() : s[s.size() / 2];
        if (c == char(-1)) continue;   // documented as the default: the blank characters
        H::at("string", s, "strip", c);
        H::eq(rds(H::calm([&] { return x.strip(c); }, "strip(c)")), strip([c](char d) { return d == c; }), "strip(c)");
    }
    H::eq(rds(x), s, "x afterwards");
}
static void erase(const std::string& s, int a, int b)
{
    H::at("string", s, "erase from", a, "to", b);
    const Str x(s);
    int n = s.size();
    if (a < 0 || b > n || a > b)
        H::throws([&] { x.erase(a, b); }, "erase");
    else
        H::eq(rds(H::calm([&] { return x.erase(a, b); }, "erase")), s.substr(0, a) + s.substr(b), "erase");
    H::eq(rds(x), s, "x afterwards");
}
HARNESS_MAIN(
    for (int c = 0; c < 256; ++c) if (H::mine()) for (auto pre : {"", "a", "  ", "Z\t"}) for (auto post : {"", "b", " \n", "\v@"}) run(pre + std::string(1 + c % 2, char(c)) + post);
    const std::string al = "aA \x01";
    for (int n = 0; n <= 5; ++n) { int t = 1 << (2 * n); for (int k = 0; k < t; ++k) if (H::mine()) { std::string s; for (int i = 0; i < n; ++i) s += al[k >> (2 * i) & 3]; run(s); } }
    for (int n = 0; n <= 6; ++n) for (int a = -2; a <= n + 2; ++a) for (int b = -2; b <= n + 2; ++b) if (H::mine()) erase(std::string("abcdef").substr(0, n), a, b);
    for (int a : H::ints()) for (int b : H::ints()) if (H::mine()) erase("abc", a, b);
    while (H::more()) { auto s = H::any_str(H::rng.p(5) ? 600 : 25); if (H::rng.p(50)) { std::string b; for (int k = H::rng.in(0, 4); k > 0; --k) b += char(H::rng.in(0, 40)); s = b + s + b; } run(s); int n = s.size(); erase(s, any_ix(n), any_ix(n)); int a = H::rng.in(0, n); erase(s, a, H::rng.in(a, n)); })
