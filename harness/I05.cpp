#include "ints.hpp"
static bool accepted(const std::string& s, Z& v)
{
    std::size_t k = !s.empty() && (s[0] == '+' || s[0] == '-') ? 1 : 0;
    if (s.size() == k)
        return false;
    v = 0;
    for (std::size_t i = k; i < s.size(); ++i)
    {
        if (s[i] < '0' || s[i] > '9')
            return false;
        v = v * 10 + (s[i] - '0');
    }
    if (s[0] == '-')
        v = -v;
    return true;
}
template <class F>
static void parse(const std::string& s, F f, const char* what)
{
    Z v;
    if (accepted(s, v))
        same(H::calm(f, what), v, what);
    else
        H::throws(f, what);
}
static void text_case(const std::string& s)
{
    if (s.find('\0') != std::string::npos)
        return;
    H::at("text", s);
    parse(s, [&] { return Int(s.c_str()); }, "Int(const char*)");
}
template <class T>
static void conv(const Int& x, const Z& z, const char* what)
{
    if (z < Z(std::numeric_limits<T>::min()) || z > Z(std::numeric_limits<T>::max()))
        return;
    T got = H::calm([&] { return x.to_integer<T>(); }, what);
    if (Z(got) != z)
        H::die(std::string(what) + ": got " + Z(got).str() + ", expected " + z.str());
}
static void value_case(const Z& z)
{
    H::at("value", z);
    Int x = I(z.str());
    H::eq(H::text(x), z.str(), "printed text");
    H::ok(I(H::text(x)) == x, "parsing the printed text gives another integer");
    conv<int>(x, z, "to_integer<int>");
    conv<long long>(x, z, "to_integer<long long>");
    conv<unsigned long long>(x, z, "to_integer<unsigned long long>");
    conv<unsigned>(x, z, "to_integer<unsigned>");
    conv<signed char>(x, z, "to_integer<signed char>");
    conv<unsigned char>(x, z, "to_integer<unsigned char>");
    conv<short>(x, z, "to_integer<short>");
    if (z >= INT_MIN && z <= INT_MAX)
    {
        Int y(z.convert_to<int>());
        same(y, z, "Int(int)");
    }
    std::istringstream is(z.str() + " 7x");
    Int r(5);
    is >> r;
    same(r, z, "operator>>");
    same(x, z, "afterwards");
}
static void stream_case(const std::string& s)
{
    if (s.empty() || s.find_first_of(" \t\n\r\v\f") != std::string::npos || s.find('\0') != std::string::npos)
        return;
    H::at("stream text", s);
    Z v;
    bool good = accepted(s, v);
    std::istringstream is(" " + s + "\n");
    Int r(5);
    bool threw = false;
    try { is >> r; } catch (const std::runtime_error&) { threw = true; }
    if (good) { H::ok(!threw, "operator>> throws for an integer"); same(r, v, "operator>>"); }
    else H::ok(threw || !is, "operator>> accepts text that is not an integer");
}
HARNESS_MAIN(
    { // all short texts over an alphabet
        const std::string al = "+-019 a.\xb2";
        std::function<void(std::string, int)> rec = [&](std::string s, int n) {
            if (H::mine()) { text_case(s); stream_case(s); }
            if (n) for (char c : al) rec(s + c, n - 1);
        };
        rec("", 4);
    }
    for (int c = 1; c < 256; ++c)
        if (H::mine()) { text_case(std::string(1, char(c))); text_case("1" + std::string(1, char(c))); text_case(std::string(1, char(c)) + "1"); text_case("-" + std::string(1, char(c)) + "2"); text_case("12" + std::string(1, char(c)) + "3"); }
    for (int v = -3000; v <= 3000; ++v)
        if (H::mine()) value_case(v);
    for (int k = 0; k < 66; ++k)
        for (int d = -2; d <= 2; ++d)
            if (H::mine()) { value_case((Z(1) << k) + d); value_case(-(Z(1) << k) + d); }
    for (int k : H::ints())
        if (H::mine()) value_case(k);
    while (H::more()) {
        value_case(any_z(H::rng.p(10) ? 300 : 30));
        std::string s = any_z(12).str();
        if (H::rng.p(60)) s.insert(0, std::string(H::rng.in(0, 4), '0'));
        if (H::rng.p(40)) s.insert(0, 1, "+-"[H::rng.in(0, 1)]);
        if (H::rng.p(30)) s.insert(H::rng.next() % (s.size() + 1), 1, H::any_char());
        text_case(s);
        stream_case(s);
        text_case(H::any_str(6));
    })
