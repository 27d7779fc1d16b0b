#include "seqs.hpp"
struct Lit { bool ok = false; bool neg = false; std::string digits; int cnt = 0; long long exp = 0; bool hugeexp = false; };
static Lit parse(const std::string& s)
{
    Lit l;
    std::size_t i = 0, n = s.size();
    auto blank = [&] { return i < n && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r'); };
    auto dig = [&] { return i < n && s[i] >= '0' && s[i] <= '9'; };
    while (blank()) ++i;
    if (i < n && (s[i] == '-' || s[i] == '+')) l.neg = s[i++] == '-';
    while (dig()) l.digits += s[i++];
    if (i < n && s[i] == '.')
    {
        ++i;
        while (dig()) l.digits += s[i++], ++l.cnt;
    }
    if (l.digits.empty()) return l;
    if (i < n && (s[i] == 'e' || s[i] == 'E'))
    {
        ++i;
        bool en = false;
        if (i < n && (s[i] == '-' || s[i] == '+')) en = s[i++] == '-';
        if (!dig()) return l;
        while (dig())
        {
            l.exp = l.exp * 10 + (s[i++] - '0');
            if (l.exp > 1000000) l.exp = 1000000;
        }
        if (en) l.exp = -l.exp;
    }
    while (blank()) ++i;
    l.ok = i == n;
    return l;
}
static int word(const std::string& s)
{
    for (auto w : {"inf", "INF", "Inf", "+inf", "+INF", "+Inf", "infinity", "INFINITY", "Infinity", "+infinity", "+INFINITY", "+Infinity"}) if (s == w) return 1;
    for (auto w : {"-inf", "-INF", "-Inf", "-infinity", "-INFINITY", "-Infinity"}) if (s == w) return 2;
    for (auto w : {"nan", "NaN", "NAN", "+nan", "+NaN", "+NAN", "-nan", "-NaN", "-NAN"}) if (s == w) return 3;
    return 0;
}
// position of the leading digit of the value: 10^mag <= |value| < 10^(mag+1); zero: not significant
static bool zero(const Lit& l) { return l.digits.find_first_not_of('0') == std::string::npos; }
static void run(const std::string& s)
{
    H::at("text", s);
    const Str x(s);
    auto f = [&] { return x.to_decimal(); };
    int w = word(s);
    Lit l = parse(s);
    if (!w && !l.ok)
    {
        H::throws(f, "to_decimal");
        return;
    }
    double got = H::calm(f, "to_decimal");
    H::eq(std::string(x.begin(), x.end()), s, "string afterwards");
    if (w)
    {
        H::ok(w == 1 ? got == INFINITY : w == 2 ? got == -INFINITY : std::isnan(got), "inf/nan spelling: got " + H::show(got));
        return;
    }
    if (zero(l))
    {
        H::ok(got == 0, "a zero: got " + H::show(got));
        return;
    }
    long long len = l.digits.size() - l.digits.find_first_not_of('0');
    long long q = len - l.cnt; // magnitude of the mantissa: 10^(q-1) <= |mantissa| < 10^q
    if (len > 306 || l.cnt > 306 || q < -300 || q > 306)
        return;                // intermediate results leave the range of double: see the findings
    H::ok(!std::isnan(got), "NaN for an ordinary literal");
    double sg = l.neg ? -1 : 1;
    if (l.exp >= -290 && l.exp <= 300)
    {
        double want = std::strtod((l.digits + "e" + std::to_string(l.exp - l.cnt)).c_str(), nullptr) * sg;
        if (q + l.exp < -300)
        {
            H::ok(std::fabs(got - want) <= 1e-300, "value: got " + H::show(got) + ", expected " + H::show(want));
            return;
        }
        if (q + l.exp >= 308)
        {
            H::ok(got * sg > 1e307, "value: got " + H::show(got) + ", expected " + H::show(want));
            return;
        }
        H::ok(std::fabs(got - want) <= std::fabs(want) * 1e-12, "value: got " + H::show(got) + ", expected " + H::show(want));
    }
    else if (l.exp > 310 && q >= 1)
        H::ok(got == sg * INFINITY, "too big: got " + H::show(got));
    else if (l.exp < -330 && q <= 0)
        H::ok(std::fabs(got) == 0, "too small: got " + H::show(got));
}
static std::string lit()
{
    std::string s;
    auto bl = [&] { for (int k = H::rng.p(70) ? 0 : H::rng.in(0, 3); k > 0; --k) s += " \t\n\r"[H::rng.in(0, 3)]; };
    auto ds = [&](int m) { for (int k = H::any_size(m); k > 0; --k) s += char('0' + (H::rng.p(20) ? 0 : H::rng.in(0, 9))); };
    bl();
    if (H::rng.p(50)) s += "+-"[H::rng.in(0, 1)];
    ds(H::rng.p(90) ? 8 : 60);
    if (H::rng.p(60)) { s += '.'; ds(H::rng.p(90) ? 8 : 60); }
    if (H::rng.p(50)) { s += "eE"[H::rng.in(0, 1)]; if (H::rng.p(60)) s += "+-"[H::rng.in(0, 1)]; if (H::rng.p(95)) s += std::to_string(H::rng.p(70) ? H::rng.in(0, 30) : H::rng.in(0, 700)); }
    bl();
    if (H::rng.p(15)) s.insert(H::rng.next() % (s.size() + 1), 1, H::rng.p(50) ? H::any_char() : "+-.eE0 "[H::rng.in(0, 6)]);
    return s;
}
static void special(const std::string& key, const std::string& s, double want)
{
    H::at("text", s);
    double got = H::calm([&] { return Str(s).to_decimal(); }, "to_decimal");
    H::finding(std::fabs(got - want) <= std::fabs(want) * 1e-9, key, "got " + H::show(got) + ", expected " + H::show(want));
}
HARNESS_MAIN(
    for (auto w : {"inf", "INF", "Inf", "+inf", "+INF", "+Inf", "infinity", "INFINITY", "Infinity", "+infinity", "+INFINITY", "+Infinity", "-inf", "-INF", "-Inf", "-infinity", "-INFINITY", "-Infinity", "nan", "NaN", "NAN", "+nan", "+NaN", "+NAN", "-nan", "-NaN", "-NAN", "iNf", "in", "infi", "inf ", " inf", "nan ", "nann", "nAn", "-", "--inf", "NaNf"}) if (H::mine()) run(w);
    const std::string al = " +-01.eE5x";
    for (int n = 0; n <= 5; ++n) { int t = 1; for (int i = 0; i < n; ++i) t *= al.size(); for (int k = 0; k < t; ++k) { if (!H::mine()) continue; std::string s; int q = k; for (int i = 0; i < n; ++i) s += al[q % al.size()], q /= al.size(); run(s); } }
    for (int c = 0; c < 256; ++c) if (H::mine()) for (auto pre : {"", "1", "1.", ".", "1e", "1e+", "1e5", " ", "-", "1 "}) for (auto post : {"", "1", ".5", "e5", " "}) run(pre + std::string(1, char(c)) + post);
    for (int e = 0; e < 900; e += 7) if (H::mine()) { run("1e" + std::to_string(e)); run("1e-" + std::to_string(e)); run("-2.5e" + std::to_string(e)); run("0e" + std::to_string(e)); run("0.00e-" + std::to_string(e)); }
    for (int n = 1; n <= 306; n += n < 40 ? 1 : n < 290 ? 9 : 1) if (H::mine()) for (auto d : {"3", "9", "10", "07"}) { std::string t; while ((int)t.size() < n) t += d; t.resize(n); run("0." + t); run("-" + t + ".25"); run("." + std::string(n - 1, '0') + "7e" + std::to_string(n)); run(t + "e-" + std::to_string(n)); run(t.substr(0, n / 2) + "." + t.substr(n / 2)); }
    if (H::shard == 0) { special("huge-mantissa-nan", "1" + std::string(400, '0') + "e-400", 1); special("tiny-scale-zero", "1" + std::string(30, '0') + "e-330", 1e-300); special("long-fraction-nan", "0." + std::string(400, '0') + "1e401", 1); special("fraction-huge-exponent-inf", "0." + std::string(299, '0') + "1e310", 1e10); }
    while (H::more()) { run(lit()); run(lit()); run(H::any_str(5)); })
