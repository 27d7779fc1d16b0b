// The printed text against an independent rendering.
#include "assoc.hpp"
#include "fracs.hpp"
using pyincpp::Complex;
template <class T>
static std::string shown(const T& x)
{
    std::ostringstream os;
    os << x;
    return os.str();
}
static std::string shown(const Str& s) { return "\"" + std::string(s.begin(), s.end()) + "\""; }
static std::string lst(const std::vector<std::string>& v, const std::string& o, const std::string& c)
{
    std::string r = o;
    for (std::size_t i = 0; i < v.size(); ++i)
        r += (i ? ", " : "") + v[i];
    return r + c;
}
template <class T>
static void printed(const T& x, const std::string& want, const char* what)
{
    H::eq(H::text(x), want, what);
    std::ostringstream os;
    os << "before ";
    std::ostream& r = (os << x);
    H::ok(&r == &os, std::string(what) + ": << does not return the stream");
    os << " after" << 12;
    H::eq(os.str(), "before " + want + " after12", what);
    H::eq(H::text(x), want, "printed again");
}
template <class T>
static std::vector<std::string> texts(const std::vector<T>& v)
{
    std::vector<std::string> r;
    for (auto& x : v)
        r.push_back(shown(x));
    return r;
}
template <class T>
static std::vector<T> draw(int m)
{
    std::vector<T> v;
    for (int n = H::any_size(m); n > 0; --n)
        v.push_back(make<T>(H::rng.in(-9, 99)));
    return v;
}
template <class T>
static void seqs(const char* name, const std::vector<T>& v)
{
    H::at("List and Deque of", name, texts(v));
    List<T> l(v.begin(), v.end());
    Deque<T> d;
    std::size_t k = v.empty() ? 0 : H::rng.next() % (v.size() + 1);
    for (std::size_t i = k; i > 0; --i)
        d.push_front(v[i - 1]);
    for (std::size_t i = k; i < v.size(); ++i)
        d.push_back(v[i]);
    std::string ltext = lst(texts(v), "[", "]"), dtext = lst(texts(v), "<", ">");
    printed(l, ltext, "List");
    printed(d, dtext, "Deque");
    List<List<T>> ll{l, l};
    printed(ll, "[" + ltext + ", " + ltext + "]", "List of List");
    Deque<List<T>> dl{l};
    printed(dl, "<" + ltext + ">", "Deque of List");
    printed(pyincpp::make_tuple(l), "(" + ltext + ",)", "Tuple of List");
    printed(pyincpp::make_tuple(l, d), "(" + ltext + ", " + dtext + ")", "Tuple of List and Deque");
    H::eq(l.size(), int(v.size()), "size afterwards");
}
template <class T>
static void assoc(const char* name, const SI& s)
{
    H::at("Set and Dict of", name, s);
    std::vector<std::string> ks, ps, qs;
    Dict<T, int> d;
    Dict<int, T> e;
    for (int k : s)
    {
        ks.push_back(shown(make<T>(k)));
        ps.push_back(ks.back() + ": " + std::to_string(k * 3));
        qs.push_back(std::to_string(k) + ": " + ks.back());
        d.add(make<T>(k), k * 3);
        e.add(k, make<T>(k));
    }
    Set<T> x = mks<T>(s);
    printed(x, lst(ks, "{", "}"), "Set");
    printed(d, lst(ps, "{", "}"), "Dict");
    printed(e, lst(qs, "{", "}"), "Dict");
    printed(List<Set<T>>{x, Set<T>(), x}, "[" + lst(ks, "{", "}") + ", {}, " + lst(ks, "{", "}") + "]", "List of Set");
    H::eq(x.size(), int(s.size()), "size afterwards");
}
template <std::size_t... I>
static void many(std::index_sequence<I...>)
{
    std::vector<int> v{int(H::rng.in(-99, 99) + 0 * I)...};
    std::vector<std::string> w;
    for (int x : v) w.push_back(std::to_string(x));
    H::at("Tuple of", v);
    printed(pyincpp::make_tuple(v[I]...), lst(w, "(", sizeof...(I) == 1 ? ",)" : ")"), "long tuple");
}
template <std::size_t... N>
static void arities(std::index_sequence<N...>) { (many(std::make_index_sequence<N + 1>()), ...); }
static void tuples()
{
    int a = H::rng.in(-99, 99), b = H::any_int();
    std::string s = H::any_str(9);
    Str t(s);
    H::at("Tuple of", a, b, s);
    std::string A = std::to_string(a), B = std::to_string(b), Q = "\"" + s + "\"";
    printed(pyincpp::make_tuple(), "()", "Tuple of 0");
    printed(pyincpp::make_tuple(a), "(" + A + ",)", "Tuple of 1");
    printed(pyincpp::make_tuple(t), "(" + Q + ",)", "Tuple of 1");
    printed(pyincpp::make_tuple(a, b), "(" + A + ", " + B + ")", "Tuple of 2");
    printed(pyincpp::make_tuple(s, t, b), "(" + s + ", " + Q + ", " + B + ")", "Tuple of 3");
    printed(pyincpp::make_tuple(a, b, a, b), "(" + A + ", " + B + ", " + A + ", " + B + ")", "Tuple of 4");
    printed(pyincpp::make_tuple(t, a, a, b, t), "(" + Q + ", " + A + ", " + A + ", " + B + ", " + Q + ")", "Tuple of 5");
    printed(pyincpp::make_tuple(a, a, a, a, a, a, a, b), "(" + A + ", " + A + ", " + A + ", " + A + ", " + A + ", " + A + ", " + A + ", " + B + ")", "Tuple of 8");
    printed(pyincpp::make_tuple(pyincpp::make_tuple(a), pyincpp::make_tuple(a, b)), "((" + A + ",), (" + A + ", " + B + "))", "Tuple of Tuple");
    printed(List<Tuple<int>>{pyincpp::make_tuple(a), pyincpp::make_tuple(b)}, "[(" + A + ",), (" + B + ",)]", "List of Tuple");
}
static void numbers()
{
    R r = any_r();
    H::at("Fraction", r);
    std::string n = std::to_string((long long)r.n), d = std::to_string((long long)r.d);
    printed(mk(r), r.d == 1 ? n : n + "/" + d, "Fraction");
    printed(List<Fraction>{mk(r), Fraction(3)}, "[" + (r.d == 1 ? n : n + "/" + d) + ", 3]", "List of Fraction");
    double x = H::rng.p(30) ? H::rng.in(-3, 3) : H::any_int() / 8.0, y = H::rng.p(30) ? H::rng.in(-2, 2) : H::any_int() / 64.0;
    if (H::rng.p(10)) y = H::rng.p(50) ? -0.0 : 0.0;
    if (H::rng.p(10)) x = -0.0;
    H::at("Complex", x, y);
    printed(Complex(x, y), "(" + shown(x) + (y < 0 ? "-" : "+") + shown(std::abs(y)) + "j)", "Complex");
}
static void strs()
{
    std::string s = H::any_str(H::rng.p(10) ? 500 : 20);
    H::at("Str", s);
    Str t(s);
    printed(t, "\"" + s + "\"", "Str");
    printed(List<Str>{t, Str(""), t}, "[\"" + s + "\", \"\", \"" + s + "\"]", "List of Str");
    H::eq(rds(t), s, "the string afterwards");
}
// a value whose output prints containers of its own kind
struct Tree
{
    int label;
    std::vector<Tree> below;
    friend std::ostream& operator<<(std::ostream& os, const Tree& t) { return os << t.label << List<Tree>(t.below.begin(), t.below.end()); }
    friend bool operator==(const Tree& a, const Tree& b) { return a.label == b.label && a.below == b.below; }
    friend auto operator<=>(const Tree& a, const Tree& b) { return a.label <=> b.label; }
    std::string str() const
    {
        std::string r = std::to_string(label) + "[";
        for (std::size_t i = 0; i < below.size(); ++i) r += (i ? ", " : "") + below[i].str();
        return r + "]";
    }
};
static Tree tree(int depth)
{
    Tree t{H::rng.in(0, 99), {}};
    for (int i = depth ? H::rng.in(0, 3) : 0; i > 0; --i) t.below.push_back(tree(depth - 1));
    return t;
}
static void trees()
{
    const Tree t = tree(3);
    H::at("tree", t.str());
    printed(t, t.str(), "values that contain lists of values");
    printed(Str("{} {}").format(t, 1), "\"" + t.str() + " 1\"", "format of them");
}
HARNESS_MAIN(
    for (int k = 0; k < 3; ++k) if (H::mine()) arities(std::make_index_sequence<17>());
    for (int n = 0; n <= 12; ++n) if (H::mine()) { std::vector<int> v; SI s; for (int i = 0; i < n; ++i) v.push_back(i * 7), s.insert(i); seqs("int", v); assoc<int>("int", s); }
    while (H::more()) {
        int m = H::rng.p(10) ? 300 : 8;
        switch (H::rng.in(0, 4))
        {
        case 0: seqs("std::string", draw<std::string>(m)); assoc<std::string>("std::string", any_set(m)); break;
        case 1: seqs("Int", draw<Int>(m)); assoc<Int>("Int", any_set(m)); break;
        case 2: seqs("Str", draw<Str>(m)); assoc<Str>("Str", any_set(m)); break;
        case 3: seqs("Fraction", draw<Fraction>(m)); assoc<Fraction>("Fraction", any_set(m)); break;
        default: seqs("int", draw<int>(m)); assoc<int>("int", any_set(m));
        }
        tuples(); numbers(); strs(); trees();
    })
