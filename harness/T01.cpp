// Tuples of 0..10 elements against std::tuple.
#include "seqs.hpp"
#include <tuple>
#include <utility>
template <class T>
T any();
template <>
int any<int>() { return H::rng.p(70) ? H::rng.in(0, 2) : H::any_int(); }
template <>
std::string any<std::string>() { return any_e(); }
template <>
char any<char>() { return H::any_char(); }
template <>
long any<long>() { return any<int>(); }
template <>
Int any<Int>() { return Int(any<int>()) * Int("100000000000000000001"); }
template <>
LS any<LS>() { return mk(any_v(4)); }
template <>
Item any<Item>() { return Item{H::rng.in(0, 2), H::rng.in(0, 99)}; }
template <>
Fraction any<Fraction>() { return Fraction(H::rng.in(-3, 3), H::rng.in(1, 3)); }

template <class T>
static std::string str(const T& x)
{
    if constexpr (std::is_same_v<T, int> || std::is_same_v<T, long> || std::is_same_v<T, std::string> || std::is_same_v<T, char>)
        return H::show(x);
    else if constexpr (std::is_same_v<T, Item>)
        return x.str();
    else
        return H::text(x);
}
template <class... T>
static std::string shown(const std::tuple<T...>& t)
{
    std::string r = "(";
    std::apply([&](const auto&... x) { ((r += str(x) + ","), ...); }, t);
    return r + ")";
}
template <class T>
static bool same1(const T& a, const T& b)
{
    if constexpr (std::is_same_v<T, Item>)
        return a.key == b.key && a.tag == b.tag;
    else
        return a == b;
}
template <class... T>
static auto build(const std::tuple<T...>& t)
{
    return std::apply([](const T&... x) { return pyincpp::make_tuple(x...); }, t);
}
template <std::size_t I, class P, class... T>
static void at_index(const P& p, const std::tuple<T...>& t)
{
    using E = std::tuple_element_t<I, std::tuple<T...>>;
    static_assert(std::is_same_v<std::decay_t<decltype(p.template get<I>())>, E>);
    H::ok(same1<E>(p.template get<I>(), std::get<I>(t)), "get<" + std::to_string(I) + ">() is wrong");
}
template <class... T>
static void holds(const pyincpp::Tuple<T...>& p, const std::tuple<T...>& t)
{
    H::eq(p.size(), int(sizeof...(T)), "size()");
    [&]<std::size_t... I>(std::index_sequence<I...>) { (at_index<I>(p, t), ...); }(std::make_index_sequence<sizeof...(T)>());
}
template <class... T>
static std::tuple<T...> fresh()
{
    return std::tuple<T...>{any<T>()...};
}
template <class A, class... T>
static std::tuple<T...> tail(const std::tuple<A, T...>& t)
{
    return [&]<std::size_t... I>(std::index_sequence<I...>) { return std::tuple<T...>{std::get<I + 1>(t)...}; }(std::make_index_sequence<sizeof...(T)>());
}
template <class... T>
static bool elementwise(const std::tuple<T...>& a, const std::tuple<T...>& b)
{
    return [&]<std::size_t... I>(std::index_sequence<I...>) { return ((std::get<I>(a) == std::get<I>(b)) && ... && true); }(std::make_index_sequence<sizeof...(T)>());
}
template <class... T>
static void one()
{
    auto t = fresh<T...>(), u = H::rng.p(60) ? t : fresh<T...>();
    // change a single position
    if constexpr (sizeof...(T) > 0)
        if (H::rng.p(60))
        {
            std::size_t k = H::rng.next() % sizeof...(T), j = 0;
            std::apply([&](auto&... x) { ((j++ == k ? void(x = any<std::decay_t<decltype(x)>>()) : void()), ...); }, u);
        }
    H::at("Tuple", shown(t), shown(u));
    const auto p = build(t), q = build(u);
    holds(p, t), holds(q, u);
    bool eq = elementwise(t, u);
    H::eq(p == q, eq, "==");
    H::eq(p != q, !eq, "!=");
    H::eq(q == p, eq, "== (swapped)");
    H::eq(p == p, true, "p == p");
    H::eq(p != p, false, "p != p");
    auto c = p;
    H::eq(c == p, true, "a copy");
    c = q;
    H::eq(c == q, true, "an assigned tuple");
    holds(c, u);
    if constexpr (sizeof...(T) > 0)
    {
        auto rt = tail(t);
        holds(p.rest(), rt);
        H::eq(p.rest() == build(rt), true, "rest()");
        H::eq(p.rest() == p, false, "rest() == the tuple");
        H::eq(p == p.rest(), false, "the tuple == rest()");
        H::eq(p != p.rest(), true, "the tuple != rest()");
        H::eq(pyincpp::make_tuple() == p, false, "() == the tuple");
        H::eq(p == pyincpp::make_tuple(), false, "the tuple == ()");
        H::eq(pyincpp::make_tuple() != p, true, "() != the tuple");
        H::eq(p != pyincpp::make_tuple(), true, "the tuple != ()");
    }
    holds(p, t), holds(q, u);
}
// different element types at one position, equal everywhere else
static void types()
{
    int a = any<int>(), b = any<int>(), c = any<int>();
    H::at("Tuple types", a, b, c);
    using pyincpp::make_tuple;
    H::eq(make_tuple(a, b, c) == make_tuple(a, b, long(c)), false, "int against long at the end");
    H::eq(make_tuple(a, b, c) == make_tuple(a, long(b), c), false, "int against long in the middle");
    H::eq(make_tuple(a, b, c) == make_tuple(long(a), b, c), false, "int against long at the start");
    H::eq(make_tuple(a, b, c) != make_tuple(a, b, long(c)), true, "!= with int against long at the end");
    H::eq(make_tuple(a, b) == make_tuple(a, b, c), false, "a prefix");
    H::eq(make_tuple(a, b, c) == make_tuple(a, b), false, "a longer tuple");
    H::eq(make_tuple(a, b, c) != make_tuple(a, b), true, "!= a longer tuple");
    H::eq(make_tuple(a, b) != make_tuple(a, b, c), true, "!= a prefix");
    H::eq(make_tuple(make_tuple(a, b), c) == make_tuple(make_tuple(a, b), c), true, "nested tuples");
    H::eq(make_tuple(make_tuple(a, b), c) == make_tuple(a, b, c), false, "nested against flat");
    H::eq(make_tuple(a) == make_tuple(make_tuple(a)), false, "nested single");
}
// N numbers; the one at position K has another arithmetic type of the same value
template <class X, std::size_t N, std::size_t K>
static void another_type(int v)
{
    auto with = [&]<class Y, std::size_t... I>(std::type_identity<Y>, std::index_sequence<I...>) {
        auto pick = [&]<std::size_t J>(std::integral_constant<std::size_t, J>) { if constexpr (J == K) return Y(v); else return int(J); };
        return pyincpp::make_tuple(pick(std::integral_constant<std::size_t, I>())...);
    };
    auto seq = std::make_index_sequence<N>();
    auto p = with(std::type_identity<int>(), seq);
    auto q = with(std::type_identity<X>(), seq);
    H::ok(!(p == q) && !(q == p) && p != q && q != p, "tuples of " + std::to_string(N) + " elements with different types at position " + std::to_string(K) + " compare equal");
    H::ok(p == p && q == q && !(p != p), "a tuple differs from itself");
}
template <class X>
static void all_positions(int v)
{
    H::at("another arithmetic type", v);
    [&]<std::size_t... J>(std::index_sequence<J...>) { (another_type<X, 1 + J / 6, std::min(J / 6, J % 6)>(v), ...); }(std::make_index_sequence<36>());
}
HARNESS_MAIN(
    for (int v : {0, 1}) if (H::mine()) all_positions<long>(v), all_positions<double>(v), all_positions<char>(v), all_positions<bool>(v), all_positions<unsigned>(v), all_positions<float>(v), all_positions<short>(v);
    while (H::more()) {
        one<>();
        one<int>(), one<std::string>(), one<Item>();
        one<int, int>(), one<int, std::string>(), one<std::string, Int>(), one<char, int>();
        one<int, int, int>(), one<Item, Item, std::string>(), one<LS, int, Fraction>();
        one<int, std::string, int, std::string>(), one<int, int, int, int>(), one<Item, Item, Item, Item>();
        one<int, int, int, int, int>(), one<std::string, int, char, Int, LS>();
        one<int, long, int, long, int, long>();
        one<int, int, int, int, int, int, int>();
        one<std::string, std::string, int, int, int, int, int, int>();
        one<int, int, int, int, int, int, int, int, int, int>();
        one<int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int>();
        types();
    })
