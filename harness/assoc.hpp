// Sets and dicts: reference models std::set / std::map, used only through lookups, against Set and Dict.
#pragma once
#include "seqs.hpp"

// elements of many kinds, made from small numbers in an order-preserving way
template <class T>
T make(int k);
template <>
inline int make<int>(int k) { return k; }
template <>
inline std::string make<std::string>(int k)
{
    std::string s(1, k < 0 ? '!' : '0');
    std::string d = std::to_string(k < 0 ? 1000000000 + k : k);
    return s + std::string(10 - d.size(), '0') + d + (k % 3 == 0 ? " and a tail that makes it long" : "");
}
template <>
inline Item make<Item>(int k) { return Item{k, 0}; }
template <>
inline Int make<Int>(int k) { return Int(k) * Int("1000000007000000009"); }
template <>
inline Str make<Str>(int k) { return Str(make<std::string>(k)); }
template <>
inline Fraction make<Fraction>(int k) { return Fraction(k, 7); }
template <>
inline LS make<LS>(int k) { return LS{make<std::string>(k), "x"}; }
// < is the reverse of the order of the numbers
struct Rev
{
    int key;
    std::string str() const { return "rev" + std::to_string(key); }
    friend bool operator==(const Rev& a, const Rev& b) { return a.key == b.key; }
    friend auto operator<=>(const Rev& a, const Rev& b) { return b.key <=> a.key; }
};
template <>
inline Rev make<Rev>(int k) { return Rev{-k}; }

inline int any_key(int m)
{
    return H::rng.p(85) ? H::rng.in(-1, m) : H::rng.in(-m, 2 * m + 3);
}
using SI = std::set<int>;
inline SI any_set(int m)
{
    SI s;
    int n = H::any_size(m), r = H::rng.p(40) ? n + 1 : H::rng.in(1, 4) * n / 2 + 2;
    for (int i = 0; i < n; ++i)
        s.insert(H::rng.in(-1, r));
    return s;
}
template <class T>
std::vector<T> members(const std::vector<int>& v)
{
    std::vector<T> r;
    for (int k : v)
        r.push_back(make<T>(k));
    return r;
}
template <class T>
std::vector<T> members(const SI& s)
{
    return members<T>(std::vector<int>(s.begin(), s.end()));
}
template <class T>
Set<T> mks(const SI& s)
{
    auto v = members<T>(s);
    if (H::rng.p(50))
        std::reverse(v.begin(), v.end());
    switch (H::rng.in(0, 3))
    {
    case 0:
        return Set<T>(v.begin(), v.end());
    case 1:
        return Set<T>(std::set<T>(v.begin(), v.end()));
    case 2:
    {
        Set<T> r;
        r.extend(v.begin(), v.end());
        return r;
    }
    default:
        Set<T> r;
        for (auto& e : v)
            H::ok(r.add(e), "add of an absent element returned false");
        return r;
    }
}
// the set must be exactly s
template <class T>
void is(const Set<T>& x, const SI& s, const char* what)
{
    auto want = members<T>(s);
    H::eq(x.size(), int(s.size()), what);
    H::eq(x.is_empty(), s.empty(), what);
    std::size_t i = 0;
    for (auto it = x.begin(); it != x.end(); ++it, ++i)
    {
        H::ok(i < want.size(), std::string(what) + ": more members than expected");
        if (!(*it == want[i]))
            H::die(std::string(what) + ": member number " + std::to_string(i) + " is not the expected one");
    }
    H::ok(i == want.size(), std::string(what) + ": fewer members than expected");
    for (auto it = x.rbegin(); it != x.rend(); ++it)
        H::ok(i > 0 && *it == want[--i], std::string(what) + ": backward iteration differs");
    H::ok(i == 0, std::string(what) + ": backward iteration stops early");
}
template <class T, class F>
void member(const T& x, int k, bool in, F key)
{
    auto it = x.find(key);
    H::eq(it != x.end(), in, "find(...) != end()");
    H::eq(x.contains(key), in, "contains(...)");
}
