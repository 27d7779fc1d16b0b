// Sequences: reference model std::vector / std::string against List, Deque and Str.
#pragma once
#include "h.hpp"
#include "pyincpp.hpp"
using namespace pyincpp;
#ifndef VARIANT
#define VARIANT 0
#endif

// an element with an identity beyond equality, so that "which of the equal ones" and "in which order" are visible
struct Item
{
    int key = 0, tag = 0;
    std::string str() const { return std::to_string(key) + "." + std::to_string(tag); }
    friend bool operator==(const Item& a, const Item& b) { return a.key == b.key; }
    friend auto operator<=>(const Item& a, const Item& b) { return a.key <=> b.key; }
};
using VI = std::vector<Item>;
inline bool same(const VI& a, const VI& b)
{
    return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](const Item& x, const Item& y) { return x.key == y.key && x.tag == y.tag; });
}

// a trivially copyable element with padding and with an identity that == does not see
struct Cell
{
    int key;
    char tag;
    std::string str() const { return std::to_string(key) + "." + std::to_string(int(tag)); }
    friend bool operator==(const Cell& a, const Cell& b) { return a.key == b.key; }
    friend auto operator<=>(const Cell& a, const Cell& b) { return a.key <=> b.key; }
};
// the element type of the run, and different elements el(0), el(1), ... of it
#if VARIANT == 1
using E = int;
inline E el(int k) { return int(k * 1000003u - 7u); }
inline std::vector<E> elements() { return {0, 1, -1, INT_MAX, INT_MIN}; }
#elif VARIANT == 2
using E = char;
inline E el(int k) { return char(k * 5 + 33); }
inline std::vector<E> elements() { return {'a', '\xff', '\0', ' ', '\x80'}; }
#elif VARIANT == 3
using E = double;
inline E el(int k) { return k * 0.1 - 3; }
inline std::vector<E> elements() { return {0.0, -0.0, 1e300, 0.5, -1.5}; }
#elif VARIANT == 4
using E = Cell;
inline E el(int k) { return Cell{k, char(k % 3)}; }
inline std::vector<E> elements() { return {{1, 0}, {2, 0}, {1, 1}, {-1, 2}, {2, 5}}; }
#elif VARIANT == 5
// an element that owns memory and is larger than a pointer
struct Big
{
    Int value;
    std::string str() const { std::ostringstream os; os << value; return os.str(); }
    friend bool operator==(const Big& a, const Big& b) { return a.value == b.value; }
    friend bool operator<(const Big& a, const Big& b) { return a.value < b.value; }
};
using E = Big;
inline E el(int k) { return {Int(k) * Int("-100000000000000000003")}; }
inline std::vector<E> elements() { return {{0}, {1}, {-1}, {Int("123456789012345678901234567890")}, {Int("-123456789012345678901234567890")}}; }
#else
using E = std::string;
inline E el(int k) { return "e" + std::to_string(k); }
inline std::vector<E> elements() { return {"a", "b", "c", "", "a long element that does not fit into the string object itself"}; }
#endif
using V = std::vector<E>;
using LS = List<E>;
using DS = Deque<E>;
#if VARIANT == 4
inline bool exactly(const Cell& a, const Cell& b) { return a.key == b.key && a.tag == b.tag; }
inline bool exactly(const V& a, const V& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](const Cell& x, const Cell& y) { return exactly(x, y); }); }
namespace H
{
inline void eq(const Cell& got, const Cell& want, const char* what) { H::ok(exactly(got, want), std::string(what) + ": got " + show(got) + ", expected " + show(want)); }
inline void eq(const V& got, const V& want, const char* what) { H::ok(exactly(got, want), std::string(what) + ": got " + show(got) + ", expected " + show(want)); }
} // namespace H
#else
template <class X>
inline bool exactly(const X& a, const X& b) { return a == b; }
#endif

inline const V& pool()
{
    static V p = elements();
    return p;
}
inline E any_e()
{
    return H::rng.p(70) ? pool()[H::rng.in(0, 1)] : H::rng.of(pool());
}
inline V any_v(int m)
{
    V v;
    int n = H::wide_size(m);
    bool distinct = H::rng.p(30);
    for (int i = 0; i < n; ++i)
        v.push_back(distinct ? el(i) : any_e());
    return v;
}
// observers between the steps of a history: a value computed once must not outlive a change
template <class L>
inline void observed(const L& l)
{
    (void)l.size(), (void)l.is_empty(), (void)(l == l);
    if constexpr (requires { l.index(*l.begin()); })
        if (l.size())
            (void)l.index(*l.begin()), (void)l.count(*l.rbegin()), (void)l.contains(*l.rbegin());
    if (l.size())
        (void)l[-1];
}
// a list with the elements v and a history of other contents
inline LS worn(const V& v)
{
    int n = v.size();
    V w = v;
    LS l;
    switch (H::rng.in(0, 6))
    {
    case 0: // sorted, then written element by element
        l = LS(w);
        l.sort();
        observed(l);
        for (int i = 0; i < n; ++i) l[i] = v[i];
        break;
    case 1: // turned twice
        std::reverse(w.begin(), w.end());
        l = LS(w);
        observed(l);
        l.reverse();
        break;
    case 2: // rotated
        if (n > 1) std::rotate(w.begin(), w.begin() + 1, w.end());
        l = LS(w);
        observed(l);
        l >>= 1;
        break;
    case 3: // one element too many
    {
        int at = H::rng.in(0, n);
        w.insert(w.begin() + at, any_e());
        l = LS(w);
        observed(l);
        l.remove(at);
        break;
    }
    case 4: // copied over a used list
        l = LS(V(H::rng.in(0, 9), any_e()));
        l.sort();
        observed(l);
        if (H::rng.p(50)) l = LS(v);
        else { const LS k(v); l = k; }
        break;
    case 5: // changed by map
    {
        l = LS(V(n, any_e()));
        l.sort();
        observed(l);
        int i = 0;
        l.map([&](E& e) { e = v[i++]; });
        break;
    }
    default: // cleared and filled
        l = LS(w);
        l.sort();
        observed(l);
        l.clear();
        l.extend(v.begin(), v.end());
    }
    if (H::rng.p(30))
    {
        LS k = l;
        observed(k);
        l.clear();
        return k;
    }
    return l;
}
// the same list with different spare capacity
inline LS mk(const V& v)
{
    if (H::rng.p(40))
        return LS(v);
    if (H::rng.p(30))
    {
        LS w = worn(v);
        if (exactly(V(w.begin(), w.end()), v)) // otherwise a step of the history is at fault, not what is being tested
            return w;
        return LS(v);
    }
    LS l;
    for (auto& e : v)
        l += e;
    if (H::rng.p(30))
    {
        V w = v;
        w.reserve(v.size() * 2 + 5);
        return LS(w);
    }
    return l;
}
inline DS mkd(const V& v)
{
    if (H::rng.p(40))
        return DS(std::deque<E>(v.begin(), v.end()));
    if (H::rng.p(25))
    {
        std::deque<E> w(v.rbegin(), v.rend());
        DS d(w);
        observed(d);
        d.reverse();
        observed(d);
        d <<= 3;
        observed(d);
        d >>= 3;
        d.push_front(any_e());
        d.pop_front();
        if (exactly(V(d.begin(), d.end()), v))
            return d;
        return DS(std::deque<E>(v.begin(), v.end()));
    }
    DS d;
    int k = H::rng.in(0, int(v.size()));
    for (int i = k - 1; i >= 0; --i)
        d.push_front(v[i]);
    for (int i = k; i < int(v.size()); ++i)
        d.push_back(v[i]);
    return d;
}
template <class L>
inline V rd(const L& l)
{
    V r;
    for (auto it = l.begin(); it != l.end(); ++it)
        r.push_back(*it);
    H::eq(l.size(), int(r.size()), "size()");
    H::eq(l.is_empty(), r.empty(), "is_empty()");
    return r;
}
inline std::string rds(const Str& s)
{
    std::string r(s.begin(), s.end());
    H::eq(s.size(), int(r.size()), "size()");
    H::eq(s.is_empty(), r.empty(), "is_empty()");
    return r;
}
// an index near the size or at the ends of int
inline int any_ix(int n)
{
    return H::rng.p(70) ? H::rng.in(-n - 2, n + 2) : H::any_int();
}
inline long long wrap(long long i, long long n)
{
    return i < 0 ? i + n : i;
}
