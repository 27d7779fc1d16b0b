#include "pyincpp.hpp"
namespace pyincpp_probe {
#ifndef Elem          // -DElem=int: the same probes at an arithmetic element type
#ifdef OWNING         // -DOWNING: at a class with its own copy, move and destruction
struct Elem { int id; Elem(); Elem(const Elem&); Elem(Elem&&) noexcept; Elem& operator=(const Elem&); Elem& operator=(Elem&&) noexcept; ~Elem(); bool operator==(const Elem&) const; bool operator<(const Elem&) const; };
#else
struct Elem { int id; bool operator==(const Elem&) const; bool operator<(const Elem&) const; };   // uninterpreted
#endif
#endif
struct Pred { bool operator()(const Elem&) const; };
struct Act { void operator()(Elem&) const; };
#ifndef Elem
std::ostream& operator<<(std::ostream&, const Elem&);
#endif
struct Val { int id; bool operator==(const Val&) const; bool operator<(const Val&) const; };     // uninterpreted
std::ostream& operator<<(std::ostream&, const Val&);
}
#ifndef Elem
using pyincpp_probe::Elem;
#endif
using pyincpp_probe::Val;
template class pyincpp::List<Elem>;
template class pyincpp::Deque<Elem>;
template class pyincpp::Set<Elem>;
template class pyincpp::Dict<Elem, Val>;
// member templates, instantiated by use
void probe_int(const pyincpp::Int& i)
{
    (void)i.to_integer<int>();
    (void)i.to_integer<long long>();
    (void)std::hash<pyincpp::Int>{}(i);
    (void)pyincpp::Int::gcd(i, i);
}
void probe_fraction(const pyincpp::Fraction& f)
{
    (void)(f == f);
    (void)std::hash<pyincpp::Fraction>{}(f);
}
void probe_complex(const pyincpp::Complex& c)
{
    (void)(c == c);
    (void)std::hash<pyincpp::Complex>{}(c);
}
void probe_str(const pyincpp::Str& s)
{
    (void)std::hash<pyincpp::Str>{}(s);
}

void probe_list(pyincpp::List<Elem>& l, const Elem* a, const Elem* b, std::ostream& os)
{
    pyincpp::List<Elem> m(a, b);
    l.extend(a, b);
    l.map(pyincpp_probe::Act{});
    l.filter(pyincpp_probe::Pred{});
    os << l; (void)(l == m); (void)(l != m); (void)(l < m); (void)(l > m); (void)(l <= m); (void)(l >= m); (void)(l <=> m);
}
namespace pyincpp_probe {
void list_sort(pyincpp::List<Elem>& l) { l.sort(); }
}
namespace pyincpp_probe {
void deque_members(pyincpp::Deque<Elem>& d, const Elem* a, const Elem* b, std::ostream& os)
{
    pyincpp::Deque<Elem> m(a, b);
    d.extend_back(a, b);
    d.extend_front(a, b);
    os << d;
    (void)(d == m); (void)(d != m); (void)(d < m); (void)(d > m); (void)(d <= m); (void)(d >= m); (void)(d <=> m);
}
}
namespace pyincpp_probe {
void str_members(const pyincpp::Str& s, std::ostream& os, std::istream& is, pyincpp::Str& t)
{
    pyincpp::Str u(s);
    t = s;
    os << s;
    is >> t;
    (void)(s == u); (void)(s != u); (void)(s < u); (void)(s > u); (void)(s <= u); (void)(s >= u); (void)(s <=> u);
    (void)s.format();
    const Elem* e = nullptr;
    (void)s.format(*e);
    (void)s.format(*e, *e);
}
}
namespace pyincpp_probe {
void set_members(pyincpp::Set<Elem>& s, const Elem* a, const Elem* b, std::ostream& os)
{
    pyincpp::Set<Elem> m(a, b);
    s.extend(a, b);
    (void)(s == m);
    os << s;
    m = s;
}
void dict_members(pyincpp::Dict<Elem, Val>& d, const pyincpp::Pair<Elem, Val>* a, const pyincpp::Pair<Elem, Val>* b, std::ostream& os)
{
    pyincpp::Dict<Elem, Val> m(a, b);
    d.extend(a, b);
    (void)(d == m);
    os << d;
    m = d;
}
}
namespace pyincpp_probe {
struct Tail { bool operator==(const Tail&) const; };   // uninterpreted
}
// Tuple<Tail>: a tuple of unknown length and types.  Tuple<Elem, Tail> is the inductive step for tuples of any length.
template <>
class pyincpp::Tuple<pyincpp_probe::Tail>
{
public:
    pyincpp_probe::Tail value_;
    bool operator==(const Tuple<pyincpp_probe::Tail>&) const;
    bool operator!=(const Tuple<pyincpp_probe::Tail>&) const;
    template <int I> pyincpp_probe::Tail get() const;
    int size() const;
};
namespace pyincpp_probe {
using pyincpp::Tuple;
void tuple_step(const Tuple<Elem, Tail>& et, const Tuple<Val, Tail>& vt)
{
    (void)(et == et), (void)(et == vt), (void)(vt == et), (void)(et != et), (void)(et != vt);
    (void)et.get<0>(), (void)et.get<1>(), (void)et.rest();
}
// arithmetic elements, whose types convert into one another
void tuple_arithmetic(const Tuple<int, long, double, char, bool>& a, const Tuple<double, long, double, char, bool>& b, const Tuple<int, long, double, char, int>& c, const Tuple<int, int, double, char, bool>& d, const Tuple<int, int>& e, const Tuple<int, long>& f, const Tuple<bool, int>& g)
{
    auto with = [&](const auto& t) { (void)(t == a), (void)(t == b), (void)(t == c), (void)(t == d), (void)(t == e), (void)(t == f), (void)(t == g), (void)(t != a), (void)(t != b), (void)(t != e), (void)(t != f); };
    with(a), with(b), with(c), with(d), with(e), with(f), with(g);
}
void tuple_compare(const Tuple<>& z, const Tuple<Elem>& e, const Tuple<Val>& v, const Tuple<Elem, Val>& ev, const Tuple<Val, Elem>& ve, const Tuple<Elem, Elem>& ee, const Tuple<Elem, Val, Elem>& eve, const Tuple<Val, Elem, Val, Elem>& veve)
{
    auto with = [&](const auto& t)
    {
        (void)(t == z), (void)(t == e), (void)(t == v), (void)(t == ev), (void)(t == ve), (void)(t == ee), (void)(t == eve), (void)(t == veve);
        (void)(t != z), (void)(t != e), (void)(t != v), (void)(t != ev), (void)(t != ve), (void)(t != ee), (void)(t != eve), (void)(t != veve);
        (void)t.size();
    };
    with(z), with(e), with(v), with(ev), with(ve), with(ee), with(eve), with(veve);
    (void)e.get<0>();
    (void)ev.get<0>(), (void)ev.get<1>(), (void)ee.get<0>(), (void)ee.get<1>();
    (void)eve.get<0>(), (void)eve.get<1>(), (void)eve.get<2>();
    (void)veve.get<0>(), (void)veve.get<1>(), (void)veve.get<2>(), (void)veve.get<3>();
    (void)e.rest(), (void)ev.rest(), (void)eve.rest(), (void)veve.rest();
}
void tuple_make(const Elem& a, const Val& b, const Elem& c, const Val& d, std::ostream& os)
{
    os << pyincpp::make_tuple() << pyincpp::make_tuple(a) << pyincpp::make_tuple(a, b) << pyincpp::make_tuple(a, c) << pyincpp::make_tuple(b, a) << pyincpp::make_tuple(b) << pyincpp::make_tuple(a, b, c) << pyincpp::make_tuple(d, a, b, c);
}
}
namespace pyincpp_probe {
// what a user does with copies and moves, for every type of the library
#define COPIES(...) \
    inline __VA_ARGS__ copied(const __VA_ARGS__& a) { return __VA_ARGS__(a); } \
    inline __VA_ARGS__ moved(__VA_ARGS__& a) { return __VA_ARGS__(std::move(a)); } \
    inline void assigned(__VA_ARGS__& a, const __VA_ARGS__& b) { a = b; } \
    inline void move_assigned(__VA_ARGS__& a, __VA_ARGS__& b) { a = std::move(b); } \
    inline void copy_changed(const __VA_ARGS__& a, const __VA_ARGS__& b) { __VA_ARGS__ c(a); c = b; } \
    inline void original_changed(__VA_ARGS__& a, const __VA_ARGS__& b, __VA_ARGS__& to) { to = a; a = b; }
COPIES(pyincpp::Int)
COPIES(pyincpp::Fraction)
COPIES(pyincpp::Complex)
COPIES(pyincpp::Str)
COPIES(pyincpp::List<Elem>)
COPIES(pyincpp::Deque<Elem>)
COPIES(pyincpp::Set<Elem>)
COPIES(pyincpp::Dict<Elem, Val>)
COPIES(pyincpp::Tuple<>)
COPIES(pyincpp::Tuple<Elem>)
COPIES(pyincpp::Tuple<Elem, Val, Elem>)
}
