// Generator and oracle of big integers (boost::multiprecision::cpp_int).
#pragma once
#include "h.hpp"
#include "pyincpp.hpp"
#include <boost/multiprecision/cpp_int.hpp>

using Z = boost::multiprecision::cpp_int;
using pyincpp::Int;

inline Z pow10(int n)
{
    return boost::multiprecision::pow(Z(10), n);
}
inline Z any_len(int maxdig)
{
    int n = H::any_size(maxdig);
    std::string s;
    int mode = H::rng.in(0, 6);
    for (int i = 0; i < n; ++i)
    {
        char c = '0' + H::rng.in(0, 9);
        switch (mode)
        {
        case 0: c = '9'; break;
        case 1: c = i ? '0' : '1'; break;
        case 2: c = H::rng.p(80) ? '0' : c; break;
        case 3: c = H::rng.p(80) ? '9' : c; break;
        case 4: c = i && H::rng.p(90) ? s.back() : c; break;
        }
        if (i == 0 && c == '0')
            c = '1';
        s += c;
    }
    Z z = s.empty() ? Z(0) : Z(s);
    if (mode == 1 && H::rng.p(50))
        z += H::rng.in(-3, 3);
    return z;
}
inline Z any_z(int maxdig = 60)
{
    int k = H::rng.in(0, 19);
    Z z;
    if (k < 4)
        z = H::rng.in(-30, 30);
    else if (k < 6)
        z = Z(H::any_int());
    else if (k == 6 && !H::dict_ints.empty())
        z = Z(H::rng.of(H::dict_ints)) + H::rng.in(-1, 1);
    else if (k == 7)
        z = (Z(1) << H::rng.in(0, 70)) + H::rng.in(-1, 1);
    else if (k == 8 && !H::dict_strs.empty())
    {
        const std::string& s = H::rng.of(H::dict_strs);
        std::string d;
        for (char c : s)
            if (c >= '0' && c <= '9' && d.size() < 60u)
                d += c;
        z = d.empty() ? Z(7) : Z(d.substr(std::min(d.size() - 1, d.find_first_not_of('0'))));
    }
    else
        z = any_len(maxdig);
    return H::rng.p(50) ? z : Z(-z);
}
inline Z zabs(const Z& z)
{
    return z < 0 ? Z(-z) : z;
}
// a second operand related to the first
inline Z any_rel(const Z& a, int maxdig = 60)
{
    switch (H::rng.in(0, 13))
    {
    case 0: return a;
    case 1: return -a;
    case 2: return a + H::rng.in(-2, 2);
    case 3: return -a + H::rng.in(-2, 2);
    case 4: return a * 10;
    case 5: return a / 10;
    case 6: return a / pow10(H::rng.in(0, 12));
    case 7: {
        std::string t = zabs(a).str();
        Z b = pow10(int(t.size())) - zabs(a); // complement: the carry runs through
        return a < 0 ? Z(-b) : b;
    }
    default: return any_z(maxdig);
    }
}
inline Int I(const std::string& s)
{
    return Int(s.c_str());
}
// observers between the steps of a history: a value computed once must not outlive a change
inline void observed(const Int& i)
{
    (void)i.digits(), (void)i.is_even(), (void)(i == i), (void)(i < i), (void)std::hash<Int>{}(i), (void)H::text(i);
}
inline Int worn(const Z& z)
{
    Int r;
    Z d = H::rng.in(1, 99);
    switch (H::rng.in(0, 6))
    {
    case 0: r = I(Z(z - 1).str()); observed(r); ++r; break;
    case 1: r = I(Z(z + 1).str()); observed(r); --r; break;
    case 2: r = I(Z(z - d).str()); observed(r); r += I(d.str()); break;
    case 3: r = I(Z(z + d).str()); observed(r); r -= I(d.str()); break;
    case 4: r = I(Z(z * d).str()); observed(r); r /= I(d.str()); break;
    case 5: r = I(d.str()); observed(r); r = I(z.str()); break;
    default: { r = I(d.str()); observed(r); Int t = I(z.str()); observed(t); r = std::move(t); break; }
    }
    return r;
}
// the library's integer of the same value, made in one of several ways
inline Int mk(const Z& z, int how = -1)
{
    std::string s = z.str();
    if (how < 0)
        how = H::rng.in(0, 9);
    if (how == 1)
        return -I(Z(-z).str());
    if (how == 2)
        return I((z < 0 ? "-00" : "+0") + zabs(z).str());
    if (how == 3 && z >= INT_MIN && z <= INT_MAX)
        return Int(z.convert_to<int>());
    if (how == 4)
    {
        Int r = worn(z);
        if (H::text(r) == s) // otherwise a step of the history is at fault, not what is being tested
            return r;
    }
    return I(s);
}
// exact value through the printed text; also a well-formed integer
inline Z val(const Int& i)
{
    std::string t = H::text(i);
    bool canon = !t.empty();
    std::size_t k = t[0] == '-' ? 1 : 0;
    canon = canon && t.size() > k && (t[k] != '0' || (t == "0"));
    for (std::size_t j = k; j < t.size(); ++j)
        canon = canon && t[j] >= '0' && t[j] <= '9';
    H::ok(canon, "the result prints as " + H::quoted(t) + ", which is not a canonical integer");
    return Z(t);
}
inline void same(const Int& i, const Z& want, const char* what)
{
    Z v = val(i);
    if (v != want)
        H::die(std::string(what) + ": got " + v.str() + ", expected " + want.str());
    // the result behaves as an integer of that value
    H::ok((i == I(want.str())), std::string(what) + ": result is not == to the same integer made from text");
    H::ok(i.digits() == (want == 0 ? 0 : int(zabs(want).str().size())), std::string(what) + ": digits() of the result is wrong");
    H::ok(i.is_zero() == (want == 0) && i.is_negative() == (want < 0) && i.is_positive() == (want > 0), std::string(what) + ": sign of the result is wrong");
}
// truncated division
inline std::pair<Z, Z> tdiv(const Z& a, const Z& b)
{
    return {a / b, a % b}; // cpp_int truncates toward zero
}
