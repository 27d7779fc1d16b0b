// Mini-framework of the concrete stage: runs the real headers of /repo under ASan + UBSan against independent oracles.
// A failing case is printed as "FAIL <case> :: <message>" and ends the process with exit code 1.
#pragma once
#include <algorithm>
#include <chrono>
#include <climits>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/time.h>
#include <type_traits>
#include <unistd.h>
#include <unordered_set>
#include <memory>
#include <vector>

extern "C" void __sanitizer_set_death_callback(void (*)(void));

namespace H
{
inline std::string cur = "start-up";
inline volatile unsigned long tick = 0;
inline unsigned long evals = 0, expected_throws = 0;
inline std::unordered_set<std::size_t> distinct;
inline std::vector<std::string> samples;
inline int shard = 0, nshards = 1;
inline double secs = 5;
inline std::chrono::steady_clock::time_point t0;
inline std::vector<long long> dict_ints;
inline std::vector<std::string> dict_strs;
inline unsigned long seed = 1;
inline std::set<std::string> reported;

inline double elapsed()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
}
inline bool more()
{
    return elapsed() < secs;
}

inline void out(const std::string& s)
{
    std::size_t k = 0;
    while (k < s.size())
    {
        ssize_t w = ::write(1, s.data() + k, s.size() - k);
        if (w <= 0)
            break;
        k += w;
    }
}

[[noreturn]] inline void die(const std::string& msg)
{
    out("FAIL " + cur + " :: " + msg + "\n");
    _exit(1);
}

inline void on_death()
{
    out("FAIL " + cur + " :: sanitizer report (memory error or undefined behaviour)\n");
}
inline void on_abort(int s)
{
    out("FAIL " + cur + " :: the process was killed by signal " + std::to_string(s) + "\n");
    _exit(1);
}
inline void on_alarm(int)
{
    static unsigned long last = 0;
    static int same = 0;
    if (tick == last)
    {
        if (++same >= 30)
        {
            out("FAIL " + cur + " :: does not return within 30 s\n");
            _exit(1);
        }
    }
    else
    {
        last = tick;
        same = 0;
    }
}

// ---------------------------------------------------------------- random numbers
struct Rng
{
    std::uint64_t s;
    std::uint64_t next()
    {
        std::uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    int in(int lo, int hi)
    {
        return lo + int(next() % (std::uint64_t(long(hi) - lo + 1)));
    }
    bool p(int pct)
    {
        return int(next() % 100) < pct;
    }
    template <class V>
    const auto& of(const V& v)
    {
        return v[next() % v.size()];
    }
};
inline Rng rng{1};

// ---------------------------------------------------------------- descriptions
inline std::string quoted(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
            r += '\\', r += char(c);
        else if (c < 32 || c > 126)
        {
            char b[8];
            std::snprintf(b, 8, "\\x%02x", c);
            r += b;
        }
        else
            r += char(c);
    }
    return r + "\"";
}
inline std::string show(const std::string& s)
{
    return quoted(s);
}
inline std::string show(const char* s)
{
    return s;
}
inline std::string show(char c)
{
    return quoted(std::string(1, c));
}
inline std::string show(bool b)
{
    return b ? "true" : "false";
}
inline std::string show(double d)
{
    char b[40];
    std::snprintf(b, 40, "%.17g", d);
    return b;
}
template <class T>
    requires std::is_integral_v<T>
std::string show(T x)
{
    return std::to_string(x);
}
template <class T>
concept Strm = requires(const T& t) { t.str(); };
template <Strm T>
std::string show(const T& t) // multiprecision numbers
{
    return t.str();
}

template <class A, class B>
std::string show(const std::pair<A, B>& p);
template <class T>
std::string show(const std::vector<T>& v)
{
    std::string r = "[";
    for (std::size_t i = 0; i < v.size(); ++i)
        r += (i ? "," : "") + show(v[i]);
    return r + "]";
}
template <class T>
std::string show(const std::deque<T>& v)
{
    return show(std::vector<T>(v.begin(), v.end()));
}
template <class T>
std::string show(const std::set<T>& v)
{
    return show(std::vector<T>(v.begin(), v.end()));
}
template <class A, class B>
std::string show(const std::pair<A, B>& p)
{
    return show(p.first) + ":" + show(p.second);
}
template <class A, class B>
std::string show(const std::map<A, B>& v)
{
    std::string r = "{";
    for (auto& p : v)
        r += show(p) + ",";
    return r + "}";
}
template <class... A>
inline void at(const A&... a)
{
    cur.clear();
    ((cur += show(a), cur += ' '), ...);
    tick = tick + 1;
    ++evals;
    if (distinct.size() < 200000)
        if (distinct.insert(std::hash<std::string>{}(cur)).second && samples.size() < 12 && (evals < 3 || (evals & (evals - 1)) == 0))
            samples.push_back(cur.substr(0, 200));
}

inline void ok(bool c, const std::string& msg)
{
    if (!c)
        die(msg);
}
template <class X, class Y>
inline void eq(const X& got, const Y& want, const char* what)
{
    if (!(got == want))
        die(std::string(what) + ": got " + show(got) + ", expected " + show(want));
}

// f must throw std::runtime_error
template <class F>
inline void throws(F f, const char* what)
{
    ++expected_throws;
    try
    {
        f();
    }
    catch (const std::runtime_error&)
    {
        return;
    }
    catch (const std::exception& e)
    {
        die(std::string(what) + ": threw something that is not std::runtime_error: " + e.what());
    }
    catch (...)
    {
        die(std::string(what) + ": threw something that is not a std::exception");
    }
    die(std::string(what) + ": must throw std::runtime_error, but returned");
}
// f must not throw
template <class F>
inline decltype(auto) calm(F f, const char* what)
{
    try
    {
        return f();
    }
    catch (const std::exception& e)
    {
        die(std::string(what) + ": threw " + e.what());
    }
    catch (...)
    {
        die(std::string(what) + ": threw");
    }
}

// a failure of a specific, named input that may be listed as a known finding; the run goes on
inline void finding(bool good, const std::string& key, const std::string& msg)
{
    if (!good && reported.insert(key).second)
        out("FINDING " + key + " :: " + msg + "\n");
}

template <class T>
inline std::string text(const T& x)
{
    std::ostringstream os;
    os << x;
    return os.str();
}

// the shard's part of an exhaustive enumeration
inline unsigned long ectr = 0;
inline bool mine()
{
    return int(ectr++ % nshards) == shard;
}

// ---------------------------------------------------------------- small ints of interest
inline const std::vector<int>& ints()
{
    static std::vector<int> v = [] {
        std::vector<int> r{INT_MIN, INT_MIN + 1, INT_MIN + 2, INT_MAX, INT_MAX - 1, -46341, 46340, 46341, -65536, 65535, 65536, 1 << 30, -(1 << 30), 1000000007, -1000000007, 999999999, 1000000000, 715827882, 1431655765};
        for (int i = -12; i <= 12; ++i)
            r.push_back(i);
        for (long long d : dict_ints)
            for (long long k = -1; k <= 1; ++k)
                if (d + k >= INT_MIN && d + k <= INT_MAX)
                {
                    r.push_back(int(d + k));
                    if (-(d + k) <= INT_MAX && -(d + k) >= INT_MIN)
                        r.push_back(int(-(d + k)));
                }
        return r;
    }();
    return v;
}
inline int any_int()
{
    int k = rng.in(0, 9);
    if (k < 3)
        return rng.in(-20, 20);
    if (k < 6)
        return rng.of(ints());
    if (k < 8)
    {
        int b = rng.in(1, 31);
        int v = int(rng.next() >> (64 - b));
        return rng.p(50) ? v : -v;
    }
    return int(std::uint32_t(rng.next()));
}
// sizes worth trying, at most m
// an input iterator: the sequence can be traversed once only, whoever does it
template <class T>
struct Once
{
    using iterator_category = std::input_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = const T*;
    using reference = const T&;
    struct State { std::vector<T> v; std::size_t i = 0; };
    std::shared_ptr<State> s;
    Once() = default;
    explicit Once(const std::vector<T>& v) : s(std::make_shared<State>(State{v, 0})) {}
    bool over() const { return !s || s->i >= s->v.size(); }
    reference operator*() const { return s->v[s->i]; }
    pointer operator->() const { return &s->v[s->i]; }
    Once& operator++() { ++s->i; return *this; }
    struct Kept { T x; const T& operator*() const { return x; } };
    Kept operator++(int) { Kept k{s->v[s->i]}; ++s->i; return k; }
    friend bool operator==(const Once& a, const Once& b) { return a.over() == b.over(); }
};
inline int any_size(int m)
{
    int k = rng.in(0, 9);
    if (k < 5)
        return rng.in(0, std::min(m, 6));
    if (k < 7)
        return rng.in(0, std::min(m, 20));
    if (k < 8 && !dict_ints.empty())
    {
        long long d = rng.of(dict_ints);
        d = (d < 0 ? -d : d) + rng.in(-1, 1);
        if (d >= 0 && d <= m)
            return int(d);
    }
    return rng.in(0, m);
}
// where m is already large: now and then much larger
inline int wide_size(int m)
{
    return m >= 200 && rng.p(3) ? rng.in(m, 16 * m) : any_size(m);
}
inline char any_char()
{
    int k = rng.in(0, 9);
    if (k < 4)
        return "ab"[rng.in(0, 1)];
    if (k < 6)
        return " \t\n\r\v\f{}.,:-+0129eEzZ@[`"[rng.in(0, 24)];
    if (k < 7 && !dict_strs.empty())
    {
        const std::string& s = rng.of(dict_strs);
        if (!s.empty())
            return s[rng.next() % s.size()];
    }
    return char(rng.next());
}
inline std::string any_str(int m, int alphabet = 0)
{
    int n = wide_size(m);
    std::string s;
    int mode = alphabet ? alphabet : rng.in(1, 4);
    for (int i = 0; i < n; ++i)
        s += mode == 1 ? 'a' : mode == 2 ? char('a' + rng.in(0, 1)) : mode == 3 ? any_char() : char('a' + rng.in(0, 2));
    if (!alphabet && !dict_strs.empty() && rng.p(12))
        s.insert(rng.next() % (s.size() + 1), rng.of(dict_strs));
    return s;
}

inline void init()
{
    if (auto e = std::getenv("H_SHARD"))
        std::sscanf(e, "%d/%d", &shard, &nshards);
    if (auto e = std::getenv("H_SECS"))
        secs = std::atof(e);
    if (auto e = std::getenv("H_SEED"))
        seed = std::strtoul(e, nullptr, 10);
    rng.s = seed * 1000003 + 7919 * shard;
    if (auto e = std::getenv("H_DICT"))
    {
        std::ifstream f(e, std::ios::binary);
        std::string line;
        while (std::getline(f, line))
        {
            if (line[0] == 'i')
                dict_ints.push_back(std::strtoll(line.c_str() + 2, nullptr, 10));
            else if (line[0] == 's') // hex
            {
                std::string s;
                for (std::size_t k = 2; k + 1 < line.size(); k += 2)
                    s += char(std::stoi(line.substr(k, 2), nullptr, 16));
                dict_strs.push_back(s);
            }
        }
    }
    t0 = std::chrono::steady_clock::now();
    __sanitizer_set_death_callback(on_death);
    std::signal(SIGABRT, on_abort);
    std::signal(SIGFPE, on_abort);
    std::signal(SIGALRM, on_alarm);
    std::signal(SIGPIPE, SIG_IGN);
    itimerval it{{1, 0}, {1, 0}};
    setitimer(ITIMER_REAL, &it, nullptr);
}
inline int finish()
{
    std::ostringstream os;
    os << "STATS evals=" << evals << " distinct=" << distinct.size() << " throws=" << expected_throws << "\n";
    for (auto& s : samples)
        os << "SAMPLE " << s << "\n";
    out(os.str());
    _exit(0);
}
} // namespace H

#define HARNESS_MAIN(...)                  \
    int main()                             \
    {                                      \
        H::init();                         \
        try                                \
        {                                  \
            __VA_ARGS__;                   \
        }                                  \
        catch (const std::exception& e)    \
        {                                  \
            H::die(std::string("unexpected exception: ") + e.what()); \
        }                                  \
        return H::finish();                \
    }
