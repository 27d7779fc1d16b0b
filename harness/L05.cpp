// variants: 6
#include "seqs.hpp"
static void rot(int n, int k)
{
    H::at("rotate", n, "elements by", k);
    V v;
    std::string s;
    for (int i = 0; i < n; ++i)
        v.push_back(el(i)), s += char(33 + i * 7 % 200);
    V l = v, r = v;
    std::string sl = s, sr = s;
    for (long long i = 0; i < n; ++i)
    {
        long long a = ((i + k) % n + n) % n, b = ((i - (long long)k) % n + n) % n;
        l[i] = v[a], r[i] = v[b], sl[i] = s[a], sr[i] = s[b];
    }
    LS x = mk(v), y = mk(v), z = mk(v);
    H::ok(&(x <<= k) == &x && &(y >>= k) == &y && &z.reverse() == &z, "the list's compound forms return the list");
    H::eq(rd(x), l, "List <<= k");
    H::eq(rd(y), r, "List >>= k");
    H::eq(rd(z), V(v.rbegin(), v.rend()), "List::reverse()");
    DS p = mkd(v), q = mkd(v), t = mkd(v);
    H::ok(&(p <<= k) == &p && &(q >>= k) == &q && &t.reverse() == &t, "the deque's compound forms return the deque");
    H::eq(rd(p), l, "Deque <<= k");
    H::eq(rd(q), r, "Deque >>= k");
    H::eq(rd(t), V(v.rbegin(), v.rend()), "Deque::reverse()");
#if VARIANT == 0
    // elements that compare equal and are still told apart
    VI vi, li, ri;
    for (int i = 0; i < n; ++i) vi.push_back({i % 2, i});
    for (long long i = 0; i < n; ++i)
        li.push_back(vi[((i + k) % n + n) % n]), ri.push_back(vi[((i - (long long)k) % n + n) % n]);
    auto its = [](const auto& c) { return VI(c.begin(), c.end()); };
    List<Item> xi(vi), yi(vi), zi(vi);
    Deque<Item> pi, qi, ti;
    for (auto& e : vi) pi.push_back(e), qi.push_back(e), ti.push_back(e);
    const VI vr(vi.rbegin(), vi.rend());
    H::ok(same(its(xi <<= k), li) && same(its(yi >>= k), ri) && same(its(zi.reverse()), vr), "List of elements that compare equal: moved elements");
    H::ok(same(its(pi <<= k), li) && same(its(qi >>= k), ri) && same(its(ti.reverse()), vr), "Deque of elements that compare equal: moved elements");
#endif
    const Str c(s);
    H::eq(rds(c << k), sl, "Str << k");
    H::eq(rds(c >> k), sr, "Str >> k");
    H::eq(rds(c.reverse()), std::string(s.rbegin(), s.rend()), "Str::reverse()");
    H::eq(rds(c), s, "string afterwards");
}
HARNESS_MAIN(
    for (int n = 0; n <= 6; ++n) for (int k = -20; k <= 20; ++k) if (H::mine()) rot(n, k);
    for (int n = 0; n <= 9; ++n) for (int k : H::ints()) if (H::mine()) rot(n, k);
    while (H::more()) rot(H::any_size(H::rng.p(5) ? 1200 : 40), H::any_int());)
