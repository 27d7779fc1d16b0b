// variants: 6
#include "seqs.hpp"
#include <list>
using SD = std::deque<E>;
static void check(const DS& d, const SD& m, const char* op)
{
    V r = rd(d);
    H::ok(exactly(r, V(m.begin(), m.end())), std::string(op) + ": the deque is " + H::show(r) + ", expected " + H::show(V(m.begin(), m.end())));
    H::ok(exactly(V(d.rbegin(), d.rend()), V(m.rbegin(), m.rend())), std::string(op) + ": rbegin() .. rend()");
    if (m.empty())
    {
        DS& w = const_cast<DS&>(d);
        H::throws([&] { (void)d.front(); }, "front() const of an empty deque");
        H::throws([&] { (void)d.back(); }, "back() const of an empty deque");
        H::throws([&] { (void)w.front(); }, "front() of an empty deque");
        H::throws([&] { (void)w.back(); }, "back() of an empty deque");
        H::throws([&] { w.pop_front(); }, "pop_front() of an empty deque");
        H::throws([&] { w.pop_back(); }, "pop_back() of an empty deque");
        H::eq(rd(d), V{}, "the empty deque afterwards");
    }
    else
        H::ok(&d.front() == &d[0] && &d.back() == &d[-1] && exactly(d.front(), m.front()) && exactly(d.back(), m.back()), "front() and back() are the end elements");
}
static void history(int len)
{
    V v = any_v(H::rng.p(10) ? 200 : 6);
    DS d = mkd(v);
    SD m(v.begin(), v.end());
    std::string h;
    for (int i = 0; i < len; ++i)
    {
        E e = H::rng.p(60) ? el(1000 + i) : any_e();
        V w = any_v(8);
        std::list<E> l(w.begin(), w.end());
        int op = H::rng.in(0, 13);
        h += std::to_string(op) + " ";
        H::at("from", v.size(), "elements, operations", h.size() > 120 ? h.substr(h.size() - 120) : h);
        switch (op)
        {
            case 0: d.push_back(e); m.push_back(e); break;
            case 1: d.push_front(e); m.push_front(e); break;
            case 2: case 3: case 12: if (!m.empty()) { H::eq(d.pop_back(), m.back(), "pop_back()"); m.pop_back(); } break;
            case 4: case 5: case 13: if (!m.empty()) { H::eq(d.pop_front(), m.front(), "pop_front()"); m.pop_front(); } break;
            case 6: if (H::rng.p(30)) d.extend_back(H::Once<E>(w), H::Once<E>()); else d.extend_back(w.begin(), w.end()); m.insert(m.end(), w.begin(), w.end()); break;
            case 7: if (H::rng.p(30)) d.extend_front(H::Once<E>(w), H::Once<E>()); else d.extend_front(l.begin(), l.end()); m.insert(m.begin(), l.begin(), l.end()); break;
            case 8: if (!m.empty()) { d.push_back(d.front()); m.push_back(E(m.front())); } break;
            case 9: if (!m.empty()) { d.push_front(d.back()); m.push_front(E(m.back())); } break;
            case 10: if (!m.empty()) { d.front() = e; m.front() = e; } break;
            case 11: if (!m.empty()) { d.back() = e; m.back() = e; } break;
        }
        check(d, m, "after the last operation");
        if (H::rng.p(2)) { d.clear(); m.clear(); check(d, m, "clear"); }
    }
}
HARNESS_MAIN(
    if (H::mine()) { check(DS(), {}, "Deque()"); V v{el(0), el(1), el(2)}; check(DS{v[0], v[1]}, {v[0], v[1]}, "initializer list"); check(DS(v.begin(), v.end()), SD(v.begin(), v.end()), "Deque(first, last)"); check(DS(H::Once<E>(v), H::Once<E>()), SD(v.begin(), v.end()), "Deque(first, last) of input iterators"); }
    while (H::more()) history(H::rng.in(1, H::rng.p(10) ? 200 : 12));)
