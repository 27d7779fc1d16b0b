#include "ints.hpp"
static void proper(const Int& x, int d)
{
    std::string t = H::text(x);
    if (d >= 0)
        H::ok(x.digits() == d, "random(d) has " + std::to_string(x.digits()) + " digits");
    Z v = val(x);
    H::ok(v >= 0, "random is negative");
    H::ok(int(v == 0 ? 0 : t.size()) == x.digits(), "digits() and the printed text disagree");
    if (d < 300)
    {
        same(x, v, "random");
        same(x + Int(1), v + 1, "random + 1");
        same(-x, -v, "-random");
        same(x - I(t), 0, "random - same");
        H::ok(std::hash<Int>{}(x) == std::hash<Int>{}(I(t)), "hash differs from the same integer made from text");
        H::ok(!(x < I(t)) && !(x > I(t)), "order against the same integer made from text");
    }
}
HARNESS_MAIN(
    for (int rep = 0; rep < 40; ++rep)
        for (int d = 0; d <= 64; ++d) { H::at("random", d, "repetition", rep); proper(H::calm([&] { return Int::random(d); }, "random"), d); }
    for (int k : H::ints())
    {
        if (k < -1) { H::at("random", k); H::throws([&] { (void)Int::random(k); }, "random of a negative number of digits"); }
        else if (k >= 0 && k < 20000) { H::at("random", k); proper(Int::random(k), k); }
    }
    while (H::more()) {
        int d = H::any_size(400);
        H::at("random", d);
        proper(Int::random(d), d);
        for (int i = 0; i < 30; ++i) { H::at("random", i % 4); proper(Int::random(i % 4), i % 4); }
        H::at("random without an argument");
        Int x = H::calm([&] { return Int::random(); }, "random()");
        H::ok(x.digits() >= 0 && x.digits() <= 4300, "random() has a wrong number of digits");
        proper(x, -1);
        H::at("random(-1)");
        Int y = H::calm([&] { return Int::random(-1); }, "random(-1)");
        H::ok(y.digits() <= 4300, "random(-1) has a wrong number of digits");
    })
