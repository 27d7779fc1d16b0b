#include "ints.hpp"
static bool prime(long n)
{
    if (n < 2) return false;
    for (long d = 2; d * d <= n; ++d)
        if (n % d == 0) return false;
    return true;
}
static void one(long n, bool next = true)
{
    H::at("n =", n);
    const Int x = mk(Z(n));
    H::eq(x.is_prime(), prime(n), "is_prime");
    if (next)
    {
        long p = n < 2 ? 2 : n + 1;
        while (!prime(p)) ++p;
        same(H::calm([&] { return x.next_prime(); }, "next_prime"), p, "next_prime");
    }
    same(x, n, "operand afterwards");
}
HARNESS_MAIN(
    for (long n = -30; n <= 2500; ++n) if (H::mine()) one(n);
    for (long long d : H::dict_ints) for (long k = -2; k <= 2; ++k) if (d + k <= 200000 && d + k >= -1000000 && H::mine()) one(d + k);
    for (long n : {29341L, 46657L, 75361L, 115921L, 162401L, 252601L, 294409L, 314821L, 340561L, 399001L, 410041L, 488881L, 512461L, 1024651L, 1152271L, 1373653L, 1530787L, 1987021L, 2284453L, 3116107L, 25326001L, 56052361L, 118901521L, 3215031751L}) if (H::mine()) one(n, false);   // strong pseudoprimes and Carmichael numbers
    { std::vector<long> ps; for (long p = 2; p < 400; ++p) if (prime(p)) ps.push_back(p);
      for (long p : ps) for (long q : ps) if (p <= q && q < p + 14 && H::mine()) one(p * q);
      for (long long d : H::dict_ints) if (d > 1 && d < 2000 && H::mine()) { one(d * d); for (long p : ps) if (p < 60) one(d * p); } }
    while (H::more()) {
        one(H::rng.in(0, 30000));
        if (H::rng.p(10)) one(H::rng.in(0, 2000000), false);
        if (H::rng.p(20)) { Z z = any_z(30); if (z > 0) z = -z; H::at("n =", z); H::eq(mk(z).is_prime(), false, "is_prime of a non-positive number"); same(mk(z).next_prime(), 2, "next_prime of a non-positive number"); }
        if (H::rng.p(20)) { Z z = zabs(any_z(40)) * 2 + 4; H::at("n =", z); H::eq(mk(z).is_prime(), false, "is_prime of an even number"); }
    })
