"""Proofs of the lemmas used by theory.py and the contracts, from the definitions of the specification
functions, by induction.  Every entry is a list of verification conditions (name, hypotheses, goal); each is
discharged by z3 or cvc5 on every run.  An induction proof has the hypothesis of the smaller case among its
hypotheses, instantiated where it is needed (over all arrays: the statements are closed under renaming).
"""
import z3
from z3 import (And, Or, Not, Implies, If, IntVal, Int, Ints, Function, IntSort, BoolSort, Array, Store, Select, Const, ForAll, Exists, K)
from .theory import *

LEMMAS = {}


def lem(name):
    def deco(f):
        LEMMAS[name] = f
        return f
    return deco


a, b, s_ = Array("a", I, I), Array("b", I, I), Array("s", I, I)
n, m, k, i, j, v, x, y, q, r, c, d, h, lo, hi, p, e, g = Ints("n m k i j v x y q r c d h lo hi p e g")


# ---- definitions, unfolded where asked
def dP10(t):
    return P10(t) == If(t <= 0, IntVal(1), 10 * P10(t - 1))


def dP(A, t):
    return P(A, t) == If(t <= 0, IntVal(0), P(A, t - 1) + Select(A, t - 1) * P10(t - 1))


def dPOW(B_, t):
    return POW(B_, t) == If(t <= 0, IntVal(1), B_ * POW(B_, t - 1))


def dTXT(A, l, t):
    return TXTV(A, l, t) == If(t <= l, IntVal(0), 10 * TXTV(A, l, t - 1) + Select(A, t - 1) - 48)


def ab(t):
    return If(t >= 0, t, -t)


def dT(A, B_):
    """the defining property of truncated division (b != 0)"""
    Q, R_ = TDIV(A, B_), TMOD(A, B_)
    return Implies(B_ != 0, And(A == Q * B_ + R_, R_ < ab(B_), -R_ < ab(B_), Implies(A >= 0, R_ >= 0), Implies(A <= 0, R_ <= 0)))


def digs(A, t, *at):
    return [Implies(And(0 <= u, u < t), And(Select(A, u) >= 0, Select(A, u) <= 9)) for u in at]


@lem("p10_pos")
def _():
    return [("base", [n <= 0, dP10(n)], P10(n) >= 1), ("step", [n > 0, dP10(n), P10(n - 1) >= 1], P10(n) >= 1)]


@lem("p10_mono")
def _():
    # b >= 0, a > b -> P10(a) >= 10 * P10(b), induction on a
    return [("base", [m >= 0, n == m + 1, dP10(n)], P10(n) >= 10 * P10(m)),
            ("step", [m >= 0, n > m + 1, dP10(n), P10(n - 1) >= 10 * P10(m), P10(n - 1) >= 1], P10(n) >= 10 * P10(m))]


@lem("p10_unfold")
def _():
    return [("by-%d" % t, [m >= 0] + [dP10(m + u) for u in range(1, t + 1)], P10(m + t) == IntVal(10 ** t) * P10(m)) for t in range(1, 7)]


@lem("p10_const")
def _():
    return [("values", [dP10(IntVal(t)) for t in range(61)], And([P10(IntVal(t)) == 10 ** t for t in range(61)]))]


@lem("p10_add")
def _():
    return [("base", [m >= 0, n == 0, dP10(n)], P10(m + n) == P10(m) * P10(n)),
            ("step", [m >= 0, n > 0, dP10(n), dP10(m + n), P10(m + n - 1) == P10(m) * P10(n - 1),
                      P10(m) * P10(n) == 10 * (P10(m) * P10(n - 1))], P10(m + n) == P10(m) * P10(n)),
            ("product", [P10(n) == 10 * P10(n - 1)], P10(m) * P10(n) == 10 * (P10(m) * P10(n - 1)))]


@lem("P_bounds")
def _():
    x = Select(a, n - 1)
    return [("base", [n <= 0, dP(a, n), dP10(n)], And(P(a, n) >= 0, P(a, n) <= P10(n) - 1)),
            ("step", [n > 0, dP(a, n), dP10(n), P10(n - 1) >= 1, P(a, n - 1) >= 0, P(a, n - 1) <= P10(n - 1) - 1, x >= 0, x <= 9,
                      x * P10(n - 1) >= 0, x * P10(n - 1) <= 9 * P10(n - 1)], And(P(a, n) >= 0, P(a, n) <= P10(n) - 1)),
            ("product", [y >= 1, x >= 0, x <= 9], And(x * y >= 0, x * y <= 9 * y))]


@lem("P_ext")
def _():
    # a and b agree on [0,n)  ->  P(a,n) == P(b,n)
    return [("base", [n <= 0, dP(a, n), dP(b, n)], P(a, n) == P(b, n)),
            ("step", [n > 0, dP(a, n), dP(b, n), P(a, n - 1) == P(b, n - 1), Select(a, n - 1) == Select(b, n - 1)], P(a, n) == P(b, n))]


@lem("P_store")
def _():
    S = Store(a, i, v)
    claim = lambda t: P(S, t) == P(a, t) + If(And(0 <= i, i < t), (v - Select(a, i)) * P10(i), IntVal(0))
    return [("base", [n <= 0, dP(S, n), dP(a, n)], claim(n)),
            ("step", [n > 0, dP(S, n), dP(a, n), claim(n - 1)], claim(n))]


@lem("P_zeros")
def _():
    # a is 0 on [lo,n), lo >= 0  ->  P(a,n) == P(a,lo)
    return [("base", [n == lo], P(a, n) == P(a, lo)),
            ("step", [0 <= lo, n > lo, dP(a, n), P(a, n - 1) == P(a, lo), Select(a, n - 1) == 0], P(a, n) == P(a, lo))]


@lem("P_fill")
def _():
    # FILLI(b,lo,hi,0): [0,lo) as b, 0 above: P_ext + P_zeros
    F = FILLI(b, lo, hi, IntVal(0))
    sel = lambda t: Select(F, t) == If(And(lo <= t, t < hi), IntVal(0), Select(b, t))
    return [("agrees-below", [sel(k), 0 <= k, k < lo], Select(F, k) == Select(b, k)),
            ("zero-above", [sel(k), lo <= k, k < n, n <= hi], Select(F, k) == 0),
            ("combined", [P(F, n) == P(F, lo), P(F, lo) == P(b, lo)], P(F, n) == P(b, lo)),
            ("constant-array", [n > 0, dP(K(I, IntVal(0)), n), P(K(I, IntVal(0)), n - 1) == 0], P(K(I, IntVal(0)), n) == 0)]


@lem("P_shift")
def _():
    E = ERASEI(b, IntVal(0), IntVal(1))
    sel = Select(E, n - 1) == Select(b, n)
    claim = lambda t: 10 * P(E, t) + Select(b, IntVal(0)) == P(b, t + 1)
    return [("base", [n == 0, dP(E, n), dP(b, n + 1), dP(b, n), dP10(n)], claim(n)),
            ("step", [n > 0, sel, dP(E, n), dP(b, n + 1), dP10(n), claim(n - 1), 10 * (Select(b, n) * P10(n - 1)) == Select(b, n) * P10(n)], claim(n)),
            ("product", [n > 0, dP10(n)], 10 * (x * P10(n - 1)) == x * P10(n))]


@lem("P_append")
def _():
    # a agrees with b below p, and a[p+t] == s[t] for t < c
    claim = lambda t: P(a, p + t) == P(b, p) + P10(p) * P(s_, t)
    return [("base", [p >= 0, c == 0, P(a, p) == P(b, p), dP(s_, c)], claim(c)),
            ("step", [p >= 0, c > 0, dP(a, p + c), dP(s_, c), Select(a, p + c - 1) == Select(s_, c - 1), claim(c - 1), P10(p + c - 1) == P10(p) * P10(c - 1),
                      P10(p) * (P(s_, c - 1) + Select(s_, c - 1) * P10(c - 1)) == P10(p) * P(s_, c - 1) + Select(s_, c - 1) * (P10(p) * P10(c - 1))], claim(c)),
            ("product", [], x * (y + v * q) == x * y + v * (x * q))]


@lem("P_lead")
def _():
    # digits, top digit nonzero: 10^(n-1) <= P(a,n) < 10^n
    t = Select(a, n - 1)
    return [("lead", [n > 0, dP(a, n), P(a, n - 1) >= 0, P10(n - 1) >= 1, t >= 1, t * P10(n - 1) >= P10(n - 1)], P(a, n) >= P10(n - 1)),
            ("product", [x >= 1, y >= 1], x * y >= y)]


@lem("canon_sign")
def _():
    s = Int("sg")
    V = If(s > 0, P(a, n), If(s < 0, -P(a, n), IntVal(0)))
    return [("sign", [s >= -1, s <= 1, n >= 0, (s == 0) == (n == 0), Implies(n > 0, And(P(a, n) >= P10(n - 1), P10(n - 1) >= 1))],
             And((V > 0) == (s == 1), (V < 0) == (s == -1), (V == 0) == (s == 0)))]


@lem("P_inj")
def _():
    # DIG(a,n), DIG(b,n), P(a,n) == P(b,n)  ->  a[k] == b[k] on [0,n)
    X, Y, Q = Select(a, n - 1), Select(b, n - 1), P10(n - 1)
    return [("top", [n > 0, dP(a, n), dP(b, n), P(a, n) == P(b, n), P(a, n - 1) >= 0, P(a, n - 1) <= Q - 1, P(b, n - 1) >= 0, P(b, n - 1) <= Q - 1, Q >= 1,
                     Implies(X >= Y + 1, (X - Y) * Q >= Q), Implies(Y >= X + 1, (Y - X) * Q >= Q), (X - Y) * Q == X * Q - Y * Q, (Y - X) * Q == Y * Q - X * Q],
             And(X == Y, P(a, n - 1) == P(b, n - 1))),
            ("product", [y >= 1, x >= 1], x * y >= y)]


@lem("canon_unique")
def _():
    # equal values: equal signs and magnitudes; lengths differ -> magnitudes differ (P_lead, p10_mono); then P_inj
    s, t = Ints("s1 s2")
    V1 = If(s > 0, P(a, n), If(s < 0, -P(a, n), IntVal(0)))
    V2 = If(t > 0, P(b, m), If(t < 0, -P(b, m), IntVal(0)))
    hyp = [s >= -1, s <= 1, t >= -1, t <= 1, n >= 0, m >= 0, (s == 0) == (n == 0), (t == 0) == (m == 0), V1 == V2,
           Implies(n > 0, And(P(a, n) >= P10(n - 1), P(a, n) <= P10(n) - 1, P10(n - 1) >= 1)), Implies(m > 0, And(P(b, m) >= P10(m - 1), P(b, m) <= P10(m) - 1, P10(m - 1) >= 1)),
           Implies(n - 1 > m, P10(n - 1) >= 10 * P10(m)), Implies(m - 1 > n, P10(m - 1) >= 10 * P10(n)), Implies(n - 1 == m, P10(n - 1) == P10(m)), Implies(m - 1 == n, P10(m - 1) == P10(n)),
           P10(n) >= 1, P10(m) >= 1]
    return [("sign-and-length", hyp, And(s == t, n == m)), ("magnitude", hyp + [s == t, n == m, n > 0], P(a, n) == P(b, m))]


@lem("tdiv_unique")
def _():
    q2, r2 = Ints("q2 r2")
    hyp = [d != 0, n == q * d + r, n == q2 * d + r2, r < ab(d), -r < ab(d), r2 < ab(d), -r2 < ab(d), Implies(n >= 0, And(r >= 0, r2 >= 0)), Implies(n <= 0, And(r <= 0, r2 <= 0))]
    t = q - q2
    return [("difference", hyp[:3], t * d == r2 - r),
            ("product", [x >= 1, d != 0], And(x * ab(d) >= ab(d), Implies(d > 0, x * d >= d), Implies(d < 0, x * d <= d))),
            ("product-neg", [x <= -1, d != 0], And(Implies(d > 0, x * d <= -d), Implies(d < 0, x * d >= -d))),
            ("unique", hyp[3:] + [d != 0, t * d == r2 - r, Implies(And(t >= 1, d > 0), t * d >= d), Implies(And(t >= 1, d < 0), t * d <= d),
                                  Implies(And(t <= -1, d > 0), t * d <= -d), Implies(And(t <= -1, d < 0), t * d >= -d)], q == q2),
            ("remainder", hyp[:3] + [q == q2], r == r2),
            # the truncated quotient and remainder exist (z3's div and mod are Euclidean)
            ("existence", [d != 0, n >= 0], And(n == (n / d) * d + n % d, n % d >= 0, n % d < ab(d))),
            ("existence-negative", [d != 0, n < 0], And(n == (-((-n) / d)) * d + (-((-n) % d)), -((-n) % d) <= 0, (-n) % d < ab(d))),
            ("quotient-range", [n >= 0, d > 0, n == q * d + r, r >= 0, r < d, Implies(q <= -1, q * d <= -d), Implies(q >= 0, q * d >= q)], And(q >= 0, q <= n)),
            ("product-range", [d >= 1, q >= 0], q * d >= q)]


@lem("tmod_idem")
def _():
    R_ = TMOD(n, d)
    U_ = Implies(And(d != 0, R_ == 0 * d + R_, R_ < ab(d), -R_ < ab(d)), And(TDIV(R_, d) == 0, TMOD(R_, d) == R_))
    return [("reduced", [d != 0, dT(n, d), U_], TMOD(R_, d) == R_)]


def uniq(A, B_, q, r):
    """[tdiv_unique] instance"""
    return Implies(And(B_ != 0, A == q * B_ + r, r < ab(B_), -r < ab(B_), Implies(A >= 0, r >= 0), Implies(A <= 0, r <= 0)), And(TDIV(A, B_) == q, TMOD(A, B_) == r))


@lem("tmod_neg")
def _():
    Q, R_ = TDIV(n, d), TMOD(n, d)
    return [("expand", [n == Q * d + R_], -n == (-Q) * d + (-R_)),
            ("negated", [d > 0, dT(n, d), -n == (-Q) * d + (-R_), uniq(-n, d, -Q, -R_)], TMOD(-n, d) == -R_)]


@lem("tmod_small")
def _():
    return [("small", [n < d, -n < d, uniq(n, d, IntVal(0), n)], TMOD(n, d) == n)]


@lem("tmod_range")
def _():
    return [("range", [d > 0, dT(n, d)], And(TMOD(n, d) < d, -TMOD(n, d) < d, Implies(n >= 0, TMOD(n, d) >= 0), Implies(n <= 0, TMOD(n, d) <= 0)))]


@lem("pow_square")
def _():
    B2 = x * x
    return [("base", [h == 0, dPOW(x, 2 * h), dPOW(B2, h)], POW(x, 2 * h) == POW(B2, h)),
            ("step", [h > 0, dPOW(x, 2 * h), dPOW(x, 2 * h - 1), dPOW(B2, h), POW(x, 2 * h - 2) == POW(B2, h - 1)], POW(x, 2 * h) == POW(B2, h)),
            ("odd", [h >= 0, dPOW(x, 2 * h + 1), POW(x, 2 * h) == POW(B2, h)], POW(x, 2 * h + 1) == x * POW(B2, h))]


@lem("pow_one")
def _():
    o, w = IntVal(1), IntVal(-1)
    claim = lambda t: And(POW(o, t) == 1, POW(w, t) == If(t % 2 == 0, IntVal(1), IntVal(-1)))
    return [("base", [n == 0, dPOW(o, n), dPOW(w, n)], claim(n)), ("step", [n > 0, dPOW(o, n), dPOW(w, n), claim(n - 1)], claim(n))]


@lem("pow_zero")
def _():
    return [("unfold", [n > 0, dPOW(IntVal(0), n)], POW(IntVal(0), n) == 0)]


@lem("p10_pow")
def _():
    t = IntVal(10)
    return [("base", [n == 0, dP10(n), dPOW(t, n)], P10(n) == POW(t, n)), ("step", [n > 0, dP10(n), dPOW(t, n), P10(n - 1) == POW(t, n - 1)], P10(n) == POW(t, n))]


@lem("tmod_mul")
def _():
    # x = q*d + r: x*y = (q*y)*d + r*y.  Let r*y = w*d + t truncated.  Then x*y = (q*y+w)*d + t, and t has the sign of x*y.
    R_ = TMOD(x, d)
    w, t = TDIV(R_ * y, d), TMOD(R_ * y, d)
    Q = TDIV(x, d)
    return [("expand", [x == Q * d + R_, R_ * y == w * d + t], x * y == (Q * y + w) * d + t),
            ("sign", [d != 0, dT(x, d), dT(R_ * y, d), Implies(R_ > 0, And(Implies(y > 0, And(x * y > 0, R_ * y > 0)), Implies(y < 0, And(x * y < 0, R_ * y < 0)))),
                      Implies(R_ < 0, And(Implies(y > 0, And(x * y < 0, R_ * y < 0)), Implies(y < 0, And(x * y > 0, R_ * y > 0)))), Implies(R_ == 0, R_ * y == 0), Implies(y == 0, And(x * y == 0, R_ * y == 0))],
             And(Implies(x * y >= 0, t >= 0), Implies(x * y <= 0, t <= 0))),
            ("signs-of-products", [], And(Implies(And(x > 0, y > 0), x * y > 0), Implies(And(x > 0, y < 0), x * y < 0), Implies(And(x < 0, y > 0), x * y < 0), Implies(And(x < 0, y < 0), x * y > 0))),
            ("equal", [d != 0, dT(R_ * y, d), x * y == (Q * y + w) * d + t, Implies(x * y >= 0, t >= 0), Implies(x * y <= 0, t <= 0),
                       Implies(And(d != 0, x * y == (Q * y + w) * d + t, t < ab(d), -t < ab(d), Implies(x * y >= 0, t >= 0), Implies(x * y <= 0, t <= 0)),
                               And(TDIV(x * y, d) == Q * y + w, TMOD(x * y, d) == t))], TMOD(x * y, d) == t)]


@lem("pow_tmod_c")
def _():
    # c * t^h = c * x^h (mod d), t = x mod d; induction on h, all c
    t = TMOD(x, d)
    u = c * POW(t, h - 1)
    return [("base", [h == 0, dPOW(t, h), dPOW(x, h)], TMOD(c * POW(t, h), d) == TMOD(c * POW(x, h), d)),
            ("step", [h > 0, d != 0, c * POW(t, h) == t * u, x * u == (c * x) * POW(t, h - 1), (c * x) * POW(x, h - 1) == c * POW(x, h),
                      TMOD(t * u, d) == TMOD(x * u, d), TMOD((c * x) * POW(t, h - 1), d) == TMOD((c * x) * POW(x, h - 1), d)],
             TMOD(c * POW(t, h), d) == TMOD(c * POW(x, h), d)),
            ("unfold", [h > 0, dPOW(t, h), dPOW(x, h)], And(c * POW(t, h) == t * u, (c * x) * POW(x, h - 1) == c * POW(x, h), x * u == (c * x) * POW(t, h - 1)))]


# ---- greatest common divisor: GCD(a,0) = |a|, GCD(a,b) = GCD(b, a mod b)
def gd(A, B_, G, s1, s2):
    return And(G >= 0, (G == 0) == And(A == 0, B_ == 0), A == G * s1, B_ == G * s2)


@lem("gcd_divides")
def _():
    # strong induction on |b|: g = gcd(b, a mod b) divides b and a mod b, hence a
    R_, Q = TMOD(x, y), TDIV(x, y)
    s1, s2 = Ints("s1 s2")
    return [("base", [y == 0, g == ab(x)], And(g >= 0, (g == 0) == (x == 0), Or(x == g * 1, x == g * -1), y == g * 0)),
            ("step", [y != 0, dT(x, y), gd(y, R_, g, s1, s2), (Q * s1 + s2) * g == Q * (g * s1) + g * s2, Q * y == Q * (g * s1)],
             And(g >= 0, g != 0, x == g * (Q * s1 + s2), y == g * s1)),
            ("product", [], (Q * s1 + s2) * g == Q * (g * s1) + g * s2),
            ("decreases", [y != 0, dT(x, y)], ab(R_) < ab(y))]


@lem("gcd_greatest")
def _():
    # a common divisor of a and b divides gcd(a,b): it divides a mod b
    R_, Q = TMOD(x, y), TDIV(x, y)
    s1, s2 = Ints("s1 s2")
    return [("base", [y == 0, g == ab(x), x == d * s1], Or(g == d * s1, g == d * -s1)),
            ("step", [y != 0, dT(x, y), x == d * s1, y == d * s2, d * (s1 - Q * s2) == d * s1 - Q * (d * s2)], R_ == d * (s1 - Q * s2)),
            ("product", [], d * (s1 - Q * s2) == d * s1 - Q * (d * s2))]


@lem("gcd_abs")
def _():
    # gcd(a,b) = gcd(+-a,+-b), strong induction on |b|: a mod b only changes sign with the signs of a and b.
    def G(A, B_):
        return GCD(A, B_) == If(B_ == 0, ab(A), GCD(B_, TMOD(A, B_)))
    R_ = TMOD(x, y)
    X, Y = ab(x), ab(y)
    Q = TDIV(x, y)
    uq = lambda A, B_, q1, r1: Implies(And(B_ != 0, A == q1 * B_ + r1, r1 < ab(B_), -r1 < ab(B_), Implies(A >= 0, r1 >= 0), Implies(A <= 0, r1 <= 0)), TMOD(A, B_) == r1)
    return [("base", [y == 0, G(x, y), G(X, Y)], GCD(x, y) == GCD(X, Y)),
            ("remainder", [y != 0, dT(x, y), uq(X, Y, If((x >= 0) == (y >= 0), Q, -Q), ab(R_)), And((-Q) * y == -(Q * y), Q * -y == -(Q * y), (-Q) * -y == Q * y)], TMOD(X, Y) == ab(R_)),
            ("product", [], And((-Q) * y == -(Q * y), Q * -y == -(Q * y), (-Q) * -y == Q * y)),
            # induction hypothesis at (y, R): gcd(y,R) = gcd(|y|,|R|)
            ("step", [y != 0, G(x, y), G(X, Y), TMOD(X, Y) == ab(R_), GCD(y, R_) == GCD(ab(y), ab(R_)), Implies(R_ == 0, True)], GCD(x, y) == GCD(X, Y))]


@lem("gcd_comm")
def _():
    # both are non-negative common divisors, and each divides the other one (gcd_greatest)
    k1, k2, h = Ints("k1 k2 h")
    return [("mutual", [g >= 0, h >= 0, g == h * k1, h == g * k2, h == h * (k1 * k2)], g == h),
            ("product", [g == h * k1, h == g * k2], h == h * (k1 * k2)), ("zero", [h == 0, g == h * k1], g == h)]


@lem("gcd_sub")
def _():
    # a common divisor of a and b divides a - b and the other way round; so each of the two gcds divides the other (gcd_greatest)
    k1, k2, s1, s2, h = Ints("k1 k2 s1 s2 h")
    return [("common", [x == d * s1, y == d * s2, d * (s1 - s2) == d * s1 - d * s2], x - y == d * (s1 - s2)),
            ("back", [x == d * s1, x - y == d * s2, d * (s1 - s2) == d * s1 - d * s2], y == d * (s1 - s2)),
            ("product", [], d * (s1 - s2) == d * s1 - d * s2),
            ("mutual", [g >= 0, h >= 0, g == h * k1, h == g * k2, h == h * (k1 * k2)], g == h), ("zero", [h == 0, g == h * k1], g == h)]


@lem("gq_same")
def _():
    k1, k2 = Ints("k1 k2")
    return [("same", [g > 0, x == g * k1, x == g * k2], k1 == k2), ("opposite", [g > 0, x == g * k1, -x == g * k2], k1 == -k2)]


@lem("gcd_one")
def _():
    s1, s2 = Ints("s1 s2")
    return [("one", [g >= 0, (g == 0) == And(x == 0, IntVal(1) == 0), x == g * s1, 1 == g * s2], And(g == 1, s1 == x, s2 == 1))]


@lem("gq_div")
def _():
    # x == g*k, g > 0: the truncated quotient x/g is k
    return [("exact", [g > 0, x == g * k, dT(x, g)], TDIV(x, g) == k)]


@lem("gcd_reduced")
def _():
    # g = gcd(x,y) > 0, d = gcd(q1,q2) > 0: g*d divides x and y, hence (gcd_greatest) g
    q1, q2, s1, s2, t = Ints("q1 q2 s1 s2 t")
    return [("common-divisor", [x == g * q1, y == g * q2, q1 == d * s1, q2 == d * s2], And(x == (g * d) * s1, y == (g * d) * s2)),
            ("not-both-zero", [x == g * q1, y == g * q2, g > 0, Or(x != 0, y != 0)], Or(q1 != 0, q2 != 0)),
            ("cancel", [g > 0, d > 0, g == (g * d) * t, (g * d) * t == g * (d * t)], d * t == 1),
            ("product", [], (g * d) * t == g * (d * t)),
            ("one", [d > 0, d * t == 1], d == 1)]


@lem("reduced_unique")
def _():
    # Bezout by Euclid's recursion, then d divides b and b divides d
    u, w, k1, k2, Q = Ints("u w k1 k2 Q")
    R_ = TMOD(x, y)
    return [("bezout-base", [y == 0, g == ab(x)], Or(g == 1 * x + 0 * y, g == -1 * x + 0 * y)),
            ("bezout-step", [y != 0, dT(x, y), g == u * y + w * R_, w * R_ == w * (x - TDIV(x, y) * y), w * (x - TDIV(x, y) * y) == w * x - (w * TDIV(x, y)) * y,
                             (u - w * TDIV(x, y)) * y == u * y - (w * TDIV(x, y)) * y], g == w * x + (u - w * TDIV(x, y)) * y),
            ("bezout-remainder", [y != 0, dT(x, y)], R_ == x - TDIV(x, y) * y),
            ("bezout-product", [], And(w * (x - Q * y) == w * x - (w * Q) * y, (u - w * Q) * y == u * y - (w * Q) * y)),
            # 1 = u*a + w*b and a*d = c*b: d = b*(c*u + d*w)
            ("divides", [1 == u * m + w * n, m * d == c * n, d == d * (u * m + w * n), d * (u * m + w * n) == u * (m * d) + n * (d * w), u * (m * d) == u * (c * n),
                         u * (c * n) == n * (c * u), n * (c * u + d * w) == n * (c * u) + n * (d * w)], d == n * (c * u + d * w)),
            ("divides-products", [], And(d * (u * m + w * n) == u * (m * d) + n * (d * w), u * (c * n) == n * (c * u), n * (c * u + d * w) == n * (c * u) + n * (d * w))),
            ("mutual", [n > 0, d > 0, d == n * k1, n == d * k2], n == d),
            ("cancel", [n > 0, m * n == c * n], m == c)]


# ---- primes: NODIV(n,k): no d in [2,k) with n mod d == 0
def nd(N, K_, *ds):
    return [Implies(And(NODIV(N, K_), 2 <= t, t < K_), TMOD(N, t) != 0) for t in ds]


def ndw(N, K_):
    w = WIT(N, K_)
    return Or(NODIV(N, K_), And(2 <= w, w < K_, TMOD(N, w) == 0))


@lem("nodiv_step")
def _():
    w, w2 = WIT(n, k), WIT(n, k + 1)
    return [("step", [k >= 2, ndw(n, k), ndw(n, k + 1)] + nd(n, k + 1, w, k) + nd(n, k, w2), NODIV(n, k + 1) == And(NODIV(n, k), TMOD(n, k) != 0)),
            ("base", [ndw(n, IntVal(2))], NODIV(n, IntVal(2)))]


@lem("odd_no_even_divisor")
def _():
    q, h, g = TDIV(n, k), Int("h"), Int("g")
    return [("odd", [n == q * k + TMOD(n, k), k == 2 * h, n == 2 * g + 1, q * (2 * h) == 2 * (q * h)], TMOD(n, k) != 0)]


@lem("nodiv_found")
def _():
    return [("found", [2 <= k, k < n, TMOD(n, k) == 0] + nd(n, n, k), Not(NODIV(n, n)))]


@lem("nodiv_even")
def _():
    U_ = Implies(n == m * 2 + 0, TMOD(n, 2) == 0)
    return [("even", [n == 2 * m, n > 2, U_] + nd(n, n, IntVal(2)), Not(NODIV(n, n)))]


@lem("nodiv_prime")
def _():
    w = WIT(n, n)
    Q = TDIV(n, w)
    U_ = Implies(And(Q != 0, n == w * Q + 0), TMOD(n, Q) == 0)
    return [("prime", [n >= 2, k >= 2, NODIV(n, k), k * k > n, ndw(n, n), dT(n, w), U_, Q * w == w * Q,
                       Implies(And(w >= k, Q >= k), w * Q >= k * k), Implies(Q <= 1, Implies(w >= 2, Q * w <= w))] + nd(n, k, Q, w), NODIV(n, n)),
            ("product", [x >= k, y >= k, k >= 2], x * y >= k * k),
            ("product-2", [x <= 1, y >= 2], x * y <= y)]


@lem("noprime")
def _():
    pr = lambda t: And(t >= 2, NODIV(t, t))
    df = lambda t: NOPRIME(lo, t) == If(t <= lo, True, And(NOPRIME(lo, t - 1), Not(pr(t))))
    return [("low-base", [n <= lo, df(n)], NOPRIME(lo, n)),
            ("low-step", [n > lo, n <= 1, df(n), NOPRIME(lo, n - 1)], NOPRIME(lo, n)),
            ("excludes", [hi > lo, df(hi), lo < p, p <= hi, Implies(And(NOPRIME(lo, hi - 1), lo < p, p <= hi - 1), Not(pr(p))), NOPRIME(lo, hi)], Not(pr(p))),
            ("excludes-base", [hi <= lo, lo < p, p <= hi], Not(pr(p)))]


@lem("euclid")
def _():
    """for every n there is a prime above n: the least divisor chain of n!+1 ends in a prime, and no prime <= n divides n!+1"""
    pr = lambda t: And(t >= 2, NODIV(t, t))
    PF = Function("PF", I, I)        # PF(m) = m if m is prime, else PF of a proper divisor
    w = WIT(m, m)
    s1, s2 = Ints("s1 s2")
    F = Function("FACT", I, I)
    dF = lambda t: F(t) == If(t <= 0, IntVal(1), t * F(t - 1))
    FQ = Function("FQ", I, I, I)     # d * FQ(n, d) = n!
    return [("prime-factor-base", [m >= 2, NODIV(m, m), PF(m) == m], And(pr(PF(m)), m == PF(m) * 1)),
            ("prime-factor-step", [m >= 2, Not(NODIV(m, m)), ndw(m, m), PF(m) == PF(w), dT(m, w), pr(PF(w)), w == PF(w) * s1, TDIV(m, w) * (PF(w) * s1) == PF(w) * (TDIV(m, w) * s1)],
             And(pr(PF(m)), m == PF(m) * (TDIV(m, w) * s1), w < m, w >= 2)),
            ("factorial-positive", [n > 0, dF(n), F(n - 1) >= 1, n * F(n - 1) >= 1], F(n) >= 1),
            ("factorial-divisible-top", [n >= 1, dF(n), d == n], F(n) == d * F(n - 1)),
            ("factorial-divisible-step", [n >= 1, dF(n), 1 <= d, d < n, F(n - 1) == d * FQ(n - 1, d)], F(n) == d * (n * FQ(n - 1, d))),
            ("above", [pr(p), F(n) == p * s1, F(n) + 1 == p * s2, p * (s2 - s1) == p * s2 - p * s1, Implies(s2 - s1 >= 1, p * (s2 - s1) >= p), Implies(s2 - s1 <= 0, p * (s2 - s1) <= 0)], False),
            ("product", [x >= 2], And(Implies(y >= 1, x * y >= x), Implies(y <= 0, x * y <= 0)))]


@lem("txt_ext")
def _():
    return [("base", [n <= lo, dTXT(a, lo, n), dTXT(b, lo, n)], TXTV(a, lo, n) == TXTV(b, lo, n)),
            ("step", [n > lo, dTXT(a, lo, n), dTXT(b, lo, n), TXTV(a, lo, n - 1) == TXTV(b, lo, n - 1), Select(a, n - 1) == Select(b, n - 1)], TXTV(a, lo, n) == TXTV(b, lo, n))]


@lem("hx_ext")
def _():
    st = Function("HXSTEP", I, I, I)
    s = Int("sg")
    hx = lambda A, t: HX(s, A, t) == st(HX(s, A, t - 1), Select(A, t - 1))
    return [("base", [n <= 0, HX(s, a, n) == st(s, IntVal(0)), HX(s, b, n) == st(s, IntVal(0))], HX(s, a, n) == HX(s, b, n)),
            ("step", [n > 0, hx(a, n), hx(b, n), HX(s, a, n - 1) == HX(s, b, n - 1), Select(a, n - 1) == Select(b, n - 1)], HX(s, a, n) == HX(s, b, n))]


# ---------------------------------------------------------------- sequences of uninterpreted elements
@lem("mod_block")
def _():
    # 0 <= p*n <= k < p*n + n: k mod n = k - p*n; by the uniqueness of quotient and remainder
    Q, R_ = TDIV(k, n), TMOD(k, n)
    hyp = [n > 0, p >= 0, p * n <= k, k < p * n + n]
    return [("nonneg", [n > 0, p >= 0], p * n >= 0),
            ("quotient-upper", hyp + [p * n >= 0, dT(k, n), (Q - p) * n == Q * n - p * n, Implies(Q - p >= 1, (Q - p) * n >= n)], Q <= p),
            ("quotient-lower", hyp + [p * n >= 0, dT(k, n), (Q - p) * n == Q * n - p * n, Implies(p - Q >= 1, (Q - p) * n <= -n)], Q >= p),
            ("product-up", [n > 0, q >= 1], q * n >= n),
            ("product-down", [n > 0, q <= -1], q * n <= -n),
            ("conclusion", hyp + [dT(k, n), Q == p], R_ == k - p * n)]


@lem("mul_block")
def _():
    return [("nonneg", [n >= 0, p >= 0], n * p >= 0), ("step", [], n * (p + 1) == n * p + n),
            ("monotone", [n >= 0, p + 1 <= m, n * (p + 1) == n * p + n, n * (m - (p + 1)) >= 0, n * (m - (p + 1)) == n * m - n * (p + 1)], n * p + n <= n * m)]


@lem("uniq_new")
def _():
    # IN(a, i, x): x occurs in a[0..i).  UQNEW(a, i) is not IN(a, i, a[i]).  W: the position in the distinct elements
    E = z3.DeclareSort("Elem!")
    SA = z3.ArraySort(I, E)
    A_ = Const("a!e", SA)
    X = Const("x!e", E)
    IN = Function("IN!", SA, I, E, BoolSort())
    W = Function("W!", SA, I, E, I)
    UL = Function("UL!", SA, I, I)
    UA = Function("UA!", SA, I, SA)
    ai = Select(A_, i)
    new = Not(IN(A_, i, ai))
    pt = lambda t: Select(UA(A_, i + 1), t)
    keep = lambda t: Implies(And(0 <= t, t < UL(A_, i)), pt(t) == Select(UA(A_, i), t))
    d0 = [UL(A_, IntVal(0)) == 0, IN(A_, IntVal(0), X) == BoolVal_(False)]
    dI = IN(A_, i + 1, X) == Or(IN(A_, i, X), ai == X)
    dU = [UL(A_, i) >= 0, UL(A_, i + 1) == UL(A_, i) + If(new, IntVal(1), IntVal(0)), Implies(new, pt(UL(A_, i)) == ai)]
    dW = W(A_, i + 1, X) == If(IN(A_, i, X), W(A_, i, X), UL(A_, i))
    w = W(A_, i, X)
    return [("absent-base", d0 + [0 <= k, k < UL(A_, IntVal(0))], Select(UA(A_, IntVal(0)), k) != X),
            ("absent-step", [i >= 0, dI, Not(IN(A_, i + 1, X)), 0 <= k, k < UL(A_, i + 1), keep(k), Implies(And(0 <= k, k < UL(A_, i), Not(IN(A_, i, X))), Select(UA(A_, i), k) != X)] + dU, pt(k) != X),
            ("present-base", d0 + [IN(A_, IntVal(0), X)], BoolVal_(False)),
            ("present-step", [i >= 0, dI, dW, IN(A_, i + 1, X), keep(w), Implies(IN(A_, i, X), And(0 <= w, w < UL(A_, i), Select(UA(A_, i), w) == X)),
                              Implies(ai == X, IN(A_, i, ai) == IN(A_, i, X))] + dU,
             And(0 <= W(A_, i + 1, X), W(A_, i + 1, X) < UL(A_, i + 1), pt(W(A_, i + 1, X)) == X))]


def BoolVal_(b_):
    return z3.BoolVal(b_)


# which lemma proofs stand behind each rule and each hint function
NEEDS = {"canon_unique": ["canon_unique", "P_inj", "P_lead", "p10_mono"], "nextp": ["euclid", "noprime"], "noprime_low": ["noprime"], "gcd_divides": ["gcd_divides", "gcd_greatest"]}


# ---- finite sets (assoc.py): CARD(EMPTY) = 0 and CARD(m + x) = CARD(m) + 1 when x is not in m define CARD
def _sets():
    from . import assoc as A
    k = z3.DeclareSort("Elem")
    s = z3.ArraySort(k, z3.BoolSort())
    return A, k, [Const(nm, s) for nm in "ab"] + [Const("x", k), Const("y", k)]


@lem("card_del")
def _():
    A, k, (ma, mb, ex, ey) = _sets()
    rem = Store(ma, ex, z3.BoolVal(False))
    return [("member", [Select(ma, ex), A.card_add(rem, ex), Store(rem, ex, z3.BoolVal(True)) == ma], A.card_del(ma, ex)),
            ("put-back", [Select(ma, ex)], Store(rem, ex, z3.BoolVal(True)) == ma),
            ("not-a-member", [Not(Select(ma, ex)), rem == ma], A.card_del(ma, ex)),
            ("unchanged", [Not(Select(ma, ex))], rem == ma)]


@lem("card_sub")
def _():
    # induction over the finite set b: empty, or b = b1 + x with x not in b1
    A, k, (ma, mb, ex, ey) = _sets()
    T_, F_ = z3.BoolVal(True), z3.BoolVal(False)
    b1 = Const("b1", ma.sort())
    b_ = Store(b1, ex, T_)
    rem = Store(ma, ex, F_)
    goal = lambda p, q_: A.card_sub(p, q_)
    em = A.EMPTY(k)
    return [("empty", [A.sub_def(ma, em), A.sub_def(em, ma), Implies(A.SUB(ma, em), ma == em), A.card_empty(k)], goal(ma, em)),
            ("empty-ext", [A.sub_def(ma, em), A.SUB(ma, em)], ma == em),
            ("without-x", [Not(Select(b1, ex)), Not(Select(ma, ex)), A.sub_def(ma, b_), A.sub_def(ma, b1), goal(ma, b1), A.card_add(b1, ex)], goal(ma, b_)),
            ("with-x", [Not(Select(b1, ex)), Select(ma, ex), A.sub_def(ma, b_), A.sub_def(b_, ma), A.sub_def(rem, b1), A.sub_def(b1, rem), goal(rem, b1), A.card_add(b1, ex), A.card_del(ma, ex)], goal(ma, b_))]


@lem("rounded_quotient_floor")
def _():
    # |x|, |y| < 2^52, r the double nearest to x/y: exact on integers, at most one part in 2^53 off otherwise
    # => floor(r) = floor(x/y).  R stands for r*y; y > 0 without loss of generality (x/y = -x/-y).
    rr, qq = z3.Reals("rr qq")
    L = IntVal(2 ** 52)
    base = [x > -L, x < L, y > 0, y < L, x == k * y + m, 0 <= m, m < y]
    X, Y, K_, M_ = z3.ToReal(x), z3.ToReal(y), z3.ToReal(k), z3.ToReal(m)
    aq = If(qq >= 0, qq, -qq)
    err = And(rr - qq <= aq / 2 ** 53, qq - rr <= aq / 2 ** 53)
    u, w = z3.Reals("u w")    # u = rr - qq, w = u*y
    return [("exact", base + [m == 0, qq * Y == X], qq == K_),
            ("magnitude", [y > 0, qq * Y == X], aq * Y == If(x >= 0, X, -X)),
            ("error", [y > 0, x > -L, x < L, aq * Y == If(x >= 0, X, -X), u == rr - qq, u <= aq / 2 ** 53, -u <= aq / 2 ** 53, w == u * Y], And(w < 1, w > -1)),
            ("split", base + [qq * Y == X, u == rr - qq], (rr - K_) * Y == M_ + u * Y),
            ("above", base + [m > 0, w == u * Y, w > -1, (rr - K_) * Y == M_ + w], rr > K_),
            ("below", base + [m > 0, w == u * Y, w < 1, (rr - K_) * Y == M_ + w], rr < K_ + 1)]


class LemmaOb:
    """Looks like an obligation, for solver.prove."""

    def __init__(self, lemma, step, hyps, goal):
        self.fn, self.kind, self.line, self.file, self.hyps, self.goal, self.hints, self.alias, self.path = "lemma " + lemma, step, 0, "lemmas.py", hyps, goal, [], None, []
        self.status = self.solver = self.group = None
        self.time = 0.0

    @property
    def name(self):
        return "%s:%s" % (self.fn, self.kind)


def items(names=None):
    from .solver import Item
    res = []
    for nm, f in LEMMAS.items():
        if names is not None and nm not in names:
            continue
        for step, hyps, goal in f():
            if isinstance(goal, bool):
                goal = z3.BoolVal(goal)
            hyps = [z3.BoolVal(x) if isinstance(x, bool) else x for x in hyps]
            it = Item(LemmaOb(nm, step, hyps, goal), "", goal)
            it.pure = True
            res.append(it)
    return res


if __name__ == "__main__":
    import time, sys
    from . import solver
    t = time.time()
    its = items(sys.argv[1:] or None)
    solver.discharge(its)
    for x in its:
        if x.result != "proved":
            print(x.result, x.name, x.extra)
    print(len(its), "steps", sum(x.result == "proved" for x in its), "proved", "%.1fs" % (time.time() - t), "slowest", max((x.time, x.name) for x in its))
