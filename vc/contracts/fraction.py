"""Contracts of Fraction (fraction.hpp).

A fraction is a pair (n, d) of ints; its invariant CF: d >= 1 and gcd(n, d) = 1.  The reduced form of N/D is
(GQ1, GQ2)(N', D') with the sign moved to the numerator; GQ1, GQ2 are N', D' divided by their gcd.  Results are
specified whenever the reduced form fits in int (FITS)."""
from .common import *
from ..cppast import fsig as cppsig
from ..stdmodels import DECLEN, DECCH, RND as nearest

FRACTION = []
IMAX, IMIN = 2147483647, -2147483648


def C(**kw):
    kw.setdefault("cls", "Fraction")
    kw["props"] = tuple(kw["props"]) + ("U01",)
    c = Contract(**kw)
    FRACTION.append(c)
    return c


def nm(o):
    return scalars_of(o)[0].val


def dn(o):
    return scalars_of(o)[1].val


def CF(o):
    return And(dn(o) >= 1, GCD(nm(o), dn(o)) == 1)


def inint(x):
    return And(x >= IMIN, x <= IMAX)


def norm(N, D):
    D = D if z3.is_expr(D) else IntVal(D)
    N = N if z3.is_expr(N) else IntVal(N)
    s = simplify(D < 0)
    return simplify(If(s, -N, N)), simplify(If(s, -D, D))


def FITS(N, D):
    N, D = norm(N, D)
    return And(inint(GQ1(N, D)), inint(GQ2(N, D)))


def reduced(o, N, D, when=None):
    """o is N/D in lowest terms, if that is representable"""
    N1, D1 = norm(N, D)
    f = FITS(N, D) if when is None else And(when, FITS(N, D))
    return [("lowest-terms", Implies(f, CF(o))),
            ("numerator", Implies(f, nm(o) == GQ1(N1, D1))), ("denominator", Implies(f, dn(o) == GQ2(N1, D1)))]


def red_hints(N, D):
    N, D = norm(N, D)
    return [gcd_divides(N, D), gcd_reduced(N, D)]


C(name="Fraction", nparams=2, props=("F01",),
  raises=lambda e: e.val(1) == 0,
  post=lambda e: reduced(e.this, e.old.val(0), e.old.val(1)),
  lemmas=lambda e: [gcd_divides(*norm(e.old.val(0), e.old.val(1)))],
  proof=lambda e: red_hints(e.val(0), e.val(1)) + red_hints(-e.val(0), -e.val(1)) + red_hints(e.val(0), IntVal(1) * e.val(1)))


def cf_this(e):
    return [("canonical", CF(e.this))]


def cf_both(e):
    r = [("canonical", CF(e.this))]
    if e.args[0] is not e.this:
        r.append(("canonical-rhs", CF(e.args[0])))
    return r


SELF = (None, {0: "this"})


def binary(op, num, den, raises=None, aliases=SELF):
    C(name="operator" + op, nparams=1, props=("F01",), aliases=aliases, pre=cf_both, raises=raises,
      post=lambda e: reduced(e.ret, num(e.old.this, e.old.args[0]), den(e.old.this, e.old.args[0])))
    C(name="operator" + op + "=", nparams=1, props=("F01",), aliases=aliases, pre=cf_both, raises=raises, frame=lambda e: [e.this], ret=lambda e: e.this,
      post=lambda e: reduced(e.this, num(e.old.this, e.old.args[0]), den(e.old.this, e.old.args[0])))


zero_rhs = lambda e: nm(e.args[0]) == 0
binary("+", lambda a, b: nm(a) * dn(b) + dn(a) * nm(b), lambda a, b: dn(a) * dn(b))
binary("-", lambda a, b: nm(a) * dn(b) - dn(a) * nm(b), lambda a, b: dn(a) * dn(b))
binary("*", lambda a, b: nm(a) * nm(b), lambda a, b: dn(a) * dn(b))
binary("/", lambda a, b: nm(a) * dn(b), lambda a, b: dn(a) * nm(b), raises=zero_rhs)
# a/b mod c/d = (ad - trunc(ad / bc) * bc) / bd
binary("%", lambda a, b: TMOD(nm(a) * dn(b), dn(a) * nm(b)), lambda a, b: dn(a) * dn(b), raises=zero_rhs)

C(name="operator-", nparams=0, props=("F01",), pre=cf_this, post=lambda e: reduced(e.ret, -nm(e.old.this), dn(e.old.this)))
C(name="operator+", nparams=0, props=("F01",), pre=cf_this, post=lambda e: reduced(e.ret, nm(e.old.this), dn(e.old.this)), proof=lambda e: [gcd_divides(nm(e.this), dn(e.this))])
C(name="abs", nparams=0, props=("F01",), pre=cf_this, post=lambda e: reduced(e.ret, absv(nm(e.old.this)), dn(e.old.this)),
  proof=lambda e: [gcd_divides(nm(e.this), dn(e.this))])
for op, s in (("++", 1), ("--", -1)):
    C(name="operator" + op, nparams=0, props=("F01",), pre=cf_this, frame=lambda e: [e.this], ret=lambda e: e.this,
      post=(lambda s: lambda e: reduced(e.this, nm(e.old.this) + s * dn(e.old.this), dn(e.old.this)))(s))
C(name="numerator", nparams=0, props=("F01",), post=lambda e: [("value", e.ret == nm(e.old.this))])
C(name="denominator", nparams=0, props=("F01",), post=lambda e: [("value", e.ret == dn(e.old.this))])

C(name="operator double", nparams=0, props=("F01",), pre=cf_this,
  post=lambda e: [("nearest-double-of-the-quotient", e.ret == nearest(z3.ToReal(nm(e.old.this)) / z3.ToReal(dn(e.old.this)))),
                  ("sign", And((e.ret > 0) == (nm(e.old.this) > 0), (e.ret < 0) == (nm(e.old.this) < 0)))])

# ---------------------------------------------------------------- comparison
C(name="operator==", nparams=1, props=("F02", "H01"), aliases=SELF, pre=cf_both,
  post=lambda e: [("same-rational", e.ret == (nm(e.old.this) * dn(e.old.args[0]) == nm(e.old.args[0]) * dn(e.old.this))),
                  ("same-components", e.ret == And(nm(e.old.this) == nm(e.old.args[0]), dn(e.old.this) == dn(e.old.args[0])))],
  proof=lambda e: [reduced_unique(nm(e.this), dn(e.this), nm(e.args[0]), dn(e.args[0]))])
C(name="operator<=>", nparams=1, props=("F02",), aliases=SELF, pre=cf_both,
  post=lambda e: [("sign-of-the-difference", And(
      (e.ret > 0) == (nm(e.old.this) * dn(e.old.args[0]) > nm(e.old.args[0]) * dn(e.old.this)),
      (e.ret < 0) == (nm(e.old.this) * dn(e.old.args[0]) < nm(e.old.args[0]) * dn(e.old.this))))])


def two(e):
    return [("canonical-0", CF(e.args[0])), ("canonical-1", CF(e.args[1]))]


def a01(e):
    return e.old.args[0], e.old.args[1]


def lcm_post(e):
    a, b = a01(e)
    z = Or(nm(a) == 0, nm(b) == 0)
    return [("zero", Implies(z, And(nm(e.ret) == 0, dn(e.ret) == 1)))] + reduced(e.ret, LCM(nm(a), nm(b)), GCD(dn(a), dn(b)), when=Not(z))


# for a/b and c/d in lowest terms: the greatest common divisor is gcd(a,c)/lcm(b,d), the least common multiple lcm(a,c)/gcd(b,d)
C(name="gcd", nparams=2, props=("F02",), aliases=(None, {1: 0}), pre=two,
  post=lambda e: reduced(e.ret, GCD(nm(a01(e)[0]), nm(a01(e)[1])), LCM(dn(a01(e)[0]), dn(a01(e)[1]))))
C(name="lcm", nparams=2, props=("F02",), aliases=(None, {1: 0}), pre=two, post=lcm_post)


def same(o, s):
    return [("numerator", nm(o) == nm(s)), ("denominator", dn(o) == dn(s))]


C(name="Fraction", nparams=1, pred=lambda d: "&&" in cppsig(d), suffix="(Fraction&&)", props=("A01",), frame=lambda e: [e.args[0]],
  post=lambda e: same(e.this, e.old.args[0]) + [("moved-from-is-zero", And(nm(e.args[0]) == 0, dn(e.args[0]) == 1))])
C(name="operator=", nparams=1, pred=lambda d: "&&" in cppsig(d), suffix="(Fraction&&)", props=("A01",), frame=lambda e: [e.this, e.args[0]], ret=lambda e: e.this,
  post=lambda e: same(e.this, e.old.args[0]) + [("moved-from-is-zero", And(nm(e.args[0]) == 0, dn(e.args[0]) == 1))])
C(name="operator=", nparams=1, pred=lambda d: "const Fraction &" in cppsig(d), suffix="(const Fraction&)", props=("A01",), optional=True, aliases=SELF, frame=lambda e: [e.this], ret=lambda e: e.this,
  post=lambda e: same(e.this, e.old.args[0]))

C(cls=None, name="operator()", title="std::hash<Fraction>::operator()", params=["constFraction&"], props=("H01", "F02"), pre=lambda e: [("canonical", CF(e.args[0]))],
  pred=lambda d: (d.get("_cls") or {}).get("name") == "hash" or True, determined=lambda e: [nm(e.args[0]), dn(e.args[0])])


def printed_fraction(e):
    f = e.old.args[1]
    text = lambda: Text().add(ar(e.old.args[0]), ln(e.old.args[0])).add(DECCH(nm(f)), DECLEN(nm(f)))
    whole, ratio = text(), text().lit("/").add(DECCH(dn(f)), DECLEN(dn(f)))
    one = dn(f) == 1
    return [("whole-number-" + n, Implies(one, g)) for n, g in whole.equals(e.args[0])] + [("ratio-" + n, Implies(Not(one), g)) for n, g in ratio.equals(e.args[0])]


# the text of one int is what std::ostream writes for it
C(name="operator<<", nparams=2, pred=lambda d: "ostream" in cppsig(d), suffix="(ostream)", props=("P01",), frame=lambda e: [e.args[0]], ret=lambda e: e.args[0], post=printed_fraction)
