"""Contracts of Complex (complex.hpp).  double is treated as the mathematical reals (no rounding, no NaN, no
infinity); the elementary functions are uninterpreted except for the facts of their models."""
from .common import *
from ..cppast import fsig as cppsig
from ..stdmodels import RPOW, REXP, RLOG, RCOS, RSIN, HYPOT, ATAN2

COMPLEX = []
EPS = z3.RealVal(2) ** -52 if False else z3.Q(1, 1 << 52)
SELF = (None, {0: "this"})


def C(**kw):
    kw.setdefault("cls", "Complex")
    kw.setdefault("reals", True)
    kw["props"] = tuple(kw["props"]) + ("U01",)
    c = Contract(**kw)
    COMPLEX.append(c)
    return c


def re(o):
    return scalars_of(o)[0].val


def im(o):
    return scalars_of(o)[1].val


def rabs(x):
    return If(x >= 0, x, -x)


def is0(o):
    """zero, as the library's == decides it"""
    return And(rabs(re(o)) < EPS, rabs(im(o)) < EPS)


def parts(o, r, i):
    return [("real", re(o) == r), ("imag", im(o) == i)]


def rv(x):
    return z3.ToReal(x) if z3.is_expr(x) and z3.is_int(x) else x


C(name="Complex", nparams=2, props=("X01",), post=lambda e: parts(e.this, rv(e.old.val(0)), rv(e.old.val(1))))


def binary(op, fr, fi, raises=None):
    C(name="operator" + op, nparams=1, props=("X01",), aliases=SELF, raises=raises,
      post=lambda e: parts(e.ret, fr(e.old.this, e.old.args[0]), fi(e.old.this, e.old.args[0])))
    C(name="operator" + op + "=", nparams=1, props=("X01",), aliases=SELF, raises=raises, frame=lambda e: [e.this], ret=lambda e: e.this,
      post=lambda e: parts(e.this, fr(e.old.this, e.old.args[0]), fi(e.old.this, e.old.args[0])))


norm2 = lambda o: re(o) * re(o) + im(o) * im(o)
binary("+", lambda a, b: re(a) + re(b), lambda a, b: im(a) + im(b))
binary("-", lambda a, b: re(a) - re(b), lambda a, b: im(a) - im(b))
binary("*", lambda a, b: re(a) * re(b) - im(a) * im(b), lambda a, b: re(a) * im(b) + im(a) * re(b))


def quot(o, a, b):
    # o * b == a, the definition of the quotient: (o.re b.re - o.im b.im, o.re b.im + o.im b.re) = a
    return [("real-of-quotient-times-divisor", re(o) * re(b) - im(o) * im(b) == re(a)),
            ("imag-of-quotient-times-divisor", re(o) * im(b) + im(o) * re(b) == im(a))]


binary("/", lambda a, b: (re(a) * re(b) + im(a) * im(b)) / norm2(b), lambda a, b: (im(a) * re(b) - re(a) * im(b)) / norm2(b), raises=lambda e: is0(e.args[0]))

C(name="operator-", nparams=0, props=("X01",), post=lambda e: parts(e.ret, -re(e.old.this), -im(e.old.this)))
C(name="operator+", nparams=0, props=("X01",), post=lambda e: parts(e.ret, re(e.old.this), im(e.old.this)))
C(name="conjugate", nparams=0, props=("X01",), post=lambda e: parts(e.ret, re(e.old.this), -im(e.old.this)))
C(name="real", nparams=0, props=("X01",), post=lambda e: [("value", e.ret == re(e.old.this))])
C(name="imag", nparams=0, props=("X01",), post=lambda e: [("value", e.ret == im(e.old.this))])
C(name="abs", nparams=0, props=("X01",), post=lambda e: [("modulus", And(e.ret >= 0, e.ret * e.ret == norm2(e.old.this))), ("hypot", e.ret == HYPOT(re(e.old.this), im(e.old.this)))])
C(name="arg", nparams=0, props=("X01",), post=lambda e: [("phase", e.ret == ATAN2(im(e.old.this), re(e.old.this)))])
C(name="operator==", nparams=1, props=("X01",), aliases=SELF,
  post=lambda e: [("componentwise-within-epsilon", e.ret == And(rabs(re(e.old.this) - re(e.old.args[0])) < EPS, rabs(im(e.old.this) - im(e.old.args[0])) < EPS))])


def pow_post(e):
    z, w = e.old.args[0], e.old.args[1]
    r, t = HYPOT(re(z), im(z)), ATAN2(im(z), re(z))
    coef = RPOW(r, re(w)) * REXP(-t * im(w))
    theta = RLOG(r) * im(w) + t * re(w)
    one = is0(w)
    return [("zero-exponent-gives-1", Implies(one, And(re(e.ret) == 1, im(e.ret) == 0))),
            ("real", Implies(Not(one), re(e.ret) == coef * RCOS(theta))), ("imag", Implies(Not(one), im(e.ret) == coef * RSIN(theta)))]


C(name="pow", nparams=2, props=("X01",), aliases=(None, {1: 0}), raises=lambda e: And(Not(is0(e.args[1])), is0(e.args[0])), post=pow_post)


def same(o, s):
    return parts(o, re(s), im(s))


def moved(o):
    return [("moved-from-is-zero", And(re(o) == 0, im(o) == 0))]


C(name="Complex", nparams=1, pred=lambda d: "&&" in cppsig(d), suffix="(Complex&&)", props=("A01",), frame=lambda e: [e.args[0]],
  post=lambda e: same(e.this, e.old.args[0]) + moved(e.args[0]))
C(name="operator=", nparams=1, pred=lambda d: "&&" in cppsig(d), suffix="(Complex&&)", props=("A01",), frame=lambda e: [e.this, e.args[0]], ret=lambda e: e.this,
  post=lambda e: same(e.this, e.old.args[0]) + moved(e.args[0]))
C(name="operator=", nparams=1, pred=lambda d: "const Complex &" in cppsig(d), suffix="(const Complex&)", props=("A01",), optional=True, aliases=SELF, frame=lambda e: [e.this], ret=lambda e: e.this,
  post=lambda e: same(e.this, e.old.args[0]))

C(cls=None, name="operator()", title="std::hash<Complex>::operator()", params=["constComplex&"], props=("H01",), determined=lambda e: [re(e.args[0]), im(e.args[0])])


def printed_complex(e):
    c = e.old.args[1]
    neg = im(c) < 0
    text = lambda sign: Text().add(ar(e.old.args[0]), ln(e.old.args[0])).lit("(").add(*elem_text(re(c))).lit(sign).add(*elem_text(rabs(im(c)))).lit("j)")
    return [("negative-" + n, Implies(neg, g)) for n, g in text("-").equals(e.args[0])] + [("positive-" + n, Implies(Not(neg), g)) for n, g in text("+").equals(e.args[0])]


C(name="operator<<", nparams=2, pred=lambda d: "ostream" in cppsig(d), suffix="(ostream)", props=("P01",), frame=lambda e: [e.args[0]], ret=lambda e: e.args[0], post=printed_complex)
