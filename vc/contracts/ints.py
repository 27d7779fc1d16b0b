"""Contracts of Int (int.hpp).  The value of an Int is Val(sign, digits, length); CANON is its invariant."""
from .common import *

INT = []


def C(**kw):
    kw.setdefault("cls", "Int")
    c = Contract(**kw)
    INT.append(c)
    return c


def canon_this(e):
    return [("canonical", canon(e.this))]


def canon_both(e):
    return [("canonical", canon(e.this)), ("canonical-rhs", canon(e.args[0]))]


def L_len(L):
    return ln(L.this)


# ---------------------------------------------------------------- trim
def trim_inv(L):
    p = L.ctr()
    t = L.this
    return [("position", And(p >= 0, p <= ln(t))),
            ("zeros-above", P(ar(t), ln(t)) == P(ar(t), p))]


C(name="trim", nparams=0, props=("I01", "I02", "I03", "U01"),
  pre=lambda e: [("digits", DIG(ar(e.this), ln(e.this))), ("sign", And(sg(e.this) >= -1, sg(e.this) <= 1)),
                 ("zero-is-empty", Implies(sg(e.this) == 0, ln(e.this) == 0)),
                 ("length", And(ln(e.this) >= 0, ln(e.this) <= 2 * LIMI + 2))],
  post=lambda e: [("canonical", canon(e.this)), ("value", val(e.this) == val(e.old.this))],
  frame=lambda e: [e.this], ret=lambda e: e.this,
  proof=lambda e: [P(ar(e.this), 0) == 0],
  loops=[LoopSpec(trim_inv, lambda L: L.ctr())])


# ---------------------------------------------------------------- abs_inc / abs_dec
def abs_inc_1(L):
    i, t = L.ctr(), L.this
    return [("index", And(0 <= i, i < ln(t))),
            ("nines", allk(lambda k: at(t, k) == 9, 0, i, lambda k: at(t, k)))]


def abs_2(sign):
    def inv(L):
        i, t = L.ctr(), L.this
        i0 = L.centry(L.ctr_cell())
        a0 = L.pre(t)
        low = 0 if sign < 0 else 9      # digits below i0 on entry
        return [("index", And(0 <= i, i <= i0, i0 < ln(t))),
                ("below", allk(lambda k: at(t, k) == low, 0, i, lambda k: at(t, k))),
                ("digits", digits(ar(t), 0, ln(t))),
                ("length", ln(t) == ln(a0)),
                ("value", P(ar(t), ln(t)) == P(ar(a0), ln(a0)) - sign * (P10(i0) - P10(i)))]
    return inv


C(name="abs_inc", nparams=0, props=("I01", "U01"),
  pre=lambda e: canon_this(e) + [("nonzero", sg(e.this) != 0)],
  post=lambda e: [("canonical", canon(e.this)), ("value", val(e.this) == val(e.old.this) + sg(e.old.this))],
  frame=lambda e: [e.this],
  proof=lambda e: [P10(IntVal(0)) == 1],
  loops=[LoopSpec(abs_inc_1, lambda L: ln(L.this) - L.ctr()), LoopSpec(abs_2(1), lambda L: L.ctr())])


def abs_dec_1(L):
    i, t = L.ctr(), L.this
    return [("index", And(0 <= i, i < ln(t))),
            ("zeros", allk(lambda k: at(t, k) == 0, 0, i, lambda k: at(t, k)))]


C(name="abs_dec", nparams=0, props=("I01", "U01"),
  pre=lambda e: canon_this(e) + [("nonzero", sg(e.this) != 0)],
  post=lambda e: [("canonical", canon(e.this)), ("value", val(e.this) == val(e.old.this) - sg(e.old.this))],
  frame=lambda e: [e.this],
  proof=lambda e: [P10(IntVal(0)) == 1],
  loops=[LoopSpec(abs_dec_1, lambda L: ln(L.this) - L.ctr()), LoopSpec(abs_2(-1), lambda L: L.ctr())])


# ---------------------------------------------------------------- comparison of magnitudes
def cmp_inv(L):
    i, t, r = L.ctr(), L.this, L.args[0]
    n = ln(t)
    return [("index", And(i >= -1, i < n)),
            ("equal-above", P(ar(t), n) - P(ar(t), simplify(i + 1)) == P(ar(r), n) - P(ar(r), simplify(i + 1)))]


def cmp_hints(L):
    i, t, r = L.ctr(), L.this, L.args[0]
    d = at(t, i) - at(r, i)
    p = P10(i)
    return [mention(P(ar(t), i)), mention(P(ar(r), i)), Implies(And(d >= 1, p >= 1), d * p >= p), Implies(And(d <= -1, p >= 1), d * p <= -p)]


def sgn(x):
    return If(x > 0, IntVal(1), If(x < 0, IntVal(-1), IntVal(0)))


C(name="abs_cmp", nparams=1, props=("I01", "I04", "U01"), aliases=(None, {0: "this"}),
  pre=canon_both,
  post=lambda e: [("order", e.ret == sgn(mag(e.this) - mag(e.args[0])))],
  proof=lambda e: [],
  loops=[LoopSpec(cmp_inv, lambda L: L.ctr() + 1, hints=cmp_hints)])


# ---------------------------------------------------------------- += and -=
def opposite(e):
    s, r = sg(e.this), sg(e.args[0])
    return And(s != 0, r != 0, s != r)


def add_measure(e):
    if e.args[0] is e.this:
        return IntVal(1)
    return If(opposite(e), IntVal(2), IntVal(0))


def digit_products(a, i):
    return []


def carry_inv1(sub):
    def inv(L):
        i = L.ctr()
        a = L.this
        a0 = L.pre(a)
        b = L.args[0] if not sub else L.local_vec()
        bv = vec_of(b)
        n = ln(a)
        low, high = (-1, 9) if sub else (0, 10)
        A = ar(a)
        return [("index", And(0 <= i, i <= bv.len, bv.len < n)),
                ("length", n == ln(a0)),
                ("digits-below", DIG(A, i)),
                ("digits-above", digits(A, simplify(i + 1), n)),
                ("current", And(at(a, i) >= low, at(a, i) <= high)),
                ("top", And(Implies(i < n - 1, at(a, simplify(n - 1)) == 0), at(a, simplify(n - 1)) <= 1, at(a, simplify(n - 1)) >= -1)),
                ("value", P(A, n) == P(ar(a0), n) + (-1 if sub else 1) * P(bv.arr, i))]
    return inv


def carry_inv2(sub):
    def inv(L):
        i = L.ctr()
        a = L.this
        a0 = L.pre(a)
        n = ln(a)
        A = ar(a)
        low, high = (-1, 9) if sub else (0, 10)
        return [("index", And(0 <= i, i < n)),
                ("length", n == ln(a0)),
                ("digits-below", DIG(A, i)),
                ("digits-above", digits(A, simplify(i + 1), n)),
                ("current", And(at(a, i) >= low, at(a, i) <= high)),
                ("top", And(Implies(i < n - 1, at(a, simplify(n - 1)) == 0), at(a, simplify(n - 1)) <= 1, at(a, simplify(n - 1)) >= -1)),
                ("value", P(A, n) == P(ar(a0), n))]
    return inv


def carry_h(sub):
    def h(L):
        i, A = L.ctr(), ar(L.this)
        n = ln(L.this)
        return [mention(P(A, simplify(n - 1))), mention(DIG(A, simplify(n - 1))), mention(DIG(A, n)), mention(P10(simplify(i + 1))), mention(P10(i))]
    return h


def add_post(sign):
    return lambda e: [("canonical", canon(e.this)), ("value", val(e.this) == val(e.old.this) + sign * val(e.old.args[0]))]


for nm, sgnv in (("operator+=", 1), ("operator-=", -1)):
    sub = sgnv < 0
    C(name=nm, nparams=1, props=("I01", "U01", "A01"), group="addsub", aliases=(None, {0: "this"}),
      pre=canon_both, post=add_post(sgnv), decreases=add_measure,
      frame=lambda e: [e.this], ret=lambda e: e.this,
      proof=lambda e: [mention(P(ar(e.this), ln(e.this))), mention(P(ar(e.args[0]), ln(e.args[0])))],
      loops=[LoopSpec(carry_inv1(sub), lambda L: ln(L.this) - L.ctr(), hints=carry_h(sub)),
             LoopSpec(carry_inv2(sub), lambda L: ln(L.this) - L.ctr(), hints=carry_h(sub))])


# ---------------------------------------------------------------- construction from int, unary operators, ++ --
def value_is(o, v):
    return [("canonical", canon(o)), ("value", val(o) == v)]


def from_int_inv(L):
    v = L.ctr()
    t = L.this
    v0 = L.centry(L.ctr_cell())
    return [("range", And(v >= 0, v <= v0)),
            ("digits", DIG(ar(t), ln(t))),
            ("length", ln(t) >= 0),
            ("value", P(ar(t), ln(t)) + v * P10(ln(t)) == v0),
            ("top", Implies(And(v == 0, ln(t) > 0), at(t, simplify(ln(t) - 1)) != 0)),
            ("nonempty", (v != v0) == (ln(t) > 0))]


C(name="Int", params=["int"], suffix="(int)", props=("I05", "U01"),
  post=lambda e: value_is(e.this, e.val(0)),
  proof=lambda e: [P10(IntVal(0)) == 1],
  loops=[LoopSpec(from_int_inv, lambda L: L.ctr())])

C(name="operator-", nparams=0, props=("I01", "U01"), suffix="()", pre=canon_this, post=lambda e: value_is(e.ret, -val(e.old.this)))
C(name="operator+", nparams=0, props=("I01", "U01"), suffix="()", pre=canon_this, post=lambda e: value_is(e.ret, val(e.old.this)))
C(name="abs", nparams=0, props=("I01", "U01"), pre=canon_this, post=lambda e: value_is(e.ret, absv(val(e.old.this))))
C(name="operator++", nparams=0, props=("I01", "U01"), pre=canon_this, frame=lambda e: [e.this], ret=lambda e: e.this,
  post=lambda e: value_is(e.this, val(e.old.this) + 1))
C(name="operator--", nparams=0, props=("I01", "U01"), pre=canon_this, frame=lambda e: [e.this], ret=lambda e: e.this,
  post=lambda e: value_is(e.this, val(e.old.this) - 1))
C(name="operator+", nparams=1, props=("I01", "A01", "U01"), aliases=(None, {0: "this"}), pre=canon_both,
  post=lambda e: value_is(e.ret, val(e.old.this) + val(e.old.args[0])))
C(name="operator-", nparams=1, props=("I01", "A01", "U01"), aliases=(None, {0: "this"}), pre=canon_both,
  post=lambda e: value_is(e.ret, val(e.old.this) - val(e.old.args[0])))

# ---------------------------------------------------------------- comparison, sign, parity, digits
def rep(o):
    return (sg(o), ar(o), ln(o))


C(name="operator==", nparams=1, props=("I04", "H01", "U01"), aliases=(None, {0: "this"}), pre=canon_both,
  post=lambda e: [("equality", e.ret == (val(e.this) == val(e.args[0])))],
  proof=lambda e: [canon_unique(*rep(e.this), *rep(e.args[0])), mention(P(ar(e.this), ln(e.this))), mention(P(ar(e.args[0]), ln(e.args[0])))])
C(name="operator<=>", nparams=1, props=("I04", "U01"), aliases=(None, {0: "this"}), pre=canon_both,
  ret=lambda e: e.ex.fresh("order"),
  post=lambda e: [("order", sgn(e.ret) == sgn(val(e.this) - val(e.args[0])))],
  proof=lambda e: [mention(P(ar(e.this), ln(e.this))), mention(P(ar(e.args[0]), ln(e.args[0])))])
C(name="digits", nparams=0, props=("I04", "U01"), pre=canon_this,
  post=lambda e: [("length", e.ret == ln(e.this)),
                  ("number-of-digits", Implies(val(e.this) != 0, And(P10(simplify(e.ret - 1)) <= absv(val(e.this)), absv(val(e.this)) < P10(e.ret)))),
                  ("zero", (val(e.this) == 0) == (e.ret == 0))],
  proof=lambda e: [mention(P(ar(e.this), ln(e.this)))])
C(name="is_zero", nparams=0, props=("I04",), pre=canon_this, post=lambda e: [("zero", e.ret == (val(e.this) == 0))])
C(name="is_positive", nparams=0, props=("I04",), pre=canon_this, post=lambda e: [("positive", e.ret == (val(e.this) > 0))])
C(name="is_negative", nparams=0, props=("I04",), pre=canon_this, post=lambda e: [("negative", e.ret == (val(e.this) < 0))])


def tail(o):
    return ERASEI(ar(o), IntVal(0), IntVal(1))


def parity(o):
    """value = sign * (10 * rest + lowest digit)"""
    return [mention(P(tail(o), simplify(ln(o) - 1))), mention(P(ar(o), ln(o)))]


C(name="is_even", nparams=0, props=("I04", "U01"), pre=canon_this, post=lambda e: [("even", e.ret == (val(e.this) % 2 == 0))], proof=lambda e: parity(e.this))
C(name="is_odd", nparams=0, props=("I04", "U01"), pre=canon_this, post=lambda e: [("odd", e.ret == (val(e.this) % 2 == 1))], proof=lambda e: parity(e.this))


# ---------------------------------------------------------------- multiplication
def mul_outer(L):
    i = L.ctr()
    a, b = L.this, L.args[0]
    c = vec_of(L.local_struct("Int"))
    la, lb = ln(a), ln(b)
    return [("index", And(0 <= i, i <= la)),
            ("length", c.len == la + lb),
            ("digits", DIG(c.arr, c.len)),
            ("zeros-above", allk(lambda k: Select(c.arr, k) == 0, simplify(i + lb), c.len, lambda k: Select(c.arr, k))),
            ("value", P(c.arr, c.len) == P(ar(a), i) * P(ar(b), lb))]


def mul_inner(L):
    j = L.ctr()
    i = L.outer_ctr()
    a, b = L.this, L.args[0]
    c = vec_of(L.local_struct("Int"))
    la, lb = ln(a), ln(b)
    top = Select(c.arr, simplify(i + lb))
    cur = Select(c.arr, simplify(i + j))
    return [("index", And(0 <= j, j <= lb, 0 <= i, i < la)),
            ("length", c.len == la + lb),
            ("digits-below", DIG(c.arr, simplify(i + j))),
            ("digits-above", DIGR(c.arr, simplify(i + j + 1), c.len)),
            ("current", And(cur >= 0, cur <= 18, Implies(j == lb, cur <= 9))),
            ("top", Implies(j < lb, top == 0)),
            ("zeros-above", allk(lambda k: Select(c.arr, k) == 0, simplify(i + lb + 1), c.len, lambda k: Select(c.arr, k))),
            ("value", P(c.arr, c.len) == P(ar(a), i) * P(ar(b), lb) + at(a, i) * P10(i) * P(ar(b), j))]


def mul_hints(L):
    j, i = L.ctr(), L.outer_ctr()
    a, b = L.this, L.args[0]
    x, y = at(a, i), at(b, j)
    return [p10_add(i, j), mention(P10(simplify(i + j + 1))),
            Implies(And(x >= 0, x <= 9, y >= 0, y <= 9), And(x * y >= 0, x * y <= 81)),
            Implies(P(ar(b), simplify(j + 1)) == P(ar(b), j) + y * P10(j),
                    x * P10(i) * P(ar(b), simplify(j + 1)) == x * P10(i) * P(ar(b), j) + x * y * P10(i) * P10(j)),
            Implies(P10(simplify(i + j)) == P10(i) * P10(j), x * y * P10(simplify(i + j)) == x * y * P10(i) * P10(j))]


def mul_step(L):
    i, j = L.outer_ctr(), L.ctr()
    a, b = L.this, L.args[0]
    return []


C(name="operator*=", nparams=1, props=("I02", "U01", "A01"), aliases=(None, {0: "this"}), pre=canon_both,
  post=lambda e: value_is(e.this, val(e.old.this) * val(e.old.args[0])),
  frame=lambda e: [e.this], ret=lambda e: e.this,
  proof=lambda e: [mention(P(ar(e.this), ln(e.this))), mention(P(ar(e.args[0]), ln(e.args[0]))), P10(IntVal(0)) == 1],
  loops=[LoopSpec(mul_outer, lambda L: ln(L.this) - L.ctr(), hints=lambda L: [mention(P(ar(L.this), simplify(L.ctr() + 1)))]),
         LoopSpec(mul_inner, lambda L: ln(L.args[0]) - L.ctr(), hints=mul_hints)])
C(name="operator*", nparams=1, props=("I02", "A01", "U01"), aliases=(None, {0: "this"}), pre=canon_both,
  post=lambda e: value_is(e.ret, val(e.old.this) * val(e.old.args[0])))


# ---------------------------------------------------------------- division
def nonzero_rhs(e):
    return val(e.args[0]) == 0


def B(L):
    """|divisor| on entry of the function"""
    return mag(L.old.args[0])


def A(L):
    return mag(L.old.this)


def div_parts(L):
    tmp = L.local_struct("Int", 0, "tmp")
    lb = ln(L.old.args[0])
    la = ln(L.old.this)
    return tmp, lb, simplify(la - lb + 1)


def whole(L):
    """A - V is a multiple of B"""
    x = A(L) - mag(L.this)
    return x == TDIV(x, B(L)) * B(L)


def div_outer(quot):
    def inv(L):
        k = L.ctr()
        t = L.this
        tmp, lb, size = div_parts(L)
        i = k if quot else simplify(size - 1 - k)
        n1 = simplify(i + 1)     # tmp = rhs * 10^(i+1)
        res = [("index", And(i >= -1, i < size, size >= 1, size <= LIMI + 1)),
               ("remainder", And(canon(t), sg(t) >= 0, mag(t) >= 0)) if False else ("remainder", canon(t)),
               ("remainder-sign", And(sg(t) >= 0, val(t) == mag(t), mag(t) >= 0)) ,
               ("tmp", And(sg(tmp) == 1, ln(tmp) == lb + n1, DIG(ar(tmp), ln(tmp)), at(tmp, simplify(ln(tmp) - 1)) != 0)),
               ("tmp-zeros", allk(lambda k: at(tmp, k) == 0, 0, n1, lambda k: at(tmp, k))),
               ("tmp-value", mag(tmp) == B(L) * P10(n1)),
               ("bound", mag(t) < B(L) * P10(n1))]
        if quot:
            r = L.local_struct("Int", 1, "result")
            res += [("quotient", And(ln(r) == size, DIG(ar(r), ln(r)), sg(r) == If(sg(L.old.this) == sg(L.old.args[0]), IntVal(1), IntVal(-1)))),
                    ("quotient-zeros", allk(lambda k: at(r, k) == 0, 0, n1, lambda k: at(r, k))),
                    ("value", A(L) == mag(r) * B(L) + mag(t))]
        else:
            res += [("value", whole(L))]
        return res
    return inv


def div_outer_hints(quot):
    def h(L):
        tmp, lb, size = div_parts(L)
        i = L.ctr() if quot else simplify(size - 1 - L.ctr())
        n1 = simplify(i + 1)
        b = B(L)
        return [mention(P(tail(tmp), simplify(ln(tmp) - 1))), mention(P10(i)),
                Implies(P10(n1) == 10 * P10(i), b * P10(n1) == 10 * (b * P10(i))),
                Implies(And(b >= 1, P10(i) >= 1), b * P10(i) >= 1)]
    return h


def div_inner(quot):
    def inv(L):
        t = L.this
        tmp, lb, size = div_parts(L)
        i = L.outer_ctr()
        res = [("remainder", canon(t)), ("remainder-sign", And(sg(t) >= 0, val(t) == mag(t), mag(t) >= 0))]
        if quot:
            r = L.local_struct("Int", 1, "result")
            T = mag(tmp)
            res += [("quotient", And(ln(r) == size, DIG(ar(r), ln(r)))),
                    ("quotient-zeros", allk(lambda k: at(r, k) == 0, 0, i, lambda k: at(r, k))),
                    ("bound", And(mag(t) + at(r, i) * T < 10 * T)),
                    ("value", A(L) == mag(r) * B(L) + mag(t))]
        else:
            res += [("value", whole(L))]
        return res
    return inv


def div_count_inv(L):
    """the subtractions are counted apart, the digit is written afterwards"""
    t = L.this
    tmp, lb, size = div_parts(L)
    i, c = L.outer_ctr(), L.ctr(name="times")
    r = L.local_struct("Int", 1, "result")
    T = mag(tmp)
    return [("remainder", canon(t)), ("remainder-sign", And(sg(t) >= 0, val(t) == mag(t), mag(t) >= 0)), ("times", And(c >= 0, c <= 9)),
            ("bound", mag(t) + c * T < 10 * T), ("value", A(L) == mag(r) * B(L) + c * T + mag(t))]


def div_count_hints(L):
    tmp, lb, size = div_parts(L)
    T, b, c, p = mag(tmp), B(L), L.ctr(name="times"), P10(simplify(L.outer_ctr()))
    r = mag(L.local_struct("Int", 1, "result"))
    return [Implies(And(c >= 9, T >= 1), c * T >= 9 * T), Implies(And(c >= 0, T >= 1), c * T >= 0), Implies(T == b * p, c * T == (c * p) * b),
            (r + c * p) * b == r * b + (c * p) * b]


def div_inner_hints(quot):
    def h(L):
        tmp, lb, size = div_parts(L)
        L.head = mag(L.this)
        T = mag(tmp)
        if quot:
            r = L.local_struct("Int", 1, "result")
            L.quot = mag(r)
            c = at(r, L.outer_ctr())
            return [Implies(And(c >= 9, T >= 1), c * T >= 9 * T), Implies(And(c >= 0, T >= 1), c * T >= 0)]
        return []
    return h


def div_inner_step(quot):
    def h(L):
        tmp, lb, size = div_parts(L)
        if quot:
            r1, p = mag(L.local_struct("Int", 1, "result")), P10(simplify(L.outer_ctr()))
            return [Implies(r1 == L.quot + p, r1 * B(L) == L.quot * B(L) + B(L) * p)]
        i = simplify(size - 1 - L.outer_ctr())
        return [tdiv_unique(A(L) - mag(L.this), B(L), TDIV(A(L) - L.head, B(L)) + P10(i), IntVal(0))]
    return h


def div_exit(quot):
    def h(L):
        a, b = val(L.old.this), val(L.old.args[0])
        sa = sg(L.old.this)
        if quot:
            r = L.local_struct("Int", 1, "result")
            return [tdiv_unique(a, b, sg(r) * mag(r), sa * mag(L.this)), P10(IntVal(0)) == 1]
        x = TDIV(A(L) - mag(L.this), B(L))
        return [tdiv_unique(a, b, If(sa == sg(L.old.args[0]), x, -x), sa * mag(L.this)), P10(IntVal(0)) == 1]
    return h


def div_proof(e):
    a, b = val(e.this), val(e.args[0])
    return [mention(P(ar(e.this), ln(e.this))), mention(P(ar(e.args[0]), ln(e.args[0]))), P10(IntVal(0)) == 1,
            p10_add(simplify(ln(e.args[0]) - 1), simplify(ln(e.this) - ln(e.args[0]) + 1)),
            Implies(And(mag(e.args[0]) >= P10(simplify(ln(e.args[0]) - 1)), P10(simplify(ln(e.this) - ln(e.args[0]) + 1)) >= 1),
                    mag(e.args[0]) * P10(simplify(ln(e.this) - ln(e.args[0]) + 1)) >= P10(simplify(ln(e.args[0]) - 1)) * P10(simplify(ln(e.this) - ln(e.args[0]) + 1))),
            tdiv_unique(a, b, IntVal(0), a), tdiv_unique(IntVal(0), mag(e.args[0]), IntVal(0), IntVal(0))]


for nm, quot in (("operator/=", True), ("operator%=", False)):
    C(name=nm, nparams=1, props=("I03", "U01", "A01"), aliases=(None, {0: "this"}), pre=canon_both,
      raises=nonzero_rhs, frame=lambda e: [e.this], ret=lambda e: e.this,
      post=(lambda e: value_is(e.this, TDIV(val(e.old.this), val(e.old.args[0])))) if quot else
           (lambda e: value_is(e.this, TMOD(val(e.old.this), val(e.old.args[0])))),
      proof=div_proof,
      loops=[LoopSpec(div_outer(quot), (lambda L: L.ctr() + 1) if quot else (lambda L: div_parts(L)[2] - L.ctr()),
                      hints=div_outer_hints(quot), exit_hints=div_exit(quot)),
             LoopSpec(div_inner(quot), lambda L: mag(L.this), hints=div_inner_hints(quot), step_hints=div_inner_step(quot))],
      alts=[[LoopSpec(div_outer(quot), lambda L: L.ctr() + 1, hints=div_outer_hints(quot), exit_hints=div_exit(quot)),
             LoopSpec(div_count_inv, lambda L: mag(L.this), hints=div_count_hints)]] if quot else [])
for nm, f in (("operator/", TDIV), ("operator%", TMOD)):
    C(name=nm, nparams=1, props=("I03", "U01", "A01"), aliases=(None, {0: "this"}), pre=canon_both, raises=nonzero_rhs,
      post=lambda e, f=f: value_is(e.ret, f(val(e.old.this), val(e.old.args[0]))))


# ---------------------------------------------------------------- factorial
C(name="factorial", nparams=0, props=("I02", "U01"), pre=canon_this, raises=lambda e: val(e.this) < 0,
  post=lambda e: value_is(e.ret, FACT(val(e.old.this))),
  proof=lambda e: [mention(FACT(val(e.this)))],
  loops=[LoopSpec(lambda L: [("counter", canon(L.local_struct("Int", 1, "i"))), ("result", canon(L.local_struct("Int", 0, "result"))),
                             ("range", val(L.local_struct("Int", 1, "i")) >= 0),
                             ("value", val(L.local_struct("Int", 0, "result")) * FACT(val(L.local_struct("Int", 1, "i"))) == FACT(val(L.old.this)))],
                  lambda L: val(L.local_struct("Int", 1, "i")),
                  hints=lambda L: fact_hints(val(L.local_struct("Int", 0, "result")), val(L.local_struct("Int", 1, "i"))))])


def fact_hints(r, i):
    f = FACT(simplify(i - 1))
    return [Implies(i >= 1, FACT(i) == i * f), FACT(IntVal(0)) == 1, Implies(And(i >= 1, FACT(i) == i * f), r * FACT(i) == r * i * f)]


# ---------------------------------------------------------------- machine integers
def to_integer_range(e):
    t = e.ret_type
    lo, hi = irange(t)
    return [("canonical", canon(e.this)), ("representable", And(val(e.this) >= lo, val(e.this) <= hi))]


def to_int_inv(L):
    i = L.ctr_named("i")
    r = L.var_other("result", i)
    t = L.this
    return [("index", And(i >= -1, i < ln(t))), ("value", val(t) == r * P10(simplify(i + 1)) + sg(t) * P(ar(t), simplify(i + 1))),
            ("sign", And(Implies(sg(t) >= 0, r >= 0), Implies(sg(t) <= 0, r <= 0)))]


def to_int_hints(L):
    i = L.ctr_named("i")
    r = L.var_other("result", i)
    t = L.this
    a, p = at(t, i), P10(i)
    s = sg(t)
    x = r * 10 + a * s
    return [mention(p), mention(P(ar(t), i)),
            Implies(And(P10(simplify(i + 1)) == 10 * p, P(ar(t), simplify(i + 1)) == P(ar(t), i) + a * p),
                    r * P10(simplify(i + 1)) + s * P(ar(t), simplify(i + 1)) == x * p + s * P(ar(t), i)),
            Implies(And(p >= 1, x >= 0), x * p >= x), Implies(And(p >= 1, x <= 0), x * p <= x),
            Implies(And(P10(simplify(i + 1)) >= 1, r >= 0), r * P10(simplify(i + 1)) >= r)]


from ..engine import irange, ITYPES
from ..cppast import fsig as _fsig
for t in ("int", "long long"):
    C(name="to_integer", nparams=0, suffix="<%s>" % t, props=("I05", "U01"), pred=lambda d, t=t: _fsig(d).startswith(t + " ("),
      pre=lambda e, t=t: [("canonical", canon(e.this)), ("representable", And(val(e.this) >= irange(t)[0], val(e.this) <= irange(t)[1]))],
      post=lambda e: [("value", e.ret == val(e.this))],
      proof=lambda e: [mention(P(ar(e.this), ln(e.this))), P10(IntVal(0)) == 1],
      loops=[LoopSpec(to_int_inv, lambda L: L.ctr_named("i") + 1, hints=to_int_hints)])


# ---------------------------------------------------------------- gcd, lcm
def gcd_inv(L):
    a, b = L.args
    return [("canonical", And(canon(a), canon(b))), ("sign", And(val(a) >= 0, val(b) >= 0)),
            ("gcd", GCD(val(a), val(b)) == GCD(val(L.old.args[0]), val(L.old.args[1])))]


C(cls=None, name="gcd", params=["Int", "Int"], props=("I08", "U01"), title="internal::gcd<Int>",
  pre=lambda e: [("canonical", And(canon(e.args[0]), canon(e.args[1])))],
  post=lambda e: value_is(e.ret, GCD(val(e.old.args[0]), val(e.old.args[1]))),
  proof=lambda e: [gcd_abs(val(e.args[0]), val(e.args[1]))],
  loops=[LoopSpec(gcd_inv, lambda L: val(L.args[1]), hints=lambda L: [gcd_step(val(L.args[0]), val(L.args[1])), gcd_sub(val(L.args[1]), TMOD(val(L.args[0]), val(L.args[1])))])])


def canon_args(e):
    return [("canonical", And([canon(a) for a in e.args if isinstance(a, (Struct, Snap))]))]


def pair_aliases():
    return (None, {1: 0})


C(name="gcd", nparams=2, props=("I08", "U01"), aliases=pair_aliases(), pre=canon_args,
  post=lambda e: value_is(e.ret, GCD(val(e.args[0]), val(e.args[1]))) +
  [("divides", Or(val(e.ret) == 0, And(TMOD(val(e.args[0]), val(e.ret)) == 0, TMOD(val(e.args[1]), val(e.ret)) == 0)))],
  lemmas=lambda e: [gcd_divides(val(e.args[0]), val(e.args[1]))],
  proof=lambda e: gcd_facts(val(e.args[0]), val(e.args[1])))


def gcd_facts(a, b):
    g = GCD(a, b)
    return [gcd_divides(a, b), tdiv_unique(a, g, GQ1(a, b), IntVal(0)), tdiv_unique(b, g, GQ2(a, b), IntVal(0))]


def lcm_post(e):
    a, b = val(e.args[0]), val(e.args[1])
    g = GCD(a, b)
    l = val(e.ret)
    return [("canonical", canon(e.ret)), ("non-negative", l >= 0), ("zero", (l == 0) == Or(a == 0, b == 0)),
            ("product", l * g == absv(a * b))]


def lcm_proof(e):
    a, b = val(e.args[0]), val(e.args[1])
    g = GCD(a, b)
    q1, q2 = GQ1(a, b), GQ2(a, b)
    x = absv(a * b)
    return [gcd_divides(a, b), tdiv_unique(x, g, absv(q1 * b), IntVal(0)),
            Implies(a == g * q1, a * b == g * (q1 * b)),
            Implies(And(a != 0, b != 0), And(a * b != 0, q1 * b != 0)) if False else Implies(And(a != 0, b != 0), a * b != 0),
            Implies(And(g > 0, q1 * b > 0), g * (q1 * b) > 0), Implies(And(g > 0, q1 * b < 0), g * (q1 * b) < 0),
            Implies(And(q1 * b == 0), g * (q1 * b) == 0)]


C(name="lcm", nparams=2, props=("I08", "U01"), aliases=pair_aliases(), pre=canon_args, post=lcm_post, proof=lcm_proof)


# ---------------------------------------------------------------- primes
def prime_inv(L):
    i = L.local_struct("Int", 0, "i")
    return [("counter", And(canon(i), val(i) >= 2)), ("no-divisor-below", NODIV(val(L.this), val(i)))]


C(name="is_prime", nparams=0, props=("I09", "U01"), pre=canon_this,
  post=lambda e: [("prime", e.ret == isprime(val(e.this)))],
  proof=lambda e: [nodiv_base(val(e.this)), nodiv_even(val(e.this), HALF(val(e.this))), half_def(val(e.this)), nodiv_step(val(e.this), IntVal(2))],
  alts=[[LoopSpec(lambda L: prime_inv(L) + [("odd", And(val(L.this) % 2 == 1, val(L.local_struct("Int", 0, "i")) % 2 == 1))],
                  lambda L: val(L.this) - val(L.local_struct("Int", 0, "i")) + 2, hints=lambda L: prime_odd_hints(val(L.this), val(L.local_struct("Int", 0, "i"))))]],
  loops=[LoopSpec(prime_inv, lambda L: val(L.this) - val(L.local_struct("Int", 0, "i")),
                  hints=lambda L: prime_hints(val(L.this), val(L.local_struct("Int", 0, "i"))))])


def prime_hints(n, i):
    return [nodiv_step(n, i), nodiv_prime(n, i), nodiv_found(n, i), Implies(And(i >= 2, i * i <= n), i + i <= n)]


def prime_odd_hints(n, i):
    """only odd candidates: an odd number has no even divisor"""
    d = simplify(i + 1)
    return prime_hints(n, i) + [nodiv_step(n, d), odd_no_even_divisor(n, d)]


def np_inv(L):
    p = L.local_struct("Int", 0, "prime")
    n = val(L.old.this)
    return [("canonical", And(canon(p), val(p) >= 1, val(p) % 2 == 1)), ("above", Or(val(p) >= n, val(p) == n - 1)),
            ("none-between", NOPRIME(n, val(p)))]


def np_hints(L):
    p = val(L.local_struct("Int", 0, "prime"))
    n = val(L.old.this)
    h = HALF(simplify(p + 1))
    return [noprime_step(n, p), noprime_step(n, simplify(p + 1)), noprime_step(n, simplify(p + 2)),
            half_def(simplify(p + 1)), nodiv_even(simplify(p + 1), h), nextp(n, p), nextp(n, simplify(p + 2))]


from ..stdmodels import U
C(name="next_prime", nparams=0, props=("I09", "U01"), pre=canon_this,
  post=lambda e: [("canonical", canon(e.ret)), ("prime", isprime(val(e.ret))), ("greater", val(e.ret) > val(e.old.this)),
                  ("none-between", NOPRIME(val(e.old.this), simplify(val(e.ret) - 1)))],
  proof=lambda e: [noprime_step(val(e.this), IntVal(2)), noprime_step(val(e.this), IntVal(1)), noprime_step(val(e.this), IntVal(0)), nodiv_base(IntVal(2)),
                   noprime_low(val(e.this)), noprime_step(val(e.this), val(e.this)), noprime_step(val(e.this), simplify(val(e.this) - 1))],
  loops=[LoopSpec(np_inv, lambda L: NEXTP(val(L.old.this)) - val(L.local_struct("Int", 0, "prime")), hints=np_hints)],
  alts=[[LoopSpec(lambda L: np_each_inv(L), lambda L: NEXTP(val(L.old.this)) - val(L.local_struct("Int", 0, "prime")), hints=lambda L: np_each_hints(L))]])


def np_each_inv(L):
    """every number in turn"""
    p, n = L.local_struct("Int", 0, "prime"), val(L.old.this)
    return [("canonical", And(canon(p), val(p) >= 2, val(p) >= n)), ("none-between", NOPRIME(n, val(p)))]


def np_each_hints(L):
    p, n = val(L.local_struct("Int", 0, "prime")), val(L.old.this)
    return [noprime_step(n, p), noprime_step(n, simplify(p + 1)), nextp(n, p), nextp(n, simplify(p + 1))]


# ---------------------------------------------------------------- square root
def locals_int(L, *names):
    return [L.local_struct("Int", k, nm) for k, nm in enumerate(names)]


def sqrt_inv(L):
    cur, pre = locals_int(L, "cur_sqrt", "pre_sqrt")
    n = val(L.args[0])
    c, p = val(cur), val(pre)
    return [("canonical", And(canon(cur), canon(pre))), ("positive", And(c >= 1, p >= 1)),
            ("above-root", And((c + 1) * (c + 1) > n, (p + 1) * (p + 1) > n)),
            ("newton", Or(c < p, c == TDIV(p + TDIV(n, p), 2)))]


def sqrt_hints(L):
    cur, pre = locals_int(L, "cur_sqrt", "pre_sqrt")
    n = val(L.args[0])
    c, p = val(cur), val(pre)
    L.head_cur = c
    return amgm(n, c) + amgm(n, p) + [mention(P(ar(L.args[0]), ln(L.args[0])))]


def amgm(n, c):
    """(c + q + 1)^2 >= 4 c (q + 1) > 4 n  for q = n / c; and q >= c gives c*c <= n"""
    q = TDIV(n, c)
    nx = TDIV(c + q, 2)
    s = c + q + 1
    return [Implies(c >= 1, And(n == q * c + TMOD(n, c), n >= 0, TMOD(n, c) < c) if False else BoolVal(True)),
            s * s == 4 * (c * (q + 1)) + (c - q - 1) * (c - q - 1), (c - q - 1) * (c - q - 1) >= 0, c * (q + 1) == q * c + c,
            Implies(And(nx >= 0, 2 * (nx + 1) >= s, s >= 0), 4 * ((nx + 1) * (nx + 1)) >= s * s),
            Implies(And(q >= c, c >= 0), q * c >= c * c)]


C(name="sqrt", nparams=1, props=("I07", "U01"), pre=lambda e: [("canonical", canon(e.args[0]))], raises=lambda e: val(e.args[0]) < 0,
  post=lambda e: [("canonical", canon(e.ret)), ("non-negative", val(e.ret) >= 0),
                  ("floor", And(val(e.ret) * val(e.ret) <= val(e.args[0]), (val(e.ret) + 1) * (val(e.ret) + 1) > val(e.args[0])))],
  proof=lambda e: [mention(P(ar(e.args[0]), ln(e.args[0])))] + sqrt_start(e.args[0]),
  loops=[LoopSpec(sqrt_inv, lambda L: val(locals_int(L, "cur_sqrt", "pre_sqrt")[1]), hints=sqrt_hints)],
  alts=[[LoopSpec(lambda L: sqrt_one_inv(L), lambda L: val(L.local_struct("Int", 0, "cur_sqrt")), hints=lambda L: sqrt_one_hints(L))]])


def sqrt_one_inv(L):
    """one estimate, the next one is made in the body"""
    cur = L.local_struct("Int", 0, "cur_sqrt")
    n, c = val(L.args[0]), val(cur)
    return [("canonical", canon(cur)), ("positive", c >= 1), ("above-root", (c + 1) * (c + 1) > n)]


def sqrt_one_hints(L):
    n, c = val(L.args[0]), val(L.local_struct("Int", 0, "cur_sqrt"))
    return amgm(n, c) + [mention(P(ar(L.args[0]), ln(L.args[0])))]


def sqrt_start(o):
    n = ln(o)
    q = HALF(simplify(n + 1))
    m = P10(q)
    return [half_def(simplify(n + 1)), p10_add(q, q), mention(P10(simplify(2 * q))), mention(P10(n)), mention(P10(q)),
            Implies(m >= 1, And((m + 1) * (m + 1) == m * m + 2 * m + 1, (m + 2) * (m + 2) == m * m + 4 * m + 4))]


# ---------------------------------------------------------------- power
def pow_reduced(b, e, m):
    x = POW(b, e)
    return If(m == 0, x, TMOD(x, m))


def pow_post(e):
    b, n, m = [val(a) for a in e.old.args]
    r = val(e.ret)
    unit = If(Or(b == 1, n % 2 == 0), IntVal(1), IntVal(-1))
    return [("canonical", canon(e.ret)),
            ("power", Implies(And(n >= 0, m == 0), r == POW(b, n))),
            ("power-mod", Implies(And(n >= 0, m != 0), r == TMOD(POW(b, n), m))),
            ("unit", Implies(And(n < 0, Or(b == 1, b == -1)), r == If(m == 0, unit, TMOD(unit, m)))),
            ("vanishing", Implies(And(n < 0, b != 1, b != -1), r == 0))]


def pow_inv(L):
    num, n, r = locals_int(L, "num", "n", "result")
    b, e, m = [val(a) for a in L.old.args]
    x = val(r) * POW(val(num), val(n))
    return [("canonical", And(canon(num), canon(n), canon(r))), ("exponent", val(n) >= 0),
            ("power", Implies(m == 0, x == POW(b, e))),
            ("power-mod", Implies(m != 0, And(TMOD(x, m) == TMOD(POW(b, e), m), TMOD(val(r), m) == val(r))))]


def pow_hints(L):
    num, n, r = locals_int(L, "num", "n", "result")
    b, e, m = [val(a) for a in L.old.args]
    x, k, c = val(num), val(n), val(r)
    h = TDIV(k, IntVal(2))
    s = x * x
    c2 = c * x
    L.head = (x, k, c, s, h, c2)
    return [pow_square(x, k, h), mention(POW(x, k)), POW(x, IntVal(0)) == 1, tmod_idem(c2, m), mention(h),
            Implies(k == 2 * h + 1, c2 * POW(s, h) == c * POW(x, k)), Implies(k == 2 * h, c * POW(s, h) == c * POW(x, k))]


def pow_step(L):
    """the state after the body: r' in {c, c2, c2 mod m}, x' in {s, s mod m}, k' = h"""
    num, n, r = locals_int(L, "num", "n", "result")
    m = val(L.old.args[2])
    x, k, c, s, h, c2 = L.head
    x1, k1, c1 = val(num), val(n), val(r)
    y = POW(s, h)
    y1 = c1 * POW(x1, k1)
    sm, cm = TMOD(s, m), TMOD(c2, m)
    return [pow_tmod_c(c, s, h, m), pow_tmod_c(cm, s, h, m), tmod_mul(c2, y, m),
            Implies(And(m == 0, x1 == s, k1 == h, c1 == c), y1 == c * y),
            Implies(And(m == 0, x1 == s, k1 == h, c1 == c2), y1 == c2 * y),
            Implies(And(x1 == sm, k1 == h, c1 == c), y1 == c * POW(sm, h)),
            Implies(And(x1 == sm, k1 == h, c1 == cm), y1 == cm * POW(sm, h)),
            pow_square(x, k, h),
            Implies(And(m != 0, h >= 0, k == 2 * h, x1 == sm, k1 == h, c1 == c), TMOD(y1, m) == TMOD(c * POW(x, k), m)),
            Implies(And(m != 0, h >= 0, k == 2 * h + 1, x1 == sm, k1 == h, c1 == cm), TMOD(y1, m) == TMOD(c * POW(x, k), m))]


@lemma
def tmod_idem(x, m):
    """[lemma tdiv_unique] reducing twice is reducing once"""
    return tdiv_unique(TMOD(x, m), m, IntVal(0), TMOD(x, m))


def pow_proof(e):
    b, n, m = [val(a) for a in e.args]
    return [pow_one(n), mention(P(ar(e.args[0]), ln(e.args[0]))), mention(P(ar(e.args[0]), IntVal(1))), tmod_idem(IntVal(1), m), POW(b, IntVal(0)) == 1,
            tmod_mul(IntVal(1), POW(b, n), m), IntVal(1) * POW(b, n) == POW(b, n), tdiv_unique(IntVal(0), m, IntVal(0), IntVal(0))]


C(name="pow", nparams=3, props=("I06", "U01"),
  pre=canon_args, raises=lambda e: And(val(e.args[0]) == 0, val(e.args[1]) < 0), post=pow_post, proof=pow_proof,
  loops=[LoopSpec(pow_inv, lambda L: val(locals_int(L, "num", "n", "result")[1]), hints=pow_hints, step_hints=pow_step)])


# ---------------------------------------------------------------- logarithm
def log_inv(L):
    r, v = locals_int(L, "result", "value")
    n, b = val(L.args[0]), val(L.args[1])
    k = val(r)
    up = POW(b, simplify(k + 1))
    return [("canonical", And(canon(r), canon(v))), ("non-negative", And(k >= 0, val(v) >= 0)),
            ("power", And(POW(b, k) >= 1, POW(b, k) <= n, up >= 1, val(v) * up <= n, (val(v) + 1) * up > n))]


def log_hints(L):
    r, v = locals_int(L, "result", "value")
    n, b = val(L.args[0]), val(L.args[1])
    k = val(r)
    w = val(v)
    q = TDIV(w, b)
    up, up2 = POW(b, simplify(k + 1)), POW(b, simplify(k + 2))
    return [Implies(up2 == b * up, And(q * up2 == (q * b) * up, (q + 1) * up2 == (q * b + b) * up)),
            Implies(And(up >= 1, q * b <= w), (q * b) * up <= w * up), Implies(And(up >= 1, q * b + b >= w + 1), (q * b + b) * up >= (w + 1) * up),
            Implies(And(w >= 1, up >= 1), w * up >= up), Implies(And(up >= 1, b >= 2), b * up >= up), mention(up2), mention(POW(b, k)), mention(q * b)]


def log_proof(e):
    n, b = val(e.args[0]), val(e.args[1])
    q = TDIV(n, b)
    d = ln(e.args[0])
    return [And(POW(b, IntVal(0)) == 1, POW(b, IntVal(1)) == b * POW(b, IntVal(0))), mention(P(ar(e.args[0]), ln(e.args[0]))),
            p10_pow(d), p10_pow(simplify(d - 1))]


C(name="log", nparams=2, props=("I07", "U01"), pre=canon_args, raises=lambda e: Or(val(e.args[0]) <= 0, val(e.args[1]) < 2),
  post=lambda e: [("canonical", canon(e.ret)), ("non-negative", val(e.ret) >= 0),
                  ("floor", And(POW(val(e.args[1]), val(e.ret)) <= val(e.args[0]), val(e.args[0]) < POW(val(e.args[1]), simplify(val(e.ret) + 1))))],
  proof=log_proof,
  loops=[LoopSpec(log_inv, lambda L: val(locals_int(L, "result", "value")[1]), hints=log_hints)],
  alts=[[LoopSpec(lambda L: log_down_inv(L), lambda L: val(locals_int(L, "result", "value")[1]), hints=lambda L: log_down_hints(L))]])


def log_down_inv(L):
    """value = integer / base^result, from the integer itself"""
    r, v = locals_int(L, "result", "value")
    n, b = val(L.args[0]), val(L.args[1])
    k, w = val(r), val(v)
    up = POW(b, k)
    return [("canonical", And(canon(r), canon(v))), ("non-negative", And(k >= 0, w >= 1)), ("power", And(up >= 1, w * up <= n, (w + 1) * up > n))]


def log_down_hints(L):
    r, v = locals_int(L, "result", "value")
    n, b = val(L.args[0]), val(L.args[1])
    k, w = val(r), val(v)
    q = TDIV(w, b)
    up, up2 = POW(b, k), POW(b, simplify(k + 1))
    return [Implies(up2 == b * up, And(q * up2 == (q * b) * up, (q + 1) * up2 == (q * b + b) * up)), mention(up2), mention(q * b),
            Implies(And(up >= 1, q * b <= w), (q * b) * up <= w * up), Implies(And(up >= 1, q * b + b >= w + 1), (q * b + b) * up >= (w + 1) * up),
            Implies(And(up >= 1, w + 1 <= b), (w + 1) * up <= b * up), Implies(And(w >= 1, up >= 1), w * up >= up),
            Implies(And(up >= 1, b >= 2), b * up >= up)]


# ---------------------------------------------------------------- random
def random_inv(L):
    t = L.local_struct("Int", 0, "randint")
    i = L.ctr()
    a0 = L.pre(t)
    return [("index", And(0 <= i, i <= ln(t))), ("length", ln(t) == ln(a0)), ("digits", DIG(ar(t), i))]


C(name="random", nparams=1, props=("I10", "U01"), raises=lambda e: e.val(0) < -1,
  post=lambda e: [("canonical", canon(e.ret)), ("non-negative", val(e.ret) >= 0), ("digits", Implies(e.val(0) >= 0, ln(e.ret) == e.val(0))),
                  ("default-digits", Implies(e.val(0) == -1, And(ln(e.ret) >= 0, ln(e.ret) <= 4300)))],
  proof=lambda e: [],
  loops=[LoopSpec(random_inv, lambda L: ln(L.local_struct("Int", 0, "randint")) - L.ctr())])


# ---------------------------------------------------------------- text
def text_parts(a, n, off=0):
    """(offset of the digits, valid, value) of the text a[0..n)"""
    c = Select(a, IntVal(0))
    s = If(Or(c == 43, c == 45), IntVal(1), IntVal(0))
    s = If(n > 0, s, IntVal(0))
    return s, And(n > s, TXTD(a, s, n)), If(c == 45, -TXTV(a, s, n), TXTV(a, s, n))


def cstr(a):
    """(array, length) of a C-string operand"""
    it = a.val
    return it.vec.arr, simplify(it.vec.len - 1)


def is_integer_inv(L):
    a, n = cstr(L.args[0])
    s, _, _ = text_parts(a, n)
    i = L.ctr()
    return [("index", And(s <= i, i <= n, n > s)), ("digits-before", TXTD(a, s, i))]


C(name="is_integer", nparams=2, props=("I05", "U01"), pre=lambda e: [("length", e.val(1) == cstr(e.args[0])[1])],
  post=lambda e: [("decides", e.ret == text_parts(*cstr(e.args[0]))[1])],
  loops=[LoopSpec(is_integer_inv, lambda L: cstr(L.args[0])[1] - L.ctr())])


def parse_inv(L):
    a, n = cstr(L.args[0])
    s, _, _ = text_parts(a, n)
    i = L.ctr_named("i")
    t = L.this
    m = simplify(n - s)
    idx = L.cell("idx")
    res = [("index", And(0 <= i, i <= m)), ("length", ln(t) == m), ("digits", DIG(ar(t), ln(t))),
           ("zeros-below", allk(lambda k: at(t, k) == 0, 0, simplify(m - i), lambda k: at(t, k))),
           ("value", P(ar(t), ln(t)) == TXTV(a, s, simplify(s + i)) * P10(simplify(m - i)))]
    for c in L.mod_cells(lambda o: not L._owned(o)):
        v = L.cval(c)
        if v.eq(i):
            continue
        e = L.centry(c)
        if z3.is_int_value(z3.simplify(e)):
            res.append(("chunk", v == e))            # the digit under construction: reset after every digit
        else:
            res.append(("position", v == simplify(e - i)))
    return res


def parse_hints(L):
    a, n = cstr(L.args[0])
    s, _, _ = text_parts(a, n)
    i = L.ctr_named("i")
    m = simplify(n - s)
    x, p = TXTV(a, s, simplify(s + i)), P10(simplify(m - i - 1))
    y = TXTV(a, s, simplify(s + i + 1))
    d = Select(a, simplify(s + i))
    return [mention(y), mention(p), Implies(And(y == 10 * x + d - 48, P10(simplify(m - i)) == 10 * p), y * p == x * P10(simplify(m - i)) + (d - 48) * p)]


C(name="Int", nparams=1, pred=lambda d: "char" in _fsig(d), suffix="(const char*)", props=("I05", "U01"),
  pre=lambda e: [("resource: at most 10^9 characters", cstr(e.args[0])[1] <= LIMI)], raises=lambda e: Not(text_parts(*cstr(e.args[0]))[1]),
  post=lambda e: value_is(e.this, text_parts(*cstr(e.args[0]))[2]),
  proof=lambda e: [P10(IntVal(0)) == 1],
  loops=[LoopSpec(parse_inv, lambda L: cstr(L.args[0])[1] - L.ctr_named("i"), hints=parse_hints)])


def print_parts(e, os):
    o = e.args[1]
    neg = If(val(o) < 0, IntVal(1), IntVal(0))
    return o, simplify(os.len + neg), neg


def print_post(e):
    out, out0 = e.args[0], e.old.args[0]
    o, s, neg = print_parts(e, out0)
    return [("keeps-earlier-output", And(EQA(out.arr, out0.arr, out0.len))),
            ("sign", Implies(val(o) < 0, Select(out.arr, out0.len) == 45)),
            ("digits", And(out.len > s, TXTD(out.arr, s, out.len))),
            ("value", TXTV(out.arr, s, out.len) == absv(val(o))),
            ("no-leading-zero", Implies(val(o) != 0, Select(out.arr, s) != 48)),
            ("zero", Implies(val(o) == 0, out.len == s + 1))]


def print_inv(L):
    out, out0 = L.args[0], L.old.args[0]
    o = L.args[1]
    s = simplify(out0.len + If(sg(o) == -1, IntVal(1), IntVal(0)))
    p = L.ctr()
    n = ln(o)
    return [("position", And(0 <= p, p < n)), ("length", out.len == s + n - p), ("keeps-earlier-output", EQA(out.arr, out0.arr, out0.len)),
            ("sign", Implies(sg(o) == -1, Select(out.arr, out0.len) == 45)), ("digits", TXTD(out.arr, s, out.len)),
            ("lead", And(Select(out.arr, s) == 48 + at(o, simplify(n - 1)))), ("digit-range", Implies(p >= 1, And(at(o, simplify(p - 1)) >= 0, at(o, simplify(p - 1)) <= 9))),
            ("value", TXTV(out.arr, s, out.len) * P10(p) + P(ar(o), p) == P(ar(o), n))]


def print_hints(L):
    out, out0 = L.args[0], L.old.args[0]
    o = L.args[1]
    s = simplify(out0.len + If(sg(o) == -1, IntVal(1), IntVal(0)))
    p = L.ctr()
    x = TXTV(out.arr, s, out.len)
    d = at(o, simplify(p - 1))
    q = P10(simplify(p - 1))
    return [mention(q), mention(P(ar(o), simplify(p - 1))), Implies(P10(p) == 10 * q, (10 * x + d) * q == x * P10(p) + d * q), P10(IntVal(0)) == 1]


C(name="operator<<", params=["std::ostream&", "constInt&"],
  props=("I05", "U01"), pre=lambda e: [("canonical", canon(e.args[1]))], frame=lambda e: [e.args[0]], ret=lambda e: e.args[0],
  post=print_post, proof=lambda e: [mention(P(ar(e.args[1]), ln(e.args[1]))), mention(P(ar(e.args[1]), simplify(ln(e.args[1]) - 1))), mention(TXTV(e.args[0].arr, e.args[0].len, e.args[0].len))],
  loops=[LoopSpec(print_inv, lambda L: L.ctr(), hints=print_hints)])


# ---------------------------------------------------------------- hash
from ..stdmodels import BXOR, SHL, HASHI


@lemma
def hx_step(s, a, n):
    """[def] HX"""
    return Implies(n >= 0, HX(s, a, simplify(n + 1)) == BXOR(HX(s, a, n), SHL(HASHI(Select(a, n)), IntVal(1))))


@lemma
def hx_zero(s, a):
    """[def] HX"""
    return HX(s, a, IntVal(0)) == HASHI(s)


def hash_inv(L):
    o = L.args[0]
    i = L.ctr_pos()
    v = L.var_other("value", i)
    return [("index", And(0 <= i, i <= ln(o))), ("hash", v == HX(sg(o), ar(o), i))]


C(cls=None, name="operator()", title="std::hash<Int>::operator()", params=["constInt&"], props=("H01", "U01"), pre=lambda e: [("canonical", canon(e.args[0]))],
  post=lambda e: [("function-of-the-value", e.ret == HX(sg(e.args[0]), ar(e.args[0]), ln(e.args[0])))],
  proof=lambda e: [hx_zero(sg(e.args[0]), ar(e.args[0]))],
  loops=[LoopSpec(hash_inv, lambda L: ln(L.args[0]) - L.ctr_pos(), hints=lambda L: [hx_step(sg(L.args[0]), ar(L.args[0]), L.ctr_pos())])])


# ---------------------------------------------------------------- copies and moves
def same_value(o, e0):
    return [("canonical", canon(o)), ("value", val(o) == val(e0)), ("digits", ln(o) == ln(e0))]


C(name="Int", nparams=1, pred=lambda d: "const Int &" in _fsig(d), suffix="(const Int&)", props=("A01", "U01"), inline=True, optional=True, pre=lambda e: [("canonical", canon(e.args[0]))],
  post=lambda e: same_value(e.this, e.old.args[0]))
C(name="Int", nparams=1, pred=lambda d: "Int &&" in _fsig(d), suffix="(Int&&)", props=("A01", "U01"), inline=True, pre=lambda e: [("canonical", canon(e.args[0]))], frame=lambda e: [e.args[0]],
  post=lambda e: same_value(e.this, e.old.args[0]) + [("moved-from-is-zero", And(canon(e.args[0]), val(e.args[0]) == 0))])
C(name="operator=", nparams=1, pred=lambda d: "const Int &" in _fsig(d), suffix="(const Int&)", props=("A01", "U01"), inline=True, optional=True, aliases=(None, {0: "this"}),
  pre=canon_both, frame=lambda e: [e.this], ret=lambda e: e.this, post=lambda e: same_value(e.this, e.old.args[0]))
C(name="operator=", nparams=1, pred=lambda d: "Int &&" in _fsig(d), suffix="(Int&&)", props=("A01", "U01"), inline=True, pre=canon_both, frame=lambda e: [e.this, e.args[0]], ret=lambda e: e.this,
  post=lambda e: same_value(e.this, e.old.args[0]) + [("moved-from-is-zero", And(canon(e.args[0]), val(e.args[0]) == 0))])
