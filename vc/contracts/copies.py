"""Copies, moves and assignments of every type, stated on the client functions of probe.cpp (copied, moved, assigned,
move_assigned, copy_changed, original_changed): their bodies run the special members the current sources define,
whether written out, defaulted or implicit."""
from .common import *
from ..program import ptypes
from . import ints, fraction, complex as cplx, sets
from .sets import pairs, members, has, value, mem

COPIES = []
SELF = {1: 0}


def int_same(o, s):
    return [("sign", sg(o) == sg(s)), ("digits", ln(o) == ln(s)), ("value", val(o) == val(s)), ("canonical", canon(o))]


def seq_same(o, s):
    return [("size", ln(o) == ln(s)), ("elements", allk(lambda k: at(o, k) == at(s, k), 0, ln(s), pat=lambda k: Select(ar(o), k)))]


def set_same(o, s):
    return members(o, lambda x: has(s, x))


def dict_same(o, s):
    return pairs(o, lambda x: has(s, x), lambda x: value(s, x))


def tuple_same(o, s):
    from .tuples import items
    return [("element-%d" % i, x == y) for i, (x, y) in enumerate(zip(items(o), items(s)))] + [("count", BoolVal(len(items(o)) == len(items(s))))]


def zero_int(o):
    return [("moved-from-is-zero", And(canon(o), val(o) == 0))]


def zero_fraction(o):
    return [("moved-from-is-zero", And(fraction.nm(o) == 0, fraction.dn(o) == 1))]


def zero_complex(o):
    return [("moved-from-is-zero", And(cplx.re(o) == 0, cplx.im(o) == 0))]


NONE = lambda o: []
TYPES = [
    ("Int", int_same, zero_int, canon),
    ("Fraction", fraction.same, zero_fraction, fraction.CF),
    ("Complex", cplx.same, zero_complex, None),
    ("Str", seq_same, NONE, None),
    ("List<Elem>", seq_same, NONE, None),
    ("Deque<Elem>", seq_same, NONE, None),
    ("Set<Elem>", set_same, NONE, None),
    ("Dict<Elem,Val>", dict_same, NONE, None),
    ("Tuple<>", tuple_same, NONE, None),
    ("Tuple<Elem>", tuple_same, NONE, None),
    ("Tuple<Elem,Val,Elem>", tuple_same, NONE, None),
]


def C(name, t, n, ok, **kw):
    if t == "Tuple<>" and name in ("copy_changed",):
        return
    COPIES.append(Contract(cls=None, name=name, nparams=n, title="%s(%s)" % (name, t), pred=lambda d: ptypes(d)[0].replace("const", "", 1).rstrip("&") == t if ptypes(d) else False,
                           props=("A01", "U01"), pre=lambda e: [("valid-%d" % i, ok(a)) for i, a in enumerate(e.args)] if ok else [], **kw))


for t, same, zero, ok in TYPES:
    C("copied", t, 1, ok, post=lambda e, same=same: same(e.ret, e.old.args[0]))
    C("moved", t, 1, ok, frame=lambda e: [e.args[0]], post=lambda e, same=same, zero=zero: same(e.ret, e.old.args[0]) + zero(e.args[0]))
    C("assigned", t, 2, ok, aliases=(None, SELF), frame=lambda e: [e.args[0]], post=lambda e, same=same: same(e.args[0], e.old.args[1]))
    C("move_assigned", t, 2, ok, frame=lambda e: [e.args[0], e.args[1]], post=lambda e, same=same, zero=zero: same(e.args[0], e.old.args[1]) + zero(e.args[1]))
    C("copy_changed", t, 2, ok, post=lambda e, same=same: same(e.args[0], e.old.args[0]) + same(e.args[1], e.old.args[1]))
    C("original_changed", t, 3, ok, frame=lambda e: [e.args[0], e.args[2]], aliases=(None, SELF),
      post=lambda e, same=same: same(e.args[2], e.old.args[0]) + same(e.args[0], e.old.args[1]))
