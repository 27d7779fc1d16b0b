"""Contracts of the comparisons of List, Deque and Str: == is elementwise, <=> (and every relational operator, whether the
compiler derives it from <=> or it is written out) is the lexicographic order."""
from .common import *
from ..stdmodels import lex_cmp, sfn, first_difference

ORDERS = []
SELF = (None, {0: "this"})


def C(**kw):
    c = Contract(**kw)
    ORDERS.append(c)
    return c


def same(e):
    x, y = e.old.this, e.old.args[0]
    return And(ln(x) == ln(y), sfn("EQA", ar(x).sort().range())(ar(x), ar(y), ln(x)))


def order(e, cls):
    x, y = e.old.this, e.old.args[0]
    return lex_cmp(ar(x).sort().range(), cls == "Str", ar(x), ln(x), ar(y), ln(y))


def position(cls):
    def proof(e):
        x, y = e.old.this, e.old.args[0]
        return [first_difference(ar(x).sort().range(), cls == "Str", ar(x), ln(x), ar(y), ln(y))]
    return proof


def sign_of(e, cls):
    r = order(e, cls)[1]
    return [("before", (e.ret < 0) == (r < 0)), ("after", (e.ret > 0) == (r > 0))]


REL = {"<": lambda r: r < 0, "<=": lambda r: r <= 0, ">": lambda r: r > 0, ">=": lambda r: r >= 0}
for cls in ("List", "Deque", "Str"):
    if cls != "Str":
        C(cls=cls, name="operator==", nparams=1, props=("C01", "U01"), aliases=SELF, post=lambda e: [("elementwise", e.ret == same(e))])
    C(cls=cls, name="operator!=", nparams=1, props=("C01", "U01"), optional=True, aliases=SELF, post=lambda e: [("not-equal", e.ret == Not(same(e)))])
    C(cls=cls, name="operator<=>", nparams=1, props=("C01", "U01"), aliases=SELF, proof=position(cls), post=lambda e, cls=cls: sign_of(e, cls))
    for op, f in REL.items():
        C(cls=cls, name="operator" + op, nparams=1, props=("C01", "U01"), optional=True, aliases=SELF, proof=position(cls),
          post=lambda e, cls=cls, f=f: [("lexicographic", e.ret == f(order(e, cls)[1]))])
