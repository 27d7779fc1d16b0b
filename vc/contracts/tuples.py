"""Contracts of Tuple<Ts...> (tuple.hpp).  The pack is read at instantiations of up to four uninterpreted element types;
every function of a longer tuple is checked against the contracts of the shorter one it calls."""
from .common import *
from ..program import targs, tnorm, ptypes

TUPLES = []
SHAPES = [(), ("Elem",), ("Val",), ("Elem", "Val"), ("Val", "Elem"), ("Elem", "Elem"), ("Elem", "Val", "Elem"), ("Val", "Elem", "Val", "Elem")]
MADE = SHAPES
TAILS = [("Elem", "Tail"), ("Val", "Tail")]   # any longer tuple: its part after the first element is one unknown value

def C(**kw):
    if not kw.get("hypothesis"):
        kw["props"] = tuple(kw["props"]) + ("U01",)
    c = Contract(**kw)
    TUPLES.append(c)
    return c


def tname(ts):
    return "Tuple<%s>" % ",".join(ts)


def of_class(ts):
    def pred(d):
        c = d.get("_cls")
        return c is not None and c["kind"] == "ClassTemplateSpecializationDecl" and [tnorm(x) for x in targs(c)] == list(ts)
    return pred


def items(o):
    """the elements of a tuple, in order"""
    r = []
    while o is not None:
        f = o.fields
        if "value_" in f:
            v = f["value_"]
            r.append(v.val)
        o = f.get("__base")
    return r


def all_equal(a, b):
    return [("elements", BoolVal(False))] if len(a) != len(b) or any(not z3.is_expr(y) or x.sort() != y.sort() for x, y in zip(a, b)) else [("element-%d" % i, x == y) for i, (x, y) in enumerate(zip(a, b))]


def in_order(e):
    return all_equal([e.old.val(i) for i in range(len(e.old.args))], items(e.ret if e.this is None else e.this))


def equal(s, t):
    def f(e):
        if s != t:
            return BoolVal(False)
        return And([x == y for x, y in zip(items(e.old.this), items(e.old.args[0]))] + [BoolVal(True)])
    return f


def template_int(d):
    for x in d.get("inner") or []:
        if x and x["kind"] == "TemplateArgument" and "value" in x:
            return int(x["value"])
    return None


for s in SHAPES:
    n = len(s)
    if n:
        C(cls="Tuple", name="Tuple", nparams=n, title="%s::Tuple" % tname(s), pred=lambda d, s=s: of_class(s)(d) and ptypes(d) == ["const%s&" % t for t in s], props=("T01",), post=in_order)
        for i in range(n):
            C(cls="Tuple", name="get", nparams=0, title="%s::get<%d>" % (tname(s), i), pred=lambda d, s=s, i=i: of_class(s)(d) and template_int(d) == i, props=("T01", "P01"),
              post=lambda e, i=i: all_equal([items(e.old.this)[i]], [e.ret.val if isinstance(e.ret, Cell) else e.ret]))
        C(cls="Tuple", name="rest", nparams=0, title="%s::rest" % tname(s), pred=of_class(s), props=("T01", "P01"), inline=True,
          post=lambda e: [("the-part-after-the-first-element", BoolVal(e.ret is e.this.fields["__base"]))])
    C(cls="Tuple", name="size", nparams=0, title="%s::size" % tname(s), pred=of_class(s), props=("T01", "P01"), post=lambda e, n=n: [("number-of-elements", e.ret == n)])
    for t in SHAPES:
        for op in ("==", "!="):
            C(cls="Tuple", name="operator" + op, nparams=1, title="%s::operator%s(%s)" % (tname(s), op, tname(t)), pred=lambda d, s=s, t=t: of_class(s)(d) and ptypes(d) == ["const%s&" % tname(t)],
              props=("T01",), aliases=(None, {0: "this"}) if s == t and n else (None,),
              post=lambda e, s=s, t=t, op=op: [("elementwise", e.ret == (equal(s, t)(e) if op == "==" else Not(equal(s, t)(e))))])

MIXED = [tuple(x.split()) for x in ("int long double char bool", "double long double char bool", "int long double char int", "int int double char bool", "int int", "int long", "bool int")]
for s in MIXED:
    for t in MIXED:
        for op in ("==", "!="):
            if op == "==" or t in (MIXED[0], MIXED[1], MIXED[4], MIXED[5]):
                C(cls="Tuple", name="operator" + op, nparams=1, title="%s::operator%s(%s)" % (tname(s), op, tname(t)), pred=lambda d, s=s, t=t: of_class(s)(d) and ptypes(d) == ["const%s&" % tname(t)],
                  props=("T01",), aliases=(None, {0: "this"}) if s == t else (None,),
                  post=lambda e, s=s, t=t, op=op: [("elementwise", e.ret == (equal(s, t)(e) if op == "==" else Not(equal(s, t)(e))))])

for op in ("==", "!="):
    # the hypothesis of the induction over the length: the shorter tuples are compared elementwise
    C(cls="Tuple", name="operator" + op, nparams=1, title="Tuple<Tail>::operator" + op, pred=of_class(("Tail",)), hypothesis=True, optional=True,
      post=lambda e, op=op: [("elementwise", e.ret == (equal(("Tail",), ("Tail",))(e) if op == "==" else Not(equal(("Tail",), ("Tail",))(e))))])
    for s in TAILS:
        for t in TAILS:
            if s == TAILS[0] or (op == "==" and t == TAILS[0]):
                C(cls="Tuple", name="operator" + op, nparams=1, title="%s::operator%s(%s)" % (tname(s), op, tname(t)), pred=lambda d, s=s, t=t: of_class(s)(d) and ptypes(d) == ["const%s&" % tname(t)],
                  props=("T01",), aliases=(None, {0: "this"}) if s == t else (None,), post=lambda e, s=s, t=t, op=op: [("elementwise", e.ret == (equal(s, t)(e) if op == "==" else Not(equal(s, t)(e))))])
C(cls="Tuple", name="rest", nparams=0, title="Tuple<Elem,Tail>::rest", pred=of_class(TAILS[0]), props=("T01",), inline=True, post=lambda e: [("the-part-after-the-first-element", BoolVal(e.ret is e.this.fields["__base"]))])
C(cls="Tuple", name="get", nparams=0, title="Tuple<Tail>::get<0>", pred=of_class(("Tail",)), hypothesis=True, optional=True, post=lambda e: all_equal([items(e.old.this)[0]], [e.ret]))
for i in range(2):
    C(cls="Tuple", name="get", nparams=0, title="Tuple<Elem,Tail>::get<%d>" % i, pred=lambda d, i=i: of_class(TAILS[0])(d) and template_int(d) == i, props=("T01",),
      post=lambda e, i=i: all_equal([items(e.old.this)[i]], [e.ret.val if isinstance(e.ret, Cell) else e.ret]))

for s in [m for m in MADE if m]:        # Tuple<> has no state: make_tuple() has nothing to promise
    C(cls=None, name="make_tuple", nparams=len(s), title="make_tuple(%s)" % ", ".join(s), pred=lambda d, s=s: ptypes(d) == ["const%s&" % t for t in s], props=("T01", "P01"), post=in_order)


def listing(tx, o, close=""):
    """the elements, separated by ", " """
    for i, x in enumerate(items(o)):
        if i:
            tx.lit(", ")
        tx.add(*elem_text(x))
    return tx


def out(e):
    return Text().add(ar(e.old.args[0]), ln(e.old.args[0]))


for s in SHAPES:
    C(cls=None, name="print", nparams=2, title="internal::print(ostream&, %s)" % tname(s), pred=lambda d, s=s: ptypes(d)[1] == "const%s&" % tname(s), props=("P01",), inline=True, frame=lambda e: [e.args[0]],
      post=lambda e: listing(out(e), e.old.args[1]).equals(e.args[0]))
for s in MADE:
    C(cls=None, name="operator<<", nparams=2, title="operator<<(ostream&, %s)" % tname(s), pred=lambda d, s=s: ptypes(d)[1] == "const%s&" % tname(s), props=("P01",), frame=lambda e: [e.args[0]], ret=lambda e: e.args[0],
      post=lambda e, s=s: listing(out(e).lit("("), e.old.args[1]).lit(",)" if len(s) == 1 else ")").equals(e.args[0]))
