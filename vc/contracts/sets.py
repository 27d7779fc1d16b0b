"""Contracts of Set<T> (set.hpp) and Dict<K, V> (dict.hpp), for uninterpreted element, key and value types whose < is a
strict total order consistent with ==."""
from .common import *
from .lists import isiter, range_args, cppsig, ptype0, OWN
from ..assoc import *
from ..assoc import ValRef, KeyRef, first, second, U
from ..theory import lemma

SETS = []
SELF = (None, {0: "this"})


def C(**kw):
    kw["props"] = tuple(kw["props"]) + ("U01",)
    c = Contract(**kw)
    SETS.append(c)
    return c


def S(**kw):
    kw.setdefault("cls", "Set")
    return C(**kw)


def D(**kw):
    kw.setdefault("cls", "Dict")
    return C(**kw)


def mem(o):
    return vec_of(o).mem


def vals(o):
    return vec_of(o).vals


def has(o, x):
    return Select(mem(o), x)


def card(o):
    return CARD(mem(o))


def each(o, f):
    """for every possible element x: f(x)"""
    x = Const("x!c", vec_of(o).ksort)
    return ForAll([x], f(x), patterns=[Select(mem(o), x)])


def members(o, f):
    return [("members", each(o, lambda x: has(o, x) == f(x)))]


def room(e, k=0):
    return [("room", card(e.this) < INT_MAX)]


empty = lambda e: card(e.this) == 0

# ================================================================ Set
S(name="Set", nparams=0, props=("A01",), optional=True, post=lambda e: [("empty", card(e.this) == 0)] + members(e.this, lambda x: False))


def range_members(o, e):
    a, f, l = rng2(e)
    return members(o, lambda x: RMEM(a, f, l, x))


def rng2(e, i=0):
    f, l = e.args[i].val, e.args[i + 1].val
    return f.vec.arr, f.pos, l.pos


S(name="Set", nparams=1, pred=lambda d: "initializer_list" in cppsig(d), suffix="(initializer_list)", props=("E01",),
  post=lambda e: members(e.this, lambda x: RMEM(ar(e.old.args[0]), IntVal(0), ln(e.old.args[0]), x)))
S(name="Set", nparams=1, pred=lambda d: "std::set<" in cppsig(d), suffix="(std::set)", props=("E01",), post=lambda e: members(e.this, lambda x: has(e.old.args[0], x)))
S(name="Set", nparams=2, suffix="(range)", pred=lambda d: "Elem" in ptype0(d), props=("E01",), make_arg=range_args(), inline=True, post=lambda e: range_members(e.this, e))
S(name="extend", nparams=2, pred=lambda d: "Elem" in ptype0(d), props=("E01",), make_arg=range_args(), inline=True, frame=lambda e: [e.this],
  post=lambda e: members(e.this, lambda x: Or(has(e.old.this, x), RMEM(*rng2(e), x))), alts=[[LoopSpec(lambda L: extend_inv(L), lambda L: extend_left(L), hints=lambda L: extend_hints(L), entry_hints=lambda L: extend_hints(L))]])


def extend_inv(L):
    """the elements are added one by one"""
    a, lo, hi = rng2(L.old)
    p = L.ctr_pos()
    return [("position", And(lo <= p, p <= hi)), ("members", each(L.this, lambda x: has(L.this, x) == Or(has(L.old.this, x), RMEM(a, lo, p, x))))]


def extend_left(L):
    return rng2(L.old)[2] - L.ctr_pos()


def extend_hints(L):
    a, lo, hi = rng2(L.old)
    p = L.ctr_pos()
    return [rmem_def(a, lo, p), rmem_def(a, lo, simplify(p + 1)), rmem_def(a, lo, hi)]


for K_ in (S, D):
    nm = "E01" if K_ is S else "M01"
    K_(name="begin", nparams=0, props=(nm, "P01"), inline=True, post=lambda e: [("first", isiter(e.ret, e.this, 0))])
    K_(name="end", nparams=0, props=(nm, "P01"), inline=True, post=lambda e: [("past-last", isiter(e.ret, e.this, card(e.this)))])
    K_(name="rbegin", nparams=0, props=(nm,), inline=True, optional=True, post=lambda e: [("last", isiter(e.ret, e.this, card(e.this), True))])
    K_(name="rend", nparams=0, props=(nm,), inline=True, optional=True, post=lambda e: [("before-first", isiter(e.ret, e.this, 0, True))])
    K_(name="size", nparams=0, props=(nm, "E02") if K_ is S else (nm,), inline=True, post=lambda e: [("number-of-members", e.ret == card(e.old.this))])
    K_(name="is_empty", nparams=0, props=(nm,), inline=True, post=lambda e: [("value", e.ret == (card(e.old.this) == 0))])


def member_pos(e):
    o = e.this
    return If(has(o, e.val(0)), RANK(mem(o), e.val(0)), card(o))


def smallest(e, o):
    return [("is-a-member", has(o, e.ret)), ("nothing-is-smaller", each(o, lambda x: Implies(has(o, x), Not(LT(x, e.ret)))))]


def largest(e, o):
    return [("is-a-member", has(o, e.ret)), ("nothing-is-larger", each(o, lambda x: Implies(has(o, x), Not(LT(e.ret, x)))))]


order = lambda e: [sorted_def(mem(e.this))]

for K_ in (S, D):
    nm = "E01" if K_ is S else "M01"
    K_(name="find", nparams=1, props=(nm,), aliases=OWN if K_ is S else (None,), inline=True, post=lambda e: [("position-or-end", isiter(e.ret, e.this, member_pos(e)))])
    K_(name="contains", nparams=1, props=(nm,), aliases=OWN if K_ is S else (None,), post=lambda e: [("is-a-member", e.ret == has(e.old.this, e.old.val(0)))])
    K_(name="min", nparams=0, props=(nm,), raises=empty, post=lambda e: smallest(e, e.old.this), proof=order)
    K_(name="max", nparams=0, props=(nm,), raises=empty, post=lambda e: largest(e, e.old.this), proof=order)


def with_key(o, s, k):
    return [("size", card(o) == card(s) + If(has(s, k), IntVal(0), IntVal(1))), ("members", each(o, lambda x: has(o, x) == Or(has(s, x), x == k)))]


def without_key(o, s, k):
    return [("size", card(o) == card(s) - If(has(s, k), IntVal(1), IntVal(0))), ("members", each(o, lambda x: has(o, x) == And(has(s, x), x != k)))]


S(name="add", nparams=1, props=("E01",), aliases=OWN, pre=room, frame=lambda e: [e.this],
  post=lambda e: with_key(e.this, e.old.this, e.old.val(0)) + [("returned", e.ret == Not(has(e.old.this, e.old.val(0))))])
S(name="remove", nparams=1, props=("E01",), aliases=OWN, frame=lambda e: [e.this],
  post=lambda e: without_key(e.this, e.old.this, e.old.val(0)) + [("returned", e.ret == has(e.old.this, e.old.val(0)))])
S(name="pop", nparams=0, props=("E01",), frame=lambda e: [e.this], raises=empty,
  post=lambda e: [("returns-a-member", has(e.old.this, e.ret))] + without_key(e.this, e.old.this, e.ret))
S(name="clear", nparams=0, props=("E01",), frame=lambda e: [e.this], post=lambda e: [("empty", card(e.this) == 0)] + members(e.this, lambda x: False),
  proof=lambda e: [card_empty(vec_of(e.this).ksort)])

# ---------------------------------------------------------------- algebra
both = lambda e: (e.old.this, e.old.args[0])
OPS = {"&": lambda x, y: And(x, y), "|": lambda x, y: Or(x, y), "-": lambda x, y: And(x, Not(y)), "^": lambda x, y: x != y}


def twice(h):
    return dict(hints=h, entry_hints=h)


def seen(o, i, x):
    return And(has(o, x), RANK(mem(o), x) < i)


def walk(over, state, want, more=lambda L: []):
    """a loop over the members of `over`: after i of them the members of `state` are those that satisfy want(i, x)"""
    def inv(L):
        o, i = over(L), L.ctr_pos()
        return [("position", And(0 <= i, i <= card(o))), ("members", each(state(L), lambda x: has(state(L), x) == want(L, i, x)))]
    return [LoopSpec(inv, lambda L: card(over(L)) - L.ctr_pos(), **twice(lambda L: [enum_def(over(L), L.ctr_pos())] + more(L)))]


def within(over):
    """the set under construction, with the next member of `over`, is part of `over`: there is room for it"""
    def facts(L):
        m, n = mem(over(L)), mem(newest_set(L))
        x = Select(ORD(m), L.ctr_pos())
        return [card_sub(Store(n, x, BoolVal(True)), m), sub_def(Store(n, x, BoolVal(True)), m), card_add(n, x)]
    return facts


on_this, on_that, built = (lambda L: L.this), (lambda L: L.args[0]), (lambda L: newest_set(L))
of_this = lambda L, x: has(L.old.this, x)
PICK = {"&": [walk(on_this, built, lambda L, i, x: And(seen(L.this, i, x), has(L.args[0], x)), within(on_this)), walk(on_that, built, lambda L, i, x: And(seen(L.args[0], i, x), has(L.this, x)), within(on_that))],
        "-": [walk(on_this, built, lambda L, i, x: And(seen(L.this, i, x), Not(has(L.args[0], x))), within(on_this)), walk(on_that, built, lambda L, i, x: And(has(L.this, x), Not(seen(L.args[0], i, x))))],
        "|": [walk(on_that, built, lambda L, i, x: Or(has(L.this, x), seen(L.args[0], i, x))), walk(on_this, built, lambda L, i, x: Or(has(L.args[0], x), seen(L.this, i, x)))],
        "^": [walk(on_this, built, lambda L, i, x: And(seen(L.this, i, x), Not(has(L.args[0], x)))) +
              walk(on_that, built, lambda L, i, x: Or(And(has(L.this, x), Not(has(L.args[0], x))), And(seen(L.args[0], i, x), Not(has(L.this, x)))))]}
PICKIN = {"-": [walk(on_that, on_this, lambda L, i, x: And(of_this(L, x), Not(seen(L.args[0], i, x))))],
          "|": [walk(on_that, on_this, lambda L, i, x: Or(of_this(L, x), seen(L.args[0], i, x)))]}
for op, f in OPS.items():
    S(name="operator" + op, alts=PICK[op], nparams=1, props=("E02",), aliases=SELF, post=lambda e, f=f: members(e.ret, lambda x: f(has(e.old.this, x), has(e.old.args[0], x))))
    S(name="operator" + op + "=", alts=PICKIN.get(op, []), nparams=1, props=("E02",), aliases=SELF, frame=lambda e: [e.this], ret=lambda e: e.this,
      post=lambda e, f=f: members(e.this, lambda x: f(has(e.old.this, x), has(e.old.args[0], x))))


def subset(e, swap=False):
    a, b = mem(e.old.this), mem(e.old.args[0])
    return SUB(b, a) if swap else SUB(a, b)


def defs(e):
    a, b = mem(e.this), mem(e.args[0])
    return [sub_def(a, b), sub_def(b, a), card_sub(a, b), card_sub(b, a)]


def inside(over, other):
    """a loop over the members of `over`: the first i of them are in `other`"""
    return [LoopSpec(lambda L: [("position", And(0 <= L.ctr_pos(), L.ctr_pos() <= card(over(L)))), ("contained", each(over(L), lambda x: Implies(seen(over(L), L.ctr_pos(), x), has(other(L), x))))],
                     lambda L: card(over(L)) - L.ctr_pos(), **twice(lambda L: [enum_def(over(L), L.ctr_pos())]))]


S(name="operator==", nparams=1, props=("E02",), aliases=SELF, proof=defs, alts=[inside(on_this, on_that), inside(on_that, on_this)], post=lambda e: [("same-members", e.ret == And(subset(e), subset(e, True)))])
S(name="operator<=", nparams=1, props=("E02",), aliases=SELF, proof=defs, post=lambda e: [("subset", e.ret == subset(e))], alts=[inside(on_this, on_that)])
S(name="operator>=", nparams=1, props=("E02",), aliases=SELF, proof=defs, alts=[inside(on_that, on_this)], post=lambda e: [("superset", e.ret == subset(e, True))])
S(name="operator<", nparams=1, props=("E02",), aliases=SELF, proof=defs, post=lambda e: [("proper-subset", e.ret == And(subset(e), Not(subset(e, True))))])
S(name="operator>", nparams=1, props=("E02",), aliases=SELF, proof=defs, post=lambda e: [("proper-superset", e.ret == And(subset(e, True), Not(subset(e))))])

# ---------------------------------------------------------------- printing
def print_assoc(cls, param):
    C(cls=cls, name="operator<<", nparams=2, title="operator<<(ostream&, %s)" % cls, props=("P01",), frame=lambda e: [e.args[0]], ret=lambda e: e.args[0],
      post=lambda e: printed(e.old.args[0], "{", ar(e.old.args[1]), ln(e.old.args[1]), "}").equals(e.args[0]), proof=lambda e: [joined_def(ar(e.args[1]), IntVal(0))],
      **print_loops(lambda L: Text().add(ar(L.old.args[0]), ln(L.old.args[0])).lit("{"), lambda L: ar(L.args[1]), lambda L: ln(L.args[1])))


print_assoc("Set", "Set<Elem>")
print_assoc("Dict", "Dict<Elem, Val>")


@lemma
def pair_text(p):
    """[def] the text of a pair is "key: value" """
    t, n = elem_text(p)
    a, la = elem_text(first(p))
    b, lb = elem_text(second(p))
    k = Int("k!t")
    return And(n == la + 2 + lb, la >= 0, lb >= 0, ForAll([k], Implies(And(0 <= k, k < n), Select(t, k) == If(k < la, Select(a, k), If(k == la, IntVal(58), If(k == la + 1, IntVal(32), Select(b, k - la - 2))))), patterns=[Select(t, k)]))


def pair_printed(e):
    p = e.old.val(1)
    t, n = elem_text(p)
    return Text().add(ar(e.old.args[0]), ln(e.old.args[0])).add(t, n).equals(e.args[0])


C(cls=None, name="operator<<", nparams=2, pred=lambda d: "std::pair<" in cppsig(d), title="operator<<(ostream&, pair)", props=("P01",), frame=lambda e: [e.args[0]], ret=lambda e: e.args[0],
  post=pair_printed, proof=lambda e: [pair_text(e.val(1))])

# ================================================================ Dict
value = lambda o, k: Select(vals(o), k)


def pairs(o, f, g):
    """o holds exactly the keys with f(key), with the values g(key)"""
    return members(o, f) + [("values", each(o, lambda x: Implies(has(o, x), value(o, x) == g(x))))]


def range_pairs(pos=0):
    def mk(ex, i, p):
        from ..stdmodels import Desc, arrsort
        from ..engine import opaque_sort
        if i == pos:
            s = pairsort(opaque_sort("Elem"), opaque_sort("Val"))
            v = Vec(ex, "vector", Desc("Pair", s), "range[]", ex.fresh("range[]", arrsort(s)), ex.fresh("range.size"))
            a, b = ex.fresh("first"), ex.fresh("last")
            ex.assume(0 <= a, a <= b, b <= v.len, v.len <= INT_MAX)
            ex.range_ = (v, a, b)
            return Cell(ex, "first", Iter(v, a), "iterator")
        if i == pos + 1:
            return Cell(ex, "last", Iter(ex.range_[0], ex.range_[2]), "iterator")
        return None
    return mk


def from_range(o, s, a, f, l):
    """the pairs of s and those of a[f..l): the first pair with a key counts, and s has precedence"""
    hit = lambda x: KFIRST(a, f, l, x) < l
    old = (lambda x: has(s, x)) if s is not None else (lambda x: BoolVal(False))
    return pairs(o, lambda x: Or(old(x), hit(x)), lambda x: If(old(x), value(s, x) if s is not None else second(Select(a, f)), second(Select(a, KFIRST(a, f, l, x)))))


D(name="Dict", nparams=0, props=("A01",), optional=True, post=lambda e: [("empty", card(e.this) == 0)] + members(e.this, lambda x: False))
D(name="Dict", nparams=1, pred=lambda d: "initializer_list" in cppsig(d), suffix="(initializer_list)", props=("M01",), post=lambda e: from_range(e.this, None, ar(e.old.args[0]), IntVal(0), ln(e.old.args[0])))
D(name="Dict", nparams=1, pred=lambda d: "std::map<" in cppsig(d), suffix="(std::map)", props=("M01",), post=lambda e: pairs(e.this, lambda x: has(e.old.args[0], x), lambda x: value(e.old.args[0], x)))
D(name="Dict", nparams=2, suffix="(range)", pred=lambda d: "Elem" in ptype0(d), props=("M01",), make_arg=range_pairs(), inline=True, post=lambda e: from_range(e.this, None, *rng2(e)))
D(name="extend", nparams=2, pred=lambda d: "Elem" in ptype0(d), props=("M01",), make_arg=range_pairs(), inline=True, frame=lambda e: [e.this], post=lambda e: from_range(e.this, e.old.this, *rng2(e)),
  alts=[[LoopSpec(lambda L: [("position", And(rng2(L.old)[1] <= L.ctr_pos(), L.ctr_pos() <= rng2(L.old)[2]))] + from_range(L.this, L.old.this, *rng2(L.old)[:2], L.ctr_pos()),
                  lambda L: rng2(L.old)[2] - L.ctr_pos(), **twice(lambda L: firsts(L)))]])


def firsts(L):
    a, lo, hi = rng2(L.old)
    p = L.ctr_pos()
    return [kfirst_def(a, lo, p), kfirst_def(a, lo, simplify(p + 1)), kfirst_def(a, lo, hi)]


def value_ref(e, o, k):
    r = e.ret
    if not isinstance(r, ValRef) or r.vec is not vec_of(o):
        return BoolVal(False)
    return r.key == k


absent = lambda e: Not(has(e.this, e.val(0)))
for cst in (False, True):
    D(name="operator[]", nparams=1, const=cst, suffix=" const" if cst else "", props=("M01",), inline=True, raises=absent,
      post=lambda e: [("refers-to-the-stored-value", value_ref(e, e.this, e.old.val(0)))])


def get_post(e):
    v = e.ret
    v = v.get() if isinstance(v, (ValRef, Cell)) else v
    if not z3.is_expr(v):
        return [("value", BoolVal(False))]
    return [("value-or-default", v == If(has(e.old.this, e.old.val(0)), value(e.old.this, e.old.val(0)), e.old.val(1)))]


D(name="get", nparams=2, props=("M01",), inline=True, post=get_post)
D(name="add", nparams=2, props=("M01",), pre=room, frame=lambda e: [e.this],
  post=lambda e: with_key(e.this, e.old.this, e.old.val(0)) + [("values", each(e.this, lambda x: Implies(has(e.this, x), value(e.this, x) == If(has(e.old.this, x), value(e.old.this, x), e.old.val(1))))),
                                                               ("returned", e.ret == Not(has(e.old.this, e.old.val(0))))])
kept = lambda e: [("values", each(e.this, lambda x: Implies(has(e.this, x), value(e.this, x) == value(e.old.this, x))))]
D(name="remove", nparams=1, props=("M01",), frame=lambda e: [e.this],
  post=lambda e: without_key(e.this, e.old.this, e.old.val(0)) + kept(e) + [("returned", e.ret == has(e.old.this, e.old.val(0)))])
D(name="pop", nparams=0, props=("M01",), frame=lambda e: [e.this], raises=empty,
  post=lambda e: [("returns-a-stored-pair", And(has(e.old.this, first(e.ret)), value(e.old.this, first(e.ret)) == second(e.ret)))] + without_key(e.this, e.old.this, first(e.ret)) + kept(e))
D(name="clear", nparams=0, props=("M01",), frame=lambda e: [e.this], post=lambda e: [("empty", card(e.this) == 0)] + members(e.this, lambda x: False),
  proof=lambda e: [card_empty(vec_of(e.this).ksort)])


def ddefs(e):
    a, b = e.this, e.args[0]
    return [sub_def(mem(a), mem(b)), sub_def(mem(b), mem(a)), valeq_def(mem(a), vals(a), vals(b))]


D(name="operator==", nparams=1, props=("M01",), aliases=SELF, proof=ddefs,
  post=lambda e: [("same-pairs", e.ret == And(subset(e), subset(e, True), VALEQ(mem(e.old.this), vals(e.old.this), vals(e.old.args[0]))))])


# ---------------------------------------------------------------- keys, values, items
def visited(L, f):
    """the members that the loop has added after i steps"""
    i = L.ctr_pos()
    o = L.this
    r = L.local_struct("", name="") if False else result_set(L)
    return [("position", And(0 <= i, i <= card(o))), ("size", card(r) <= i), ("members", each(r, lambda x: has(r, x) == f(o, i, x)))]


def result_set(L):
    """the set under construction"""
    for c in ("Set<Elem>", "Set<Val>"):
        pass
    res = [o for o in L.leaves.values() if isinstance(o, Vec) and hasattr(o, "assoc") and o.kind == "set"]
    if not res:
        raise Unsupported("loop state: no set under construction")
    return sorted(res, key=lambda o: o.birth)[0]


def newest_set(L):
    """the set under construction, where the operands are sets of the same type"""
    have = {id(vec_of(o)) for o in [L.this] + list(L.args)}
    res = [o for o in L.leaves.values() if isinstance(o, Vec) and hasattr(o, "assoc") and o.kind == "set" and id(o) not in have]
    if not res:
        raise Unsupported("loop state: no set under construction")
    return sorted(res, key=lambda o: o.birth)[0]


def VMEM(o, i, v):
    """VMEM(map, i, v): one of the first i values (in key order) is v"""
    m, a = mem(o), vals(o)
    return usort("VMEM", a.sort(), m.sort(), a.sort(), z3.IntSort(), v.sort(), z3.BoolSort())(m, a, i, v)


@lemma
def vmem_def(o, i):
    """[def] VMEM"""
    a = vals(o)
    v = Const("x!v", a.sort().range())
    i1 = simplify(i + 1)
    return And(ForAll([v], Not(VMEM(o, IntVal(0), v)), patterns=[VMEM(o, IntVal(0), v)]),
               Implies(i >= 0, ForAll([v], VMEM(o, i1, v) == Or(VMEM(o, i, v), value(o, Select(ORD(mem(o)), i)) == v), patterns=[VMEM(o, i1, v)])))


def key_seen(o, i, x):
    return And(has(o, x), RANK(mem(o), x) < i)


def item_seen(o, i, p):
    return And(has(o, first(p)), RANK(mem(o), first(p)) < i, value(o, first(p)) == second(p))


@lemma
def enum_def(o, i):
    """[def] ORD and RANK: the i-th member in increasing order, the position of a member"""
    m = mem(o)
    x = Const("x!n", vec_of(o).ksort)
    return And(ord_def(m, i), ForAll([x], Implies(Select(m, x), And(0 <= RANK(m, x), RANK(m, x) < CARD(m), Select(ORD(m), RANK(m, x)) == x)), patterns=[RANK(m, x)]))


def collect(name, f, post, more=lambda o, i: []):
    hint = lambda o, i: [enum_def(o, i)] + more(o, i)
    D(name=name, nparams=0, props=("M01",), pre=room, post=lambda e: [("members", each(e.ret, lambda x: has(e.ret, x) == post(e.old.this, x)))],
      proof=lambda e: hint(e.this, IntVal(0)) + [card_empty(vec_of(e.this).ksort)],
      loops=[LoopSpec(lambda L: visited(L, f), lambda L: card(L.this) - L.ctr_pos(), hints=lambda L: hint(L.this, L.ctr_pos()))])


collect("keys", key_seen, lambda o, x: has(o, x))
collect("values", VMEM, lambda o, v: VMEM(o, card(o), v), lambda o, i: [vmem_def(o, i)])
collect("items", item_seen, lambda o, p: And(has(o, first(p)), value(o, first(p)) == second(p)))
