"""Contracts of List<T> (list.hpp), for an uninterpreted element type T (equality is an equivalence that the
solver treats as identity; ordering is an uninterpreted strict weak order)."""
from .common import *
from ..cppast import fsig as cppsig
from ..engine import ElemRef, INT_MAX, INT_MIN
from ..stdmodels import U, arrsort, sfn
from ..theory import lemma, TMOD, TDIV

LIST = []
SELF = (None, {0: "this"})
OWN = (None, {0: "elem"})


def C(**kw):
    kw.setdefault("cls", "List")
    kw["props"] = tuple(kw["props"]) + ("U01",)
    c = Contract(**kw)
    LIST.append(c)
    return c


def es(o):
    return ar(o).sort().range()


def seq(o, n, f):
    return [("size", ln(o) == n), ("elements", allk(lambda k: at(o, k) == f(k), 0, n, pat=lambda k: Select(ar(o), k)))]


def same_seq(o, s):
    return seq(o, ln(s), lambda k: at(s, k))


def room(e, extra=1):
    return [("room", ln(e.this) <= INT_MAX - 4)]


def isref(e, i):
    """the result refers to element i of the object"""
    r = e.ret
    if not isinstance(r, ElemRef) or r.vec is not vec_of(e.this):
        return BoolVal(False)
    return r.idx == i


def isiter(r, o, pos, rev=False):
    if not isinstance(r, Iter) or r.vec is not vec_of(o) or r.rev != rev:
        return BoolVal(False)
    return r.pos == pos


def wrap(i, n):
    return If(i >= 0, i, i + n)


def outside(i, lo, hi):
    return Or(i < lo, i >= hi)


# ---------------------------------------------------------------- construction
C(name="List", nparams=0, props=("A01",), optional=True, post=lambda e: [("empty", ln(e.this) == 0)])
C(name="List", nparams=1, pred=lambda d: "initializer_list" in cppsig(d), suffix="(initializer_list)", props=("L02",), post=lambda e: same_seq(e.this, e.old.args[0]))
C(name="List", nparams=1, pred=lambda d: "vector<" in cppsig(d), suffix="(vector)", props=("L02", "L04", "L07"), post=lambda e: same_seq(e.this, e.old.args[0]))

# ---------------------------------------------------------------- access and examination
for cst in (False, True):
    C(name="operator[]", nparams=1, const=cst, suffix=" const" if cst else "", props=("L01",), inline=True,
      raises=lambda e: outside(e.val(0), -ln(e.this), ln(e.this)),
      post=lambda e: [("element", isref(e, wrap(e.old.val(0), ln(e.old.this))))])
C(name="size", nparams=0, props=("L01", "L03"), inline=True, post=lambda e: [("value", e.ret == ln(e.old.this))])
C(name="is_empty", nparams=0, props=("L01",), inline=True, post=lambda e: [("value", e.ret == (ln(e.old.this) == 0))])
C(name="begin", nparams=0, props=("L03", "P01"), inline=True, post=lambda e: [("first", isiter(e.ret, e.this, 0))])
C(name="end", nparams=0, props=("L03", "P01"), inline=True, post=lambda e: [("past-last", isiter(e.ret, e.this, ln(e.this)))])
C(name="rbegin", nparams=0, props=("L03",), inline=True, optional=True, post=lambda e: [("last", isiter(e.ret, e.this, ln(e.this), True))])
C(name="rend", nparams=0, props=("L03",), inline=True, optional=True, post=lambda e: [("before-first", isiter(e.ret, e.this, 0, True))])


def FPOS(o):
    """FPOS(a, lo, hi, x): the first position in [lo, hi) whose element is x, else hi"""
    s = es(o)
    return U("FPOS_" + str(s), arrsort(s), IntSort(), IntSort(), s, IntSort())


@lemma
def fpos_def(f, a, lo, hi, x):
    """[def] FPOS"""
    p = f(a, lo, hi, x)
    k = Int("k!p")
    return Implies(lo <= hi, And(lo <= p, p <= hi, Implies(p < hi, Select(a, p) == x), ForAll([k], Implies(And(lo <= k, k < p), Select(a, k) != x), patterns=[Select(a, k)])))


def clamp(e, i, j):
    n = ln(e.old.this)
    a, b = e.old.val(i), e.old.val(j)
    return If(a < 0, IntVal(0), a), If(b > n, n, b)


def IMAX(n):
    return If(n > 0, n, IntVal(0))


def index_value(e, i=1, j=2):
    o = e.old.this
    lo, hi = clamp(e, i, j)
    p = FPOS(o)(ar(o), lo, hi, e.old.val(0))
    return If(lo >= hi, IntVal(-1), If(p < hi, p, IntVal(-1)))


def index_hints(e):
    o = e.this
    n = ln(o)
    a, b = e.val(1), e.val(2)
    lo, hi = If(a < 0, IntVal(0), a), If(b > n, n, b)
    return [fpos_def(FPOS(o), ar(o), lo, hi, e.val(0))]


def scan_inv(L):
    """no match in the window before the counter"""
    i = L.ctr()
    lo, hi = clamp(L, 1, 2)
    a, x = ar(L.old.this), L.old.val(0)
    return [("position", And(lo <= i, Or(i <= hi, i == lo))), ("no-match-yet", allk(lambda k: Select(a, k) != x, lo, i, pat=lambda k: Select(a, k)))]


def scan_left(L):
    return clamp(L, 1, 2)[1] - L.ctr() + 4294967296


C(name="index", nparams=3, props=("L03",), aliases=OWN, post=lambda e: [("first-match-or-minus-one", e.ret == index_value(e)), ("range", And(e.ret >= -1, e.ret < IMAX(ln(e.old.this))))], proof=index_hints,
  alts=[[LoopSpec(scan_inv, scan_left)]])
C(name="contains", nparams=3, props=("L03",), aliases=OWN, post=lambda e: [("index-is-not-minus-one", e.ret == (index_value(e) != -1))], proof=index_hints)
C(name="find", nparams=1, props=("L03",), aliases=OWN, inline=True, post=lambda e: [("first-match-or-end", isiter(e.ret, e.this, FPOS(e.this)(ar(e.this), IntVal(0), ln(e.this), e.val(0))))],
  proof=lambda e: [fpos_def(FPOS(e.this), ar(e.this), IntVal(0), ln(e.this), e.val(0))])


def CNT(o):
    s = es(o)
    return U("CNT_" + str(s), arrsort(s), IntSort(), IntSort(), s, IntSort())


@lemma
def cnt_def(f, a, i, x):
    """[def] CNT(a, 0, i, x) unfolded at i"""
    return And(f(a, IntVal(0), IntVal(0), x) == 0, Implies(i >= 0, And(f(a, IntVal(0), i, x) >= 0, f(a, IntVal(0), i, x) <= i,
               f(a, IntVal(0), simplify(i + 1), x) == f(a, IntVal(0), i, x) + If(Select(a, i) == x, IntVal(1), IntVal(0)))))


def cnt_at(L, i):
    return CNT(L.old.this)(ar(L.old.this), IntVal(0), i, L.old.val(0))


def tally_inv(L):
    i, c = L.ctr_pos(), L.ctr(name="cnt")
    return [("position", And(0 <= i, i <= ln(L.old.this))), ("counted", And(c == cnt_at(L, i), c >= 0, c <= i))]


def tally_hints(L):
    return [cnt_def(CNT(L.old.this), ar(L.old.this), L.ctr_pos(), L.old.val(0))]


C(name="count", nparams=1, props=("L03",), aliases=OWN, post=lambda e: [("number-of-matches", e.ret == CNT(e.old.this)(ar(e.old.this), IntVal(0), ln(e.old.this), e.old.val(0)))],
  proof=lambda e: [cnt_def(CNT(e.this), ar(e.this), IntVal(0), e.val(0))], alts=[[LoopSpec(tally_inv, lambda L: ln(L.old.this) - L.ctr_pos(), hints=tally_hints)]])

# ---------------------------------------------------------------- edits


def inserted(o, s, p, x):
    return seq(o, ln(s) + 1, lambda k: If(k < p, at(s, k), If(k == p, x, at(s, k - 1))))


def removed(o, s, p):
    return seq(o, ln(s) - 1, lambda k: If(k < p, at(s, k), at(s, k + 1)))


C(name="insert", nparams=2, props=("L02",), aliases=(None, {1: "elem"}), pre=room, frame=lambda e: [e.this], raises=lambda e: outside(e.val(0), -ln(e.this), ln(e.this) + 1),
  post=lambda e: inserted(e.this, e.old.this, wrap(e.old.val(0), ln(e.old.this)), e.old.val(1)))
C(name="remove", nparams=1, props=("L02",), frame=lambda e: [e.this], raises=lambda e: outside(e.val(0), -ln(e.this), ln(e.this)),
  post=lambda e: removed(e.this, e.old.this, wrap(e.old.val(0), ln(e.old.this))) + [("returned", e.ret == at(e.old.this, wrap(e.old.val(0), ln(e.old.this))))])


def two_room(e):
    return [("room", ln(e.this) + ln(e.args[0]) <= INT_MAX - 4)]


def is_list(d):
    return "List" in ptype0(d)


def ptype0(d):
    from ..cppast import Ast, qt
    return qt(Ast.params(d)[0])


def concat(o, a, b):
    return seq(o, ln(a) + ln(b), lambda k: If(k < ln(a), at(a, k), at(b, k - ln(a))))


push = lambda o, s, x: seq(o, ln(s) + 1, lambda k: If(k < ln(s), at(s, k), x))
C(name="operator+=", nparams=1, pred=lambda d: not is_list(d), suffix="(element)", props=("L02", "L07"), aliases=OWN, pre=room, frame=lambda e: [e.this], ret=lambda e: e.this,
  post=lambda e: push(e.this, e.old.this, e.old.val(0)))
def appended_so_far(L):
    """the elements of the other list are appended one by one"""
    i, s, t = L.ctr_pos(), L.old.this, L.old.args[0]
    return [("position", And(0 <= i, i <= ln(t)))] + seq(L.this, ln(s) + i, lambda k: If(k < ln(s), at(s, k), at(t, k - ln(s))))


C(name="operator+=", nparams=1, pred=is_list, suffix="(list)", props=("L02", "L07"), aliases=SELF, pre=two_room, frame=lambda e: [e.this], ret=lambda e: e.this,
  post=lambda e: concat(e.this, e.old.this, e.old.args[0]), alts=[[LoopSpec(appended_so_far, lambda L: ln(L.old.args[0]) - L.ctr_pos())]])
C(name="operator+", nparams=1, pred=lambda d: not is_list(d), suffix="(element)", props=("L02", "L07"), aliases=OWN, pre=room,
  post=lambda e: push(e.ret, e.old.this, e.old.val(0)))
C(name="operator+", nparams=1, pred=is_list, suffix="(list)", props=("L02", "L07"), aliases=SELF, pre=two_room,
  post=lambda e: concat(e.ret, e.old.this, e.old.args[0]))


def first_removed(o, s, x):
    p = FPOS(s)(ar(s), IntVal(0), ln(s), x)
    hit = p < ln(s)
    return [("size", ln(o) == If(hit, ln(s) - 1, ln(s))), ("elements", allk(lambda k: at(o, k) == If(k < p, at(s, k), at(s, k + 1)), 0, ln(o), pat=lambda k: Select(ar(o), k)))]


def until_first(L):
    """nothing is removed, and there is no match, before the counter"""
    i, s = L.ctr_pos(), L.old.this
    return [("position", And(0 <= i, i <= ln(s))), ("no-match-yet", allk(lambda k: at(s, k) != L.old.val(0), 0, i, pat=lambda k: Select(ar(s), k)))] + seq(L.this, ln(s), lambda k: at(s, k))


fp_hint = lambda e: [fpos_def(FPOS(e.this), ar(e.this), IntVal(0), ln(e.this), e.val(0))]
C(name="operator-=", nparams=1, props=("L02",), aliases=OWN, frame=lambda e: [e.this], ret=lambda e: e.this, post=lambda e: first_removed(e.this, e.old.this, e.old.val(0)), proof=fp_hint, alts=[[LoopSpec(until_first, lambda L: ln(L.old.this) - L.ctr_pos())]])
C(name="operator-", nparams=1, props=("L02",), aliases=OWN, post=lambda e: first_removed(e.ret, e.old.this, e.old.val(0)))


def all_removed(o, s, x):
    st = es(s)
    L = U("FLTLEN_ne_%s" % st, arrsort(st), IntSort(), st, IntSort())
    F = U("FLTARR_ne_%s" % st, arrsort(st), IntSort(), st, arrsort(st))
    return seq(o, L(ar(s), ln(s), x), lambda k: Select(F(ar(s), ln(s), x), k))


@lemma
def flt_def(L, F, keep, a, i, p):
    """[def] FLTLEN/FLTARR(a, i, p), the elements of a[0..i) that are kept, in order, unfolded at i"""
    l, x = L(a, i, p), Select(a, i)
    return And(L(a, IntVal(0), p) == 0, Implies(i >= 0, And(l >= 0, l <= i, L(a, simplify(i + 1), p) == l + If(keep, IntVal(1), IntVal(0)),
               F(a, simplify(i + 1), p) == If(keep, z3.Store(F(a, i, p), l, x), F(a, i, p)))))


def flt_loop(kind):
    """filtering by a loop that collects what is kept"""
    def parts(L):
        a = ar(L.old.this)
        st = str(a.sort().range())
        p = Const("PRED_Pred", IntSort()) if kind == "pred" else L.old.val(0)
        ps = p.sort()
        f, g = U("FLTLEN_%s_%s" % (kind, st), a.sort(), IntSort(), ps, IntSort()), U("FLTARR_%s_%s" % (kind, st), a.sort(), IntSort(), ps, a.sort())
        return a, p, f, g

    def keep(x, p):
        return U("PRED_" + str(x.sort()), x.sort(), z3.BoolSort())(x) if kind == "pred" else x != p

    def inv(L):
        a, p, f, g = parts(L)
        i, b = L.ctr_pos(), L.local_vec()
        return [("position", And(0 <= i, i <= ln(L.this))), ("size", ln(b) == f(a, i, p)), ("kept-so-far", allk(lambda k: at(b, k) == Select(g(a, i, p), k), 0, ln(b), pat=lambda k: Select(ar(b), k)))]

    def hints(L):
        a, p, f, g = parts(L)
        i = L.ctr_pos()
        return [flt_def(f, g, keep(Select(a, i), p), a, i, p)]

    def start(e):
        a, p, f, g = parts(e)
        return [flt_def(f, g, keep(Select(a, IntVal(0)), p), a, IntVal(0), p)]

    return {"alts": [[LoopSpec(inv, lambda L: ln(L.this) - L.ctr_pos(), hints=hints)]], "proof": start}


C(name="operator/=", nparams=1, props=("L02",), aliases=OWN, frame=lambda e: [e.this], ret=lambda e: e.this, post=lambda e: all_removed(e.this, e.old.this, e.old.val(0)), **flt_loop("ne"))
C(name="operator/", nparams=1, props=("L02",), aliases=OWN, post=lambda e: all_removed(e.ret, e.old.this, e.old.val(0)))
C(name="erase", nparams=2, props=("L02",), pre=room, frame=lambda e: [e.this], ret=lambda e: e.this,
  raises=lambda e: Or(e.val(0) < 0, e.val(1) > ln(e.this), e.val(0) > e.val(1)),
  post=lambda e: seq(e.this, ln(e.old.this) - (e.old.val(1) - e.old.val(0)), lambda k: If(k < e.old.val(0), at(e.old.this, k), at(e.old.this, k + (e.old.val(1) - e.old.val(0))))))
C(name="clear", nparams=0, props=("L02",), frame=lambda e: [e.this], post=lambda e: [("empty", ln(e.this) == 0)])



def range_args(pos=0):
    """a pair of iterators into one array of elements"""
    def mk(ex, i, p):
        from ..stdmodels import Desc
        from ..engine import opaque_sort
        if i == pos:
            s = opaque_sort("Elem")
            v = Vec(ex, "vector", Desc("Elem", s), "range[]", ex.fresh("range[]", arrsort(s)), ex.fresh("range.size"))
            a, b = ex.fresh("first"), ex.fresh("last")
            ex.assume(0 <= a, a <= b, b <= v.len, v.len <= INT_MAX)
            ex.range_ = (v, a, b)
            return Cell(ex, "first", Iter(v, a), "iterator")
        if i == pos + 1:
            return Cell(ex, "last", Iter(ex.range_[0], ex.range_[2]), "iterator")
        return None
    return mk


def rng(e, i=0):
    f, l = e.args[i].val, e.args[i + 1].val
    return f.vec.arr, f.pos, l.pos


def rng_seq(o, e):
    a, f, l = rng(e)
    return seq(o, l - f, lambda k: Select(a, f + k))


C(name="List", nparams=2, suffix="(range)", pred=lambda d: "Elem" in ptype0(d), props=("L02",), make_arg=range_args(), inline=True, post=lambda e: rng_seq(e.this, e))


def extended(o, s, e):
    a, f, l = rng(e)
    return seq(o, ln(s) + (l - f), lambda k: If(k < ln(s), at(s, k), Select(a, f + (k - ln(s)))))


def one_by_one(front):
    """the elements of the range are added one by one: to the back from the first on, to the front from the last on"""
    def inv(L):
        a, f, l = rng(L.old)
        p, s = L.ctr_pos(), L.old.this
        if front:
            grown = seq(L.this, ln(s) + (l - p), lambda k: If(k < l - p, Select(a, p + k), at(s, k - (l - p))))
        else:
            grown = seq(L.this, ln(s) + (p - f), lambda k: If(k < ln(s), at(s, k), Select(a, f + (k - ln(s)))))
        return [("position", And(f <= p, p <= l))] + grown
    return [LoopSpec(inv, lambda L: L.ctr_pos() - rng(L.old)[1] if front else rng(L.old)[2] - L.ctr_pos())]


C(name="extend", nparams=2, pred=lambda d: "Elem" in ptype0(d), props=("L02",), make_arg=range_args(), inline=True, pre=lambda e: [("room", ln(e.this) + (rng(e)[2] - rng(e)[1]) <= INT_MAX)],
  frame=lambda e: [e.this], post=lambda e: extended(e.this, e.old.this, e), alts=[one_by_one(False)])

# ---------------------------------------------------------------- repetition


def rep(o, s, t):
    return [("size", ln(o) == ln(s) * t), ("elements", allk(lambda k: at(o, k) == at(s, TMOD(k, ln(s))), 0, ln(s) * t, pat=lambda k: Select(ar(o), k)))]


def rep_raises(e):
    return Or(e.val(0) < 0, ln(e.this) * e.val(0) >= INT_MAX)


def mod_block(n, p):
    """p*n <= k < p*n+n: k mod n = k - p*n, for every k at once"""
    k = Int("k!b")
    return ForAll([k], Implies(And(n > 0, p >= 0, p * n <= k, k < p * n + n), TMOD(k, n) == k - p * n), patterns=[TMOD(k, n)])


def rep_inv(L):
    p = L.ctr(name="part")
    n = ln(L.this)
    b = L.local_vec()
    return [("part", And(0 <= p, p <= L.old.val(0)))] + [("output-position", o.val.pos == n * p) for o in L.mod_cells(lambda o: isinstance(o.val, Iter) and o.val.vec is b)] + [("size", ln(b) == n * L.old.val(0)), ("filled", allk(lambda k: at(b, k) == at(L.this, TMOD(k, n)), 0, n * p, pat=lambda k: Select(ar(b), k)))]


def rep_append_inv(L):
    """each part is appended"""
    p = L.ctr(name="part")
    n = ln(L.this)
    b = L.local_vec()
    return [("part", And(0 <= p, p <= L.old.val(0))), ("size", ln(b) == n * p), ("filled", allk(lambda k: at(b, k) == at(L.this, TMOD(k, n)), 0, n * p, pat=lambda k: Select(ar(b), k)))]


def rep_down_inv(L):
    """the parts are filled from the last to the first"""
    p = L.ctr(name="part")
    n = ln(L.this)
    b = L.local_vec()
    t = L.old.val(0)
    return [("part", And(0 <= p, p <= t)), ("size", ln(b) == n * t), ("filled", allk(lambda k: at(b, k) == at(L.this, TMOD(k, n)), n * p, n * t, pat=lambda k: Select(ar(b), k)))]


def rep_down_hints(L):
    p = simplify(L.ctr(name="part") - 1)
    return [mod_block_l(ln(L.this), p), mul_block(ln(L.this), p, L.old.val(0))]


@lemma
def mod_block_l(n, p):
    """[lemma mod_block]"""
    return mod_block(n, p)


@lemma
def mul_block(n, p, t):
    """[lemma mul_block]"""
    return Implies(And(n >= 0, p >= 0, p < t), And(n * p >= 0, n * p + n <= n * t, n * simplify(p + 1) == n * p + n))


def rep_hints(L):
    return [mod_block_l(ln(L.this), L.ctr(name="part")), mul_block(ln(L.this), L.ctr(name="part"), L.old.val(0))]


def rep_loops():
    left_over = lambda L: L.old.val(0) - L.ctr(name="part")
    return {"loops": [LoopSpec(rep_inv, left_over, hints=rep_hints)], "alts": [[LoopSpec(rep_append_inv, left_over, hints=rep_hints)], [LoopSpec(rep_down_inv, lambda L: L.ctr(name="part"), hints=rep_down_hints)]]}


C(name="operator*", nparams=1, props=("L07",), pre=room, raises=rep_raises, post=lambda e: rep(e.ret, e.old.this, e.old.val(0)),
  proof=lambda e: [mul_block(ln(e.this), IntVal(0), e.val(0)), Implies(And(ln(e.this) >= 0, e.val(0) >= 0), ln(e.this) * e.val(0) >= 0)],
  **rep_loops())
C(name="operator*=", nparams=1, props=("L07",), pre=room, raises=rep_raises, frame=lambda e: [e.this], ret=lambda e: e.this, post=lambda e: rep(e.this, e.old.this, e.old.val(0)))

# ---------------------------------------------------------------- slices
SEQ = z3.Function("SEQ", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())   # SEQ(s, d, t) = s + t*d


@lemma
def seq_def(s, d, t):
    """[def] SEQ"""
    return And(SEQ(s, d, IntVal(0)) == s, Implies(t >= 0, SEQ(s, d, simplify(t + 1)) == SEQ(s, d, t) + d))


def before(x, stop, step):
    return If(step > 0, x < stop, x > stop)


def slice_pos(e):
    o = e.old.this
    return wrap(e.old.val(0), ln(o)), If(e.old.val(1) < 0, e.old.val(1) + ln(o), e.old.val(1)), e.old.val(2)


def slice_seq(o, src, s, p, d, at_=None):
    """o holds src[s], src[s+d], ... up to the last position before p"""
    n = ln(o)
    return [("elements", allk(lambda k: at(o, k) == at(src, SEQ(s, d, k)), 0, n, pat=lambda k: Select(ar(o), k))),
            ("last-is-before-stop", Implies(n > 0, before(SEQ(s, d, simplify(n - 1)), p, d))), ("next-is-not", Not(before(SEQ(s, d, n), p, d)))]


def slice_inv(L):
    b = L.local_vec()
    i = L.ctr(name="i")
    s, p, d = slice_pos(L.env)
    n = ln(b)
    return [("position", i == SEQ(s, d, n)), ("progress", And(If(d > 0, And(i >= s, n <= i - s), And(i <= s, n <= s - i)), n >= 0)),
            ("elements", allk(lambda k: at(b, k) == at(L.this, SEQ(s, d, k)), 0, n, pat=lambda k: Select(ar(b), k))),
            ("last-is-before-stop", Implies(n > 0, before(SEQ(s, d, simplify(n - 1)), p, d))),
            ("bounded", And(Implies(d > 0, i <= ln(L.this) + d), Implies(d < 0, i >= d)))]


def slice_hints(L):
    s, p, d = slice_pos(L.env)
    n = ln(L.local_vec())
    return [seq_def(s, d, n), seq_def(s, d, IntVal(0))]


def slice_var(L):
    s, p, d = slice_pos(L.env)
    i = L.ctr(name="i")
    return If(d > 0, p - i, i - p) + 4294967296


def slice_raises(e):
    n = ln(e.this)
    return Or(e.val(2) == 0, outside(e.val(0), -n, n), outside(e.val(1), -n - 1, n + 1))


C(name="slice", nparams=3, props=("L04",), pre=room, raises=slice_raises, post=lambda e: slice_seq(e.ret, e.old.this, *slice_pos(e)),
  proof=lambda e: [seq_def(wrap(e.val(0), ln(e.this)), e.val(2), IntVal(0))],
  loops=[LoopSpec(slice_inv, slice_var, hints=slice_hints)])

# ---------------------------------------------------------------- uniquify, sort, map, filter


def UQ(a):
    s = a.sort()
    return (usort("UQLEN", s.range(), s, z3.IntSort(), z3.IntSort()), usort("UQARR", s.range(), s, z3.IntSort(), s),
            usort("UQNEW", s.range(), s, z3.IntSort(), z3.BoolSort()))


@lemma
def uniq_def(a, i):
    """[def] UQLEN(a, i), UQARR(a, i): the distinct elements of a[0..i) in the order of their first occurrence; UQNEW(a, i): a[i] does not occur in a[0..i)"""
    L, A, N = UQ(a)
    i1 = simplify(i + 1)
    k = Int("k!u")
    return And(L(a, IntVal(0)) == 0, Implies(i >= 0, And(L(a, i) >= 0, L(a, i) <= i, L(a, i1) == L(a, i) + If(N(a, i), IntVal(1), IntVal(0)),
               ForAll([k], Implies(And(0 <= k, k < L(a, i)), Select(A(a, i1), k) == Select(A(a, i), k)), patterns=[Select(A(a, i1), k)]),
               Implies(N(a, i), Select(A(a, i1), L(a, i)) == Select(a, i)))))


@lemma
def uniq_new(a, i):
    """[lemma uniq_new] a[i] is new exactly if it is not among the distinct elements of a[0..i)"""
    L, A, N = UQ(a)
    k = Int("k!u")
    w = usort("UQPOS", a.sort().range(), a.sort(), z3.IntSort(), z3.IntSort())(a, i)
    return Implies(i >= 0, And(Implies(N(a, i), ForAll([k], Implies(And(0 <= k, k < L(a, i)), Select(A(a, i), k) != Select(a, i)), patterns=[Select(A(a, i), k)])),
                               Implies(Not(N(a, i)), And(0 <= w, w < L(a, i), Select(A(a, i), w) == Select(a, i)))))


def uniq_inv(L):
    i = L.ctr_pos()
    b = L.local_vec()
    src = L.this
    a = ar(L.old.this)
    ul, ua, un = UQ(a)
    return [("position", And(0 <= i, i <= ln(src))), ("size", ln(b) == ul(a, i)), ("distinct-so-far", allk(lambda k: at(b, k) == Select(ua(a, i), k), 0, ln(b), pat=lambda k: Select(ar(b), k)))]


def uniq_hints(L):
    a = ar(L.old.this)
    i = L.ctr_pos()
    w = usort("UQPOS", a.sort().range(), a.sort(), z3.IntSort(), z3.IntSort())(a, i)
    return [uniq_def(a, i), uniq_new(a, i), mention(Select(ar(L.local_vec()), w))]


def uniq_post(e):
    a = ar(e.old.this)
    ul, ua, un = UQ(a)
    n = ln(e.old.this)
    return seq(e.this, ul(a, n), lambda k: Select(ua(a, n), k))


C(name="uniquify", nparams=0, props=("L06",), frame=lambda e: [e.this], ret=lambda e: e.this, post=uniq_post, proof=lambda e: [uniq_def(ar(e.this), IntVal(0))],
  loops=[LoopSpec(uniq_inv, lambda L: ln(L.this) - L.ctr_pos(), hints=uniq_hints)])


def sorted_seq(o, s, cmp):
    st = es(s)
    S = U("SORTED_" + str(st), arrsort(st), IntSort(), IntSort(), arrsort(st))
    return seq(o, ln(s), lambda k: Select(S(ar(s), ln(s), cmp), k))


def cmp_of(e, i=0):
    c = e.old.args[i]
    c = c.val if hasattr(c, "val") else c
    return Const("CMP_" + c.name, IntSort()) if hasattr(c, "name") else Const("CMP_?", IntSort())


C(name="sort", nparams=1, props=("L06",), frame=lambda e: [e.this], ret=lambda e: e.this, inline=True, post=lambda e: sorted_seq(e.this, e.old.this, cmp_of(e)))
C(cls=None, name="list_sort", title="List::sort() with the default comparator", nparams=1, props=("L06",), frame=lambda e: [e.args[0]],
  post=lambda e: sorted_seq(e.args[0], e.old.args[0], Const("CMP_less", IntSort())))


def act(x):
    return U("ACT_" + str(x.sort()), x.sort(), x.sort())(x)


def map_inv(L):
    i = L.ctr_pos()
    return [("position", And(0 <= i, i <= ln(L.old.this)))] + seq(L.this, ln(L.old.this), lambda k: If(k < i, act(at(L.old.this, k)), at(L.old.this, k)))


C(name="map", nparams=1, props=("L06",), frame=lambda e: [e.this], ret=lambda e: e.this, inline=True, post=lambda e: seq(e.this, ln(e.old.this), lambda k: act(at(e.old.this, k))),
  alts=[[LoopSpec(map_inv, lambda L: ln(L.old.this) - L.ctr_pos())]])


def filtered(o, s):
    st = es(s)
    p = Const("PRED_Pred", IntSort())
    L = U("FLTLEN_pred_%s" % st, arrsort(st), IntSort(), IntSort(), IntSort())
    F = U("FLTARR_pred_%s" % st, arrsort(st), IntSort(), IntSort(), arrsort(st))
    return seq(o, L(ar(s), ln(s), p), lambda k: Select(F(ar(s), ln(s), p), k))


C(name="filter", nparams=1, props=("L06",), frame=lambda e: [e.this], ret=lambda e: e.this, inline=True, post=lambda e: filtered(e.this, e.old.this), **flt_loop("pred"))

# ---------------------------------------------------------------- printing
C(name="operator<<", nparams=2, pred=lambda d: "const List<Elem>" in cppsig(d).replace("pyincpp_probe::", ""), title="operator<<(ostream&, List)", props=("P01",), frame=lambda e: [e.args[0]], ret=lambda e: e.args[0],
  post=lambda e: printed(e.old.args[0], "[", ar(e.old.args[1]), ln(e.old.args[1]), "]").equals(e.args[0]), proof=lambda e: [joined_def(ar(e.args[1]), IntVal(0))],
  **print_loops(lambda L: Text().add(ar(L.old.args[0]), ln(L.old.args[0])).lit("["), lambda L: ar(L.args[1]), lambda L: ln(L.args[1])))

# ---------------------------------------------------------------- rotation, reversal


def emod(k, n):
    t = TMOD(k, n)
    return If(t < 0, t + n, t)


def rotated(o, s, k, left=True):
    n = ln(s)
    r = emod(k if left else -k, n)
    return [("size", ln(o) == n), ("permuted", Implies(n > 0, allk(lambda i: at(o, i) == If(i + r < n, at(s, i + r), at(s, i + r - n)), 0, n, pat=lambda i: Select(ar(o), i))))]


def rot_hints(e):
    n = ln(e.this)
    k = e.val(0)
    r = TMOD(k, n)
    return [tmod_neg(k, n), tmod_small(r, n), tmod_neg(r, n), tmod_range(k, n), tmod_small(IntVal(0), n), Implies(n == 1, Implies(n > 0, And(r < n, -r < n)))]


C(name="operator<<=", nparams=1, props=("L05",), frame=lambda e: [e.this], ret=lambda e: e.this, post=lambda e: rotated(e.this, e.old.this, e.old.val(0)), proof=rot_hints)
C(name="operator>>=", nparams=1, props=("L05",), frame=lambda e: [e.this], ret=lambda e: e.this, post=lambda e: rotated(e.this, e.old.this, e.old.val(0), False), proof=rot_hints)
def swap_loop():
    """elements i and n-1-i change places, from the outside inwards"""
    def inv(L):
        i = L.ctr_pos()
        n = ln(L.old.this)
        s = L.old.this
        other = [("the-two-positions-mirror", i + L.cval(o) == n - 1) for o in L.mod_cells(lambda o: "." not in o.name.split("/")[-1])[1:2]]
        return [("position", And(0 <= i, Or(2 * i <= n + 1, i == 0)))] + other + seq(L.this, n, lambda k: If(Or(k < i, k >= n - i), at(s, n - 1 - k), at(s, k)))
    return LoopSpec(inv, lambda L: ln(L.old.this) + 2 - 2 * L.ctr_pos())


def built_backwards():
    """the last elements are copied first"""
    def inv(L):
        p, s, b = L.ctr_pos(), L.old.this, L.local_vec()
        return [("position", And(0 <= p, p <= ln(s)))] + seq(b, ln(s) - p, lambda k: at(s, ln(s) - 1 - k))
    return [LoopSpec(inv, lambda L: L.ctr_pos())]


C(name="reverse", nparams=0, props=("L05",), frame=lambda e: [e.this], ret=lambda e: e.this,
  post=lambda e: seq(e.this, ln(e.old.this), lambda k: at(e.old.this, ln(e.old.this) - 1 - k)), alts=[[swap_loop()], built_backwards()])
