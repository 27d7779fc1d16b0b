"""Contracts of Str (str.hpp)."""
from .common import *
from .lists import isref, isiter, seq, wrap, outside, rotated, slice_pos, slice_seq, slice_inv, slice_hints, slice_var, slice_raises, seq_def, rep, rep_raises, rep_loops, mul_block, cppsig, ptype0, rot_hints, concat
from ..stdmodels import FIND, MATCH, find_def, HASHS
from ..engine import INT_MAX, INT_MIN

STR = []
SELF = (None, {0: "this"})


def C(**kw):
    kw.setdefault("cls", "Str")
    kw["props"] = tuple(kw["props"]) + ("U01",)
    c = Contract(**kw)
    STR.append(c)
    return c


def same(o, s):
    return seq(o, ln(s), lambda k: at(s, k))


room = lambda e: [("room", ln(e.this) <= INT_MAX - 4)]
zero = IntVal(0)
isstr = lambda d: "Str" in ptype0(d)

# ---------------------------------------------------------------- construction, copies
C(name="Str", nparams=0, props=("A01",), optional=True, post=lambda e: [("empty", ln(e.this) == 0)])
C(name="Str", nparams=1, pred=lambda d: "basic_string" in cppsig(d) or "std::string" in cppsig(d), suffix="(std::string)", props=("S02", "A01"), inline=True, post=lambda e: same(e.this, e.old.args[0]))
C(name="Str", nparams=1, pred=lambda d: "Str &&" in cppsig(d), suffix="(move)", props=("A01",), inline=True, frame=lambda e: [e.args[0]], post=lambda e: same(e.this, e.old.args[0]))
C(name="operator=", nparams=1, pred=lambda d: "const Str &" in cppsig(d), suffix="(copy)", aliases=SELF, props=("A01",), inline=True, frame=lambda e: [e.this], ret=lambda e: e.this, post=lambda e: same(e.this, e.old.args[0]))
C(name="operator=", nparams=1, pred=lambda d: "Str &&" in cppsig(d), suffix="(move)", props=("A01",), inline=True, frame=lambda e: [e.this, e.args[0]], ret=lambda e: e.this, post=lambda e: same(e.this, e.old.args[0]))

# ---------------------------------------------------------------- access and examination
C(name="operator[]", nparams=1, props=("L01",), inline=True, raises=lambda e: outside(e.val(0), -ln(e.this), ln(e.this)),
  post=lambda e: [("element", isref(e, wrap(e.old.val(0), ln(e.old.this))))])
C(name="size", nparams=0, props=("L01",), inline=True, post=lambda e: [("value", e.ret == ln(e.old.this))])
C(name="is_empty", nparams=0, props=("L01",), inline=True, post=lambda e: [("value", e.ret == (ln(e.old.this) == 0))])
C(name="begin", nparams=0, props=("P01",), inline=True, post=lambda e: [("first", isiter(e.ret, e.this, 0))])
C(name="end", nparams=0, props=("P01",), inline=True, post=lambda e: [("past-last", isiter(e.ret, e.this, ln(e.this)))])
C(name="rbegin", nparams=0, props=("L01",), inline=True, optional=True, post=lambda e: [("last", isiter(e.ret, e.this, ln(e.this), True))])
C(name="rend", nparams=0, props=("L01",), inline=True, optional=True, post=lambda e: [("before-first", isiter(e.ret, e.this, 0, True))])


def window(e, i=1, j=2):
    n = ln(e.this)
    a, b = e.val(i), e.val(j)
    return If(a < 0, zero, a), If(b > n, n, b)


def found(o, p, lo, hi):
    return If(lo > hi, IntVal(-1), FIND(ar(o), lo, hi, ar(p), zero, ln(p)))


def find_post(e):
    lo, hi = window(OldView(e))
    return found(e.old.this, e.old.args[0], lo, hi)


class OldView:
    def __init__(self, e):
        self.this, self.args, self.e = e.old.this, e.old.args, e

    def val(self, i):
        return self.e.old.val(i)


def find_facts(e):
    return [find_def(ar(e.old.this), *window(OldView(e)), ar(e.old.args[0]), zero, ln(e.old.args[0]))]


C(name="find", nparams=3, props=("S01", "S02"), aliases=SELF, post=lambda e: [("leftmost-match-in-the-window", e.ret == find_post(e))], lemmas=find_facts, proof=find_facts)
C(name="contains", nparams=3, props=("S01",), aliases=SELF, post=lambda e: [("find-is-not-minus-one", e.ret == (find_post(e) != -1))])

AI_ = z3.ArraySort(z3.IntSort(), z3.IntSort())
CNTF = z3.Function("CNTF", AI_, z3.IntSort(), AI_, z3.IntSort(), z3.IntSort(), z3.IntSort())


@lemma
def cntf_def(a, n, p, m, s):
    """[def] CNTF(a, n, p, m, s): number of non-overlapping matches of p[0..m) in a[s..n), taken left to right"""
    r = FIND(a, s, n, p, zero, m)
    c = CNTF(a, n, p, m, s)
    return Implies(And(m > 0, s >= 0, s <= n), And(c >= 0, c == If(r == -1, zero, 1 + CNTF(a, n, p, m, r + m))))


def cnt_args(L):
    return ar(L.old.this), ln(L.old.this), ar(L.old.args[0]), ln(L.old.args[0])


def count_inv(L):
    a, n, p, m = cnt_args(L)
    s = L.ctr(name="start")
    c = L.ctr(name="cnt")
    return [("position", And(0 <= s, s <= n)), ("counted", And(c >= 0, c <= s)), ("rest", c + CNTF(a, n, p, m, s) == CNTF(a, n, p, m, zero))]


def count_ahead_inv(L):
    """the next match is looked up before the loop and at the end of its body"""
    a, n, p, m = cnt_args(L)
    h = L.ctr(name="hit")
    c = L.ctr(name="cnt")
    return [("next-match", And(h >= -1, Or(h == -1, h + m <= n))), ("counted", And(c >= 0, c <= If(h == -1, n, h))), ("rest", c + If(h == -1, zero, 1 + CNTF(a, n, p, m, h + m)) == CNTF(a, n, p, m, zero))]


def count_ahead():
    left_over = lambda L: If(L.ctr(name="hit") == -1, zero, ln(L.this) - L.ctr(name="hit") + 1)
    return LoopSpec(count_ahead_inv, left_over, hints=lambda L: [cntf_def(*cnt_args(L), L.ctr(name="hit") + ln(L.old.args[0]))])


C(name="count", nparams=1, props=("S01",), aliases=SELF, pre=room,
  post=lambda e: [("non-overlapping-matches", e.ret == If(ln(e.old.args[0]) == 0, ln(e.old.this) + 1, CNTF(ar(e.old.this), ln(e.old.this), ar(e.old.args[0]), ln(e.old.args[0]), zero)))],
  loops=[LoopSpec(count_inv, lambda L: ln(L.this) - L.ctr(name="start"), hints=lambda L: [cntf_def(*cnt_args(L), L.ctr(name="start"))])],
  proof=lambda e: [cntf_def(*cnt_args(e), zero)], alts=[[count_ahead()]])


def prefix(o, p):
    return And(ln(o) >= ln(p), MATCH(ar(o), zero, ar(p), zero, ln(p)))


def suffix(o, p):
    return And(ln(o) >= ln(p), MATCH(ar(o), simplify(ln(o) - ln(p)), ar(p), zero, ln(p)))


C(name="starts_with", nparams=1, props=("S01",), aliases=SELF, post=lambda e: [("prefix", e.ret == prefix(e.old.this, e.old.args[0]))])
C(name="ends_with", nparams=1, props=("S01",), aliases=SELF, post=lambda e: [("suffix", e.ret == suffix(e.old.this, e.old.args[0]))])

# ---------------------------------------------------------------- rotation, reversal, slices, repetition, concatenation
C(name="operator<<", nparams=1, pred=lambda d: "ostream" not in cppsig(d), props=("L05",), post=lambda e: rotated(e.ret, e.old.this, e.old.val(0)), proof=rot_hints)
C(name="operator>>", nparams=1, pred=lambda d: "stream" not in cppsig(d), props=("L05",), post=lambda e: rotated(e.ret, e.old.this, e.old.val(0), False), proof=rot_hints)
C(name="reverse", nparams=0, props=("L05",), post=lambda e: seq(e.ret, ln(e.old.this), lambda k: at(e.old.this, ln(e.old.this) - 1 - k)))
C(name="slice", nparams=3, props=("L04",), pre=room, raises=slice_raises, post=lambda e: slice_seq(e.ret, e.old.this, *slice_pos(e)),
  proof=lambda e: [seq_def(wrap(e.val(0), ln(e.this)), e.val(2), zero)], loops=[LoopSpec(slice_inv, slice_var, hints=slice_hints)])
C(name="operator*", nparams=1, props=("L07",), pre=room, raises=rep_raises, post=lambda e: rep(e.ret, e.old.this, e.old.val(0)),
  proof=lambda e: [mul_block(ln(e.this), zero, e.val(0)), Implies(And(ln(e.this) >= 0, e.val(0) >= 0), ln(e.this) * e.val(0) >= 0)],
  **rep_loops())
C(name="operator+", nparams=1, pred=lambda d: not isstr(d), suffix="(char)", props=("L07",), pre=room,
  post=lambda e: seq(e.ret, ln(e.old.this) + 1, lambda k: If(k < ln(e.old.this), at(e.old.this, k), e.old.val(0))))
C(name="operator+", nparams=1, pred=isstr, suffix="(string)", aliases=SELF, props=("L07",), pre=lambda e: [("room", ln(e.this) + ln(e.args[0]) <= INT_MAX - 4)],
  post=lambda e: concat(e.ret, e.old.this, e.old.args[0]))

# ---------------------------------------------------------------- case, erase, strip
low = lambda c: If(And(c >= 65, c <= 90), c + 32, c)
upp = lambda c: If(And(c >= 97, c <= 122), c - 32, c)


def case_loop(f):
    def inv(L):
        i = L.ctr_pos()
        b, s = L.local_vec(), L.old.this
        return [("position", And(0 <= i, i <= ln(b))), ("size", ln(b) == ln(s)), ("done", allk(lambda k: at(b, k) == If(k < i, f(at(s, k)), at(s, k)), 0, ln(b), pat=lambda k: Select(ar(b), k)))]
    return LoopSpec(inv, lambda L: ln(L.this) - L.ctr_pos())


def case_push(f):
    """the converted characters are appended to an empty buffer"""
    def inv(L):
        i = L.ctr_pos()
        b, s = L.local_vec(), L.old.this
        return [("position", And(0 <= i, i <= ln(s))), ("size", ln(b) == i), ("done", allk(lambda k: at(b, k) == f(at(s, k)), 0, i, pat=lambda k: Select(ar(b), k)))]
    return LoopSpec(inv, lambda L: ln(L.this) - L.ctr_pos())


C(name="lower", nparams=0, props=("S05",), post=lambda e: seq(e.ret, ln(e.old.this), lambda k: low(at(e.old.this, k))), loops=[case_loop(low)], alts=[[case_push(low)]])
C(name="upper", nparams=0, props=("S05",), post=lambda e: seq(e.ret, ln(e.old.this), lambda k: upp(at(e.old.this, k))), loops=[case_loop(upp)], alts=[[case_push(upp)]])
C(name="erase", nparams=2, props=("S05",), pre=room, raises=lambda e: Or(e.val(0) < 0, e.val(1) > ln(e.this), e.val(0) > e.val(1)),
  post=lambda e: seq(e.ret, ln(e.old.this) - (e.old.val(1) - e.old.val(0)), lambda k: If(k < e.old.val(0), at(e.old.this, k), at(e.old.this, k + (e.old.val(1) - e.old.val(0))))))

I_ = z3.IntSort()
STL = z3.Function("STL", AI_, I_, I_, I_)
STR_ = z3.Function("STR", AI_, I_, I_, I_)


def strippable(c, ch):
    return If(ch == -1, And(c >= 0, c <= 32), c == ch)


@lemma
def strip_def(a, n, ch):
    """[def] STL, STR: a[STL..STR) is a[0..n) without its longest strippable prefix and suffix"""
    l, r = STL(a, n, ch), STR_(a, n, ch)
    k = Int("k!s")
    S = lambda t: strippable(Select(a, t), ch)
    return Implies(n >= 0, And(0 <= l, l <= r, r <= n, ForAll([k], Implies(And(0 <= k, k < l), S(k)), patterns=[Select(a, k)]), Implies(l < n, Not(S(l))),
                               ForAll([k], Implies(And(r <= k, k < n), S(k)), patterns=[Select(a, k)]), Implies(r > l, Not(S(r - 1)))))


def strip_args(e):
    return ar(e.old.this), ln(e.old.this), e.old.val(0)


def strip_inv1(L):
    i = L.ctr(name="i")
    a = ar(L.old.this)
    return [("position", And(0 <= i, i <= ln(L.this))), ("strippable", allk(lambda k: strippable(Select(a, k), L.env.val(0)), 0, i, pat=lambda k: Select(a, k)))]


def strip_inv2(L):
    i = L.ctr(name="i")
    b = L.local_vec()
    return [("position", And(-1 <= i, i < ln(b))), ("strippable", allk(lambda k: strippable(at(b, k), L.env.val(0)), i + 1, ln(b), pat=lambda k: Select(ar(b), k)))]


def strip_post(e):
    a, n, ch = strip_args(e)
    l, r = STL(a, n, ch), STR_(a, n, ch)
    return seq(e.ret, r - l, lambda k: Select(a, l + k))


def strip_exit(L):
    i = L.ctr(name="i")
    b = L.local_vec()
    a = ar(L.old.this)
    return [mention(Select(a, i), Select(a, STL(a, ln(L.this), L.env.val(0))))]


def strip_exit2(L):
    i = L.ctr(name="i")
    b = L.local_vec()
    a, n, ch = ar(L.old.this), ln(L.old.this), L.env.val(0)
    l, r = STL(a, n, ch), STR_(a, n, ch)
    return [mention(Select(a, l + i), Select(ar(b), r - l - 1), Select(ar(b), r - l))]


C(name="strip", nparams=1, props=("S05",), pre=room, post=strip_post, proof=lambda e: [strip_def(ar(e.this), ln(e.this), e.val(0))],
  loops=[LoopSpec(strip_inv1, lambda L: ln(L.this) - L.ctr(name="i"), exit_hints=strip_exit), LoopSpec(strip_inv2, lambda L: L.ctr(name="i") + 1, exit_hints=strip_exit2)])

# ---------------------------------------------------------------- replace, split, join
REACH = z3.Function("REACH", AI_, I_, AI_, I_, I_, z3.BoolSort())
ENDC = z3.Function("ENDCUT", AI_, I_, AI_, I_, I_)


def nxt(a, n, p, m, s):
    return FIND(a, s, n, p, zero, m)


@lemma
def cut_def(a, n, p, m, s):
    """[def] REACH(s): s is a cut: 0, or the end of the leftmost match after a cut.  ENDCUT: the cut after which there is no match"""
    r, E = nxt(a, n, p, m, s), ENDC(a, n, p, m)
    return Implies(And(m > 0, n >= 0), And(REACH(a, n, p, m, zero), REACH(a, n, p, m, E), 0 <= E, E <= n, nxt(a, n, p, m, E) == -1,
                   Implies(And(REACH(a, n, p, m, s), 0 <= s, s <= n), And(Implies(r != -1, REACH(a, n, p, m, simplify(r + m))), Implies(r == -1, s == E)))))


RPL = z3.Function("RPL", AI_, I_, AI_, I_, AI_, I_, I_, I_)
RPA = z3.Function("RPA", AI_, I_, AI_, I_, AI_, I_, I_, AI_)


@lemma
def replaced_def(a, n, p, m, q, l, s):
    """[def] RPL, RPA: the text written up to the cut s: between cuts the original characters, then q for the match"""
    r = nxt(a, n, p, m, s)
    L = lambda t: RPL(a, n, p, m, q, l, t)
    A = lambda t: RPA(a, n, p, m, q, l, t)
    k = Int("k!r")
    t = simplify(r + m)
    return And(L(zero) == 0, Implies(And(m > 0, l >= 0, n >= 0, REACH(a, n, p, m, s), r != -1), And(L(s) >= 0, L(t) == L(s) + (r - s) + l,
               ForAll([k], Implies(And(0 <= k, k < L(t)), Select(A(t), k) == If(k < L(s), Select(A(s), k), If(k < L(s) + (r - s), Select(a, s + k - L(s)), Select(q, k - L(s) - (r - s))))),
                      patterns=[Select(A(t), k)]))), Implies(REACH(a, n, p, m, s), L(s) >= 0))


EXL = z3.Function("EXL", AI_, AI_, I_, I_, I_)
EXA = z3.Function("EXA", AI_, AI_, I_, I_, AI_)


@lemma
def expand_def(a, q, l, i):
    """[def] EXL, EXA: q a[0] q a[1] q ... a[i-1] q"""
    L = lambda t: EXL(a, q, l, t)
    A = lambda t: EXA(a, q, l, t)
    k = Int("k!x")
    j = simplify(i + 1)
    return And(L(zero) == l, ForAll([k], Implies(And(0 <= k, k < l), Select(A(zero), k) == Select(q, k)), patterns=[Select(A(zero), k)]),
               Implies(And(i >= 0, l >= 0), And(L(i) >= 0, L(j) == L(i) + 1 + l,
               ForAll([k], Implies(And(0 <= k, k < L(j)), Select(A(j), k) == If(k < L(i), Select(A(i), k), If(k == L(i), Select(a, i), Select(q, k - L(i) - 1)))), patterns=[Select(A(j), k)]))))


def r_args(e):
    o = e.old
    return ar(o.this), ln(o.this), ar(o.args[0]), ln(o.args[0]), ar(o.args[1]), ln(o.args[1])


def replace_post(e):
    a, n, p, m, q, l = r_args(e)
    E = ENDC(a, n, p, m)
    R = RPL(a, n, p, m, q, l, E)
    RA = RPA(a, n, p, m, q, l, E)
    o = e.ret
    return [("empty-pattern-size", Implies(m == 0, ln(o) == EXL(a, q, l, n))), ("empty-pattern", Implies(m == 0, allk(lambda k: at(o, k) == Select(EXA(a, q, l, n), k), 0, ln(o), pat=lambda k: Select(ar(o), k)))),
            ("size", Implies(m > 0, ln(o) == R + (n - E))),
            ("text", Implies(m > 0, allk(lambda k: at(o, k) == If(k < R, Select(RA, k), Select(a, E + k - R)), 0, ln(o), pat=lambda k: Select(ar(o), k))))]


def replace_inv0(L):
    a, n, p, m, q, l = r_args(L)
    i = L.ctr_pos()
    b = L.local_vec()
    return [("position", And(0 <= i, i <= n)), ("size", ln(b) == EXL(a, q, l, i)), ("text", allk(lambda k: at(b, k) == Select(EXA(a, q, l, i), k), 0, ln(b), pat=lambda k: Select(ar(b), k)))]


def replace_inv1(L):
    a, n, p, m, q, l = r_args(L)
    s = L.ctr(name="this_start")
    b = L.local_vec()
    return [("position", And(0 <= s, s <= n)), ("cut", REACH(a, n, p, m, s)), ("size", ln(b) == RPL(a, n, p, m, q, l, s)),
            ("text", allk(lambda k: at(b, k) == Select(RPA(a, n, p, m, q, l, s), k), 0, ln(b), pat=lambda k: Select(ar(b), k)))]


def ahead(inv, args):
    """the loop with its next match looked up before the loop and at the end of its body"""
    def f(L):
        a, n, p, m = args(L)[:4]
        s = L.ctr(name="this_start")
        return inv(L) + [("next-match", L.ctr(name="patt_start") == nxt(a, n, p, m, s))]
    return f


def match_at(args, also):
    a, n, p, m = args[:4]
    return [find_def(a, also, n, p, zero, m)]


def replace_loops(inv):
    return [LoopSpec(replace_inv0, lambda L: ln(L.this) - L.ctr_pos(), hints=lambda L: [expand_def(*[r_args(L)[i] for i in (0, 4, 5)], L.ctr_pos())]),
            LoopSpec(inv, lambda L: ln(L.this) - L.ctr(name="this_start"), hints=lambda L: [cut_def(*r_args(L)[:4], L.ctr(name="this_start")), replaced_def(*r_args(L), L.ctr(name="this_start"))] + match_at(r_args(L), L.ctr(name="this_start")))]


C(name="replace", nparams=2, props=("S02",), pre=room, aliases=(None, {0: "this"}, {1: "this"}, {0: "this", 1: "this"}, {1: 0}), post=replace_post,
  proof=lambda e: [expand_def(*[r_args(e)[i] for i in (0, 4, 5)], zero), cut_def(*r_args(e)[:4], zero), replaced_def(*r_args(e), zero)],
  loops=replace_loops(replace_inv1), alts=[replace_loops(ahead(replace_inv1, r_args))])

# split: pieces between neighbouring cuts; piece number j of the result starts at the cut PST(j)
IDX = z3.Function("IDX", AI_, I_, AI_, I_, z3.BoolSort(), I_, I_)
PST = z3.Function("PST", AI_, I_, AI_, I_, z3.BoolSort(), I_, I_)


def piece_end(a, n, p, m, s):
    r = nxt(a, n, p, m, s)
    return If(r == -1, n, r)


def kept(a, n, p, m, keep, s):
    return Or(keep, piece_end(a, n, p, m, s) > s)


@lemma
def idx_def(a, n, p, m, keep, s):
    """[def] IDX(s): number of pieces kept before the cut s; PST(j): the cut at which the kept piece number j starts"""
    r = nxt(a, n, p, m, s)
    X = lambda t: IDX(a, n, p, m, keep, t)
    g = And(m > 0, n >= 0, REACH(a, n, p, m, s))
    return And(X(zero) == 0, Implies(And(g, r != -1), X(simplify(r + m)) == X(s) + If(kept(a, n, p, m, keep, s), IntVal(1), zero)),
               Implies(And(g, kept(a, n, p, m, keep, s)), PST(a, n, p, m, keep, X(s)) == s), Implies(g, And(X(s) >= 0, X(s) <= s)))


from ..engine import StrV


def split_args(e):
    o = e.old
    return ar(o.this), ln(o.this), ar(o.args[0]), ln(o.args[0]), o.val(1)


def pieces(out, e, cnt):
    a, n, p, m, keep = split_args(e)
    S = lambda j: PST(a, n, p, m, keep, j)
    E = lambda j: piece_end(a, n, p, m, S(j))
    x = lambda j: Select(ar(out), j)
    j, k = Int("j!cut"), Int("k!cut")
    return [("piece-size", ForAll([j], Implies(And(0 <= j, j < cnt), StrV.slen(x(j)) == E(j) - S(j)), **({} if has_ite(x(j)) else {"patterns": [x(j)]}))),
            ("piece-text", ForAll([j, k], Implies(And(0 <= j, j < cnt, 0 <= k, k < E(j) - S(j)), Select(StrV.chars(x(j)), k) == Select(a, S(j) + k)),
                                  **({} if has_ite(x(j)) else {"patterns": [Select(StrV.chars(x(j)), k)]})))]


def split_post(e):
    a, n, p, m, keep = split_args(e)
    E = ENDC(a, n, p, m)
    cnt = IDX(a, n, p, m, keep, E) + If(kept(a, n, p, m, keep, E), IntVal(1), zero)
    return [("number-of-pieces", ln(e.ret) == cnt)] + pieces(e.ret, e, cnt)


def split_inv(L):
    a, n, p, m, keep = split_args(L)
    s = L.ctr(name="this_start")
    b = vec_of(L.local_struct("List<Str>"))
    return [("position", And(0 <= s, s <= n)), ("cut", REACH(a, n, p, m, s)), ("number-of-pieces", b.len == IDX(a, n, p, m, keep, s))] + pieces(b, L, b.len)


def split_loops():
    sp = lambda inv: [LoopSpec(inv, lambda L: ln(L.this) - L.ctr(name="this_start"), hints=lambda L: [cut_def(*split_args(L)[:4], L.ctr(name="this_start")), idx_def(*split_args(L), L.ctr(name="this_start"))] + match_at(split_args(L), L.ctr(name="this_start")))]
    return {"loops": sp(split_inv), "alts": [sp(ahead(split_inv, split_args))]}


C(name="split", nparams=2, props=("S02",), pre=room, aliases=SELF, raises=lambda e: ln(e.args[0]) == 0, post=split_post,
  proof=lambda e: [cut_def(*split_args(e)[:4], zero), idx_def(*split_args(e), zero)],
  **split_loops())

JNL = z3.Function("JNL", z3.ArraySort(I_, StrV), AI_, I_, I_, I_)
JNA = z3.Function("JNA", z3.ArraySort(I_, StrV), AI_, I_, I_, AI_)


@lemma
def join_def(a, q, l, i):
    """[def] JNL, JNA: a[0] q a[1] q ... q a[i-1]"""
    L = lambda t: JNL(a, q, l, t)
    A = lambda t: JNA(a, q, l, t)
    k = Int("k!n")
    j = simplify(i + 1)
    x = Select(a, i)
    sl = If(i > 0, l, zero)
    return And(L(zero) == 0, Implies(And(i >= 0, l >= 0, StrV.slen(x) >= 0), And(L(i) >= 0, L(j) == L(i) + sl + StrV.slen(x),
               ForAll([k], Implies(And(0 <= k, k < L(j)), Select(A(j), k) == If(k < L(i), Select(A(i), k), If(k < L(i) + sl, Select(q, k - L(i)), Select(StrV.chars(x), k - L(i) - sl)))), patterns=[Select(A(j), k)]))))


def join_args(e):
    return ar(e.old.args[0]), ar(e.old.this), ln(e.old.this)


def join_inv(L, first=1):
    i = L.ctr(name="i")
    b = L.local_vec()
    return [("position", And(first <= i, i <= ln(L.old.args[0]))), ("size", ln(b) == JNL(*join_args(L), i)), ("text", allk(lambda k: at(b, k) == Select(JNA(*join_args(L), i), k), 0, ln(b), pat=lambda k: Select(ar(b), k)))]


def join_loop(inv):
    return LoopSpec(inv, lambda L: ln(L.args[0]) - L.ctr(name="i"), hints=lambda L: [join_def(*join_args(L), L.ctr(name="i"))])


C(name="join", nparams=1, props=("S02",), pre=room, post=lambda e: seq(e.ret, JNL(*join_args(e), ln(e.old.args[0])), lambda k: Select(JNA(*join_args(e), ln(e.old.args[0])), k)),
  proof=lambda e: [join_def(*join_args(e), zero)], loops=[join_loop(join_inv)], alts=[[join_loop(lambda L: join_inv(L, 0))]])

# ---------------------------------------------------------------- printing
C(name="operator<<", pred=lambda d: "ostream" in cppsig(d), suffix="(ostream)", props=("P01",), frame=lambda e: [e.args[0]], ret=lambda e: e.args[0],
  post=lambda e: Text().add(ar(e.old.args[0]), ln(e.old.args[0])).lit('"').add(ar(e.old.args[1]), ln(e.old.args[1])).lit('"').equals(e.args[0]),
  loops=[LoopSpec(lambda L: [("position", And(0 <= L.ctr_pos(), L.ctr_pos() <= ln(L.args[1])))] + Text().add(ar(L.old.args[0]), ln(L.old.args[0])).lit('"').add(ar(L.old.args[1]), L.ctr_pos()).equals(L.args[0]),
                  lambda L: ln(L.args[1]) - L.ctr_pos())])

# ---------------------------------------------------------------- equality and hash
C(name="operator==", nparams=1, props=("H01", "P01", "C01"), aliases=SELF, post=lambda e: [("same-characters", e.ret == And(ln(e.old.this) == ln(e.old.args[0]), EQA(ar(e.old.this), ar(e.old.args[0]), ln(e.old.this))))])
C(cls=None, name="operator()", title="std::hash<Str>::operator()", params=["constStr&"], props=("H01",), post=lambda e: [("hash-of-the-characters", e.ret == HASHS(ar(e.old.args[0]), ln(e.old.args[0])))])

# ---------------------------------------------------------------- numbers


def digv(c):
    return If(And(c >= 48, c <= 57), c - 48, If(And(c >= 65, c <= 90), c - 55, If(And(c >= 97, c <= 122), c - 87, IntVal(99))))


def base_ok(b):
    return And(b >= 2, b <= 36)


isblank = lambda c: Or(c == 32, c == 10, c == 9, c == 13)
issign = lambda c: Or(c == 43, c == 45)


def c2i_inv(L):
    i = L.ctr(name="i")
    return [("position", And(0 <= i, i <= L.env.val(1))), ("no-digit-yet", digv(L.env.val(0)) >= i)]


C(name="char_to_integer", nparams=2, props=("S03", "S04"), pre=lambda e: [("base", base_ok(e.val(1)))],
  post=lambda e: [("digit-value", e.ret == If(digv(e.old.val(0)) < e.old.val(1), digv(e.old.val(0)), IntVal(-1)))],
  loops=[LoopSpec(c2i_inv, lambda L: L.env.val(1) - L.ctr(name="i"))])


def event(e, c, b):
    en = lambda nm: IntVal({"E_BLANK": 1 << 10, "E_SIGN": 1 << 11, "E_DIGIT": 1 << 12, "E_POINT": 1 << 13, "E_EXP": 1 << 14, "E_OTHER": 1 << 15}[nm])
    return If(isblank(c), en("E_BLANK"), If(issign(c), en("E_SIGN"), If(digv(c) < b, en("E_DIGIT"), If(c == 46, en("E_POINT"), If(Or(c == 101, c == 69), en("E_EXP"), en("E_OTHER"))))))


C(name="get_event", nparams=2, props=("S03", "S04"), inline=True, pre=lambda e: [("base", base_ok(e.val(1)))], post=lambda e: [("event", e.ret == event(e, e.old.val(0), e.old.val(1)))])

SKB = z3.Function("SKB", AI_, I_, I_, I_)
SKD = z3.Function("SKD", AI_, I_, I_, I_, I_)
VALB = z3.Function("VALB", AI_, I_, I_, I_, I_)


@lemma
def skb_def(a, n, i):
    """[def] SKB(a, n, i): first position >= i that does not hold a blank, or n"""
    return Implies(And(0 <= i, i <= n), And(i <= SKB(a, n, i), SKB(a, n, i) <= n, SKB(a, n, i) == If(And(i < n, isblank(Select(a, i))), SKB(a, n, simplify(i + 1)), i)))


@lemma
def skd_def(a, n, b, i):
    """[def] SKD(a, n, b, i): first position >= i that does not hold a digit of base b, or n"""
    return Implies(And(0 <= i, i <= n), And(i <= SKD(a, n, b, i), SKD(a, n, b, i) <= n, SKD(a, n, b, i) == If(And(i < n, digv(Select(a, i)) < b), SKD(a, n, b, simplify(i + 1)), i)))


@lemma
def valb_def(a, b, s, i):
    """[def] VALB(a, b, s, i): the number written by the digits a[s..i) in base b"""
    return And(VALB(a, b, s, s) == 0, Implies(i >= s, VALB(a, b, s, simplify(i + 1)) == VALB(a, b, s, i) * b + digv(Select(a, i))))


class Lit:
    """positions of the parts of an integer literal: [0,p0) blanks, [p0,p1) sign, [p1,p2) digits, [p2,p3) blanks"""

    def __init__(self, a, n, b):
        self.p0 = SKB(a, n, zero)
        self.signed = And(self.p0 < n, issign(Select(a, self.p0)))
        self.neg = And(self.p0 < n, Select(a, self.p0) == 45)
        self.p1 = If(self.signed, self.p0 + 1, self.p0)
        self.p2 = SKD(a, n, b, self.p1)
        self.p3 = SKB(a, n, self.p2)
        self.ok = And(self.p2 > self.p1, self.p3 == n)
        self.mag = VALB(a, b, self.p1, self.p2)
        self.value = If(self.neg, -self.mag, self.mag)


ST = {"START": 1, "SIGN": 2, "INT": 4, "POINT": 8, "DEC": 16, "EXP": 32, "EXP_SIGN": 64, "EXP_NUM": 128, "END": 256, "OTHER": 512}


def toint_lit(e):
    return Lit(ar(e.old.this), ln(e.old.this), e.old.val(0))


from .ints import val as _ival, value_is, canon as _icanon


def fsm_int_inv(L):
    a, n, b = ar(L.old.this), ln(L.old.this), L.old.val(0)
    i, st = L.ctr(name="i"), L.ctr(name="st")
    t = toint_lit(L)
    x = L.local_struct("Int", name="integer")
    nn = L.cell("non_negative").val
    S = lambda *k: Or([st == ST[q] for q in k])
    return [("state", S("START", "SIGN", "INT", "END", "OTHER")), ("canonical", _icanon(x)), ("position", And(0 <= i, i <= n + 1, (i == n + 1) == S("OTHER"))),
            ("start", Implies(S("START"), And(t.p0 == SKB(a, n, i), nn, _ival(x) == 0))),
            ("sign", Implies(S("SIGN"), And(i >= 1, t.p0 == i - 1, t.signed, nn == Not(t.neg), _ival(x) == 0))),
            ("digits", Implies(S("INT"), And(t.p1 < i, t.p2 == SKD(a, n, b, i), nn == Not(t.neg), _ival(x) == VALB(a, b, t.p1, i)))),
            ("trailing-blanks", Implies(S("END"), And(t.p2 > t.p1, t.p2 < i, t.p3 == SKB(a, n, i), nn == Not(t.neg), _ival(x) == t.mag))),
            ("rejected", Implies(S("OTHER"), Not(t.ok)))]


def fsm_int_hints(L):
    a, n, b = ar(L.old.this), ln(L.old.this), L.old.val(0)
    i = L.ctr(name="i")
    t = toint_lit(L)
    return [skb_def(a, n, i), skb_def(a, n, t.p2), skb_def(a, n, zero), skd_def(a, n, b, i), skd_def(a, n, b, t.p1), valb_def(a, b, t.p1, i), valb_def(a, b, i, i)]


C(name="to_integer", nparams=1, props=("S03",), pre=room, raises=lambda e: Or(Not(base_ok(e.val(0))), Not(Lit(ar(e.this), ln(e.this), e.val(0)).ok)),
  post=lambda e: value_is(e.ret, toint_lit(e).value), proof=lambda e: [skb_def(ar(e.this), ln(e.this), zero)],
  loops=[LoopSpec(fsm_int_inv, lambda L: ln(L.this) + 1 - L.ctr(name="i"), hints=fsm_int_hints)])

VALC = z3.Function("VALC", AI_, I_, I_, I_, I_)


@lemma
def valc_def(a, v, s, i):
    """[def] VALC(a, v, s, i): the number written by the decimal digits of v followed by a[s..i)"""
    return And(VALC(a, v, s, s) == v, Implies(i >= s, VALC(a, v, s, simplify(i + 1)) == VALC(a, v, s, i) * 10 + digv(Select(a, i))))


def word(s, w):
    return And(ln(s) == len(w), *[at(s, IntVal(i)) == ord(c) for i, c in enumerate(w)])


def words(s, ws):
    return Or([word(s, w) for w in ws])


POS_INFS = ["inf", "INF", "Inf", "+inf", "+INF", "+Inf", "infinity", "INFINITY", "Infinity", "+infinity", "+INFINITY", "+Infinity"]
NEG_INFS = ["-inf", "-INF", "-Inf", "-infinity", "-INFINITY", "-Infinity"]
NANS = ["nan", "NaN", "NAN", "+nan", "+NaN", "+NAN", "-nan", "-NaN", "-NAN"]


class Dec:
    """parts of a decimal literal: [0,p0) blanks, [p0,p1) sign, [p1,p2) digits, point at p2, [..,p3) digits, [q0..) exponent, blanks"""

    def __init__(self, a, n):
        ten = IntVal(10)
        ch = lambda i: Select(a, i)
        self.p0 = SKB(a, n, zero)
        self.signed = And(self.p0 < n, issign(ch(self.p0)))
        self.neg = And(self.p0 < n, ch(self.p0) == 45)
        self.p1 = If(self.signed, self.p0 + 1, self.p0)
        self.p2 = SKD(a, n, ten, self.p1)
        self.point = And(self.p2 < n, ch(self.p2) == 46)
        self.f0 = self.p2 + 1
        self.p3 = If(self.point, SKD(a, n, ten, self.f0), self.p2)
        self.digits = Or(self.p2 > self.p1, And(self.point, self.p3 > self.f0))
        self.whole = VALB(a, ten, self.p1, self.p2)
        self.mant = If(self.point, VALC(a, self.whole, self.f0, self.p3), self.whole)
        self.cnt = If(self.point, self.p3 - self.f0, zero)
        self.exp = And(self.p3 < n, Or(ch(self.p3) == 101, ch(self.p3) == 69))
        self.q0 = self.p3 + 1
        self.esigned = And(self.exp, self.q0 < n, issign(ch(self.q0)))
        self.eneg = And(self.exp, self.q0 < n, ch(self.q0) == 45)
        self.q1 = If(self.esigned, self.q0 + 1, self.q0)
        self.q2 = SKD(a, n, ten, self.q1)
        self.expo = If(self.exp, VALB(a, ten, self.q1, self.q2), zero)
        self.last = If(self.exp, self.q2, self.p3)
        self.ok = And(self.digits, Implies(self.exp, self.q2 > self.q1), SKB(a, n, self.last) == n)


from ..stdmodels import RPOW, INF, NANV

RV = z3.RealVal
TR = z3.ToReal


def dec_raises(e):
    s = e.this
    return Not(Or(words(s, POS_INFS), words(s, NEG_INFS), words(s, NANS), Dec(ar(s), ln(s)).ok))


def dec_post(e):
    s = e.old.this
    d = Dec(ar(s), ln(s))
    pi, ni, na = words(s, POS_INFS), words(s, NEG_INFS), words(s, NANS)
    sign = If(d.neg, RV(-1), RV(1))
    es = If(d.eneg, RV(-1), RV(1))
    return [("infinity", Implies(pi, e.ret == INF)), ("minus-infinity", Implies(ni, e.ret == -INF)), ("nan", Implies(na, e.ret == NANV)),
            ("value", Implies(Not(Or(pi, ni, na)), If(d.mant == 0, e.ret == 0, e.ret == sign * ((TR(d.mant) / RPOW(RV(10), TR(d.cnt))) * RPOW(RV(10), es * TR(d.expo))))))]


def fsm_dec_inv(L):
    a, n = ar(L.old.this), ln(L.old.this)
    ten = IntVal(10)
    d = Dec(a, n)
    i, st, cnt = L.ctr(name="i"), L.ctr(name="st"), L.ctr(name="decimal_cnt")
    c = lambda nm: L.cell(nm).val
    sign, dp, es, ep = c("sign"), c("decimal_part"), c("exp_sign"), c("exp_part")
    S = lambda *k: Or([st == ST[q] for q in k])
    read = And(dp == TR(d.mant), cnt == d.cnt, d.digits)
    return [("state", Or([st == v for v in ST.values()])), ("position", And(0 <= i, i <= n + 1, (i == n + 1) == S("OTHER"))),
            ("sign-read", Implies(Not(S("START", "OTHER")), And(sign == If(d.neg, RV(-1), RV(1)), d.p1 <= i))),
            ("start", Implies(S("START"), And(d.p0 == SKB(a, n, i), sign == 1))), ("count", And(0 <= cnt, cnt <= i)),
            ("sign", Implies(S("SIGN"), And(d.signed, d.p1 == i))), ("nothing-read", Implies(S("START", "SIGN", "POINT"), And(dp == 0, cnt == 0))),
            ("digits", Implies(S("INT"), And(d.p1 < i, d.p2 == SKD(a, n, ten, i), dp == TR(VALB(a, ten, d.p1, i)), cnt == 0))),
            ("point", Implies(S("POINT"), And(d.p2 == d.p1, d.point, i == d.f0))),
            ("decimals", Implies(S("DEC"), And(d.point, d.f0 <= i, d.p3 == SKD(a, n, ten, i), dp == TR(VALC(a, d.whole, d.f0, i)), cnt == i - d.f0, Or(d.p2 > d.p1, i > d.f0)))),
            ("no-exponent-yet", Implies(S("START", "SIGN", "INT", "POINT", "DEC", "EXP"), And(es == 1, ep == 0))),
            ("exponent", Implies(S("EXP"), And(d.exp, i == d.q0, read))),
            ("exponent-sign", Implies(S("EXP_SIGN"), And(d.exp, d.esigned, i == d.q1, es == If(d.eneg, RV(-1), RV(1)), ep == 0, read))),
            ("exponent-digits", Implies(S("EXP_NUM"), And(d.exp, d.q1 < i, d.q2 == SKD(a, n, ten, i), es == If(d.eneg, RV(-1), RV(1)), ep == TR(VALB(a, ten, d.q1, i)), read))),
            ("trailing-blanks", Implies(S("END"), And(read, d.last < i, SKB(a, n, d.last) == SKB(a, n, i), Implies(d.exp, d.q2 > d.q1), ep == TR(d.expo), es == If(d.eneg, RV(-1), RV(1))))),
            ("rejected", Implies(S("OTHER"), Not(d.ok)))]


def dec_facts(a, n, i):
    d = Dec(a, n)
    ten = IntVal(10)
    return [skb_def(a, n, zero), skb_def(a, n, i), skb_def(a, n, d.last), skd_def(a, n, ten, i), skd_def(a, n, ten, d.p1), skd_def(a, n, ten, d.f0), skd_def(a, n, ten, d.q1),
            valb_def(a, ten, d.p1, i), valb_def(a, ten, d.q1, i), valb_def(a, ten, i, i), valc_def(a, d.whole, d.f0, i), skd_def(a, n, ten, simplify(i + 1))]


C(name="to_decimal", nparams=0, props=("S04",), reals=True, pre=room, raises=dec_raises, post=dec_post, proof=lambda e: dec_facts(ar(e.this), ln(e.this), zero),
  loops=[None, None, None, LoopSpec(fsm_dec_inv, lambda L: ln(L.this) + 1 - L.ctr(name="i"), hints=lambda L: dec_facts(ar(L.old.this), ln(L.old.this), L.ctr(name="i")))])

# ---------------------------------------------------------------- format
from ..stdmodels import FINDC, findc_def
from ..engine import SV


def helper_arg(ex, i, p):
    from ..stdmodels import Stream, Desc
    if i == 0:
        s = Stream(ex, "oss")
        s.arr, s.len = ex.fresh("oss.out", AI_), ex.fresh("oss.len")
        ex.assume(s.len >= 0, s.len <= INT_MAX)
        return s
    if i == 1:
        v = Vec(ex, "string", Desc("char", I_, -128, 127), "text[]", ex.fresh("text[]", AI_), ex.fresh("text.size"))
        a, b = ex.fresh("view.off"), ex.fresh("view.len")
        ex.assume(0 <= a, 0 <= b, a + b <= v.len, v.len <= INT_MAX)
        return Cell(ex, "view", SV(v, a, b), "std::string_view")
    return None


def field(a, p, end):
    """the next {...} field of a[p..end): (found, position of the opening bracket, position behind the closing one)"""
    o = FINDC(a, p, end, IntVal(123))
    c = FINDC(a, simplify(o + 1), end, IntVal(125))
    return And(o != -1, c != -1), o, simplify(c + 1)


def helper_post(e):
    s0, v0, x = e.old.args[0], e.old.args[1].val, e.old.val(2)
    ok, o, c = field(v0.arr, v0.off, v0.off + v0.len)
    v1 = e.args[1].val
    t, tl = elem_text(x)
    out = Text().add(ar(s0), ln(s0)).add(v0.arr, If(ok, o - v0.off, zero), v0.off).add(t, If(ok, tl, zero))
    return [("rest-starts-behind-the-field", v1.off == If(ok, c, v0.off)), ("rest-ends-at-the-end", v1.off + v1.len == v0.off + v0.len)] + out.equals(e.args[0])


C(name="format_helper", nparams=3, props=("S06",), make_arg=helper_arg, inline=True, frame=lambda e: [e.args[0], e.args[1]], post=helper_post,
  proof=lambda e: [findc_def(e.args[1].val.arr, e.args[1].val.off, simplify(e.args[1].val.off + e.args[1].val.len), IntVal(123))])


def format_post(e):
    a, n = ar(e.old.this), ln(e.old.this)
    p = zero
    out = Text()
    for i in range(len(e.old.args)):
        ok, o, c = field(a, p, n)
        t, tl = elem_text(e.old.val(i))
        out.add(a, If(ok, o - p, zero), p).add(t, If(ok, tl, zero))
        p = If(ok, c, p)
    out.add(a, n - p, p)
    return out.equals(e.ret)


for _n in range(3):
    C(name="format", nparams=_n, suffix="(%d arguments)" % _n, props=("S06",), post=format_post)
