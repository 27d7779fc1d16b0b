"""Roles and shorthands shared by the contracts."""
import z3
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, Select, Store, ForAll, simplify, Int, Const, IntSort
from ..engine import Struct, Snap, Vec, VSnap, Cell, CSnap, vec_of, scalars_of, snap, Iter, Unsupported
from ..theory import *
from ..theory import lemma
from ..program import Contract, LoopSpec
from ..stdmodels import DECLEN, DECCH


def sg(o):
    return scalars_of(o)[0].val


def ar(o):
    return vec_of(o).arr


def ln(o):
    return vec_of(o).len


def canon(o):
    return CANON(sg(o), ar(o), ln(o))


def val(o):
    return Val(sg(o), ar(o), ln(o))


def mag(o):
    return P(ar(o), ln(o))


def absv(v):
    return If(v >= 0, v, -v)


def at(o, i):
    return Select(ar(o), i)


_qc = [0]


def allk(f, lo, hi, pat=None):
    """forall k in [lo,hi): f(k); pat(k): trigger terms"""
    _qc[0] += 1
    k = Int("q%d" % _qc[0])
    body = f(k)
    ps = pat(k) if pat else None
    if ps is None:
        return ForAll([k], Implies(And(lo <= k, k < hi), body))
    ps = ps if isinstance(ps, list) else [ps]
    if any(has_ite(p) for p in ps):
        return ForAll([k], Implies(And(lo <= k, k < hi), body))
    return ForAll([k], Implies(And(lo <= k, k < hi), body), patterns=ps)


def has_ite(f):
    return f.decl().kind() == z3.Z3_OP_ITE or f.sort() == z3.BoolSort() or any(has_ite(c) for c in f.children())


def digits(a, lo, hi):
    return DIGR(a, lo, hi)


# ---------------------------------------------------------------- text of sequences
def usort(prefix, s, *sorts):
    from ..stdmodels import U
    return U(prefix + "_" + str(s).replace(" ", ""), *sorts)


def JLEN(a):
    """JLEN(a, i), JARR(a, i): the texts of a[0..i) joined by ", " """
    return usort("JLEN", a.sort().range(), a.sort(), z3.IntSort(), z3.IntSort())


def JARR(a):
    return usort("JARR", a.sort().range(), a.sort(), z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.IntSort()))


def elem_text(x):
    s = x.sort()
    if s == z3.IntSort():
        return DECCH(x), DECLEN(x)
    return usort("TXT", s, s, z3.ArraySort(z3.IntSort(), z3.IntSort()))(x), usort("TLEN", s, s, z3.IntSort())(x)


@lemma
def joined_def(a, i):
    """[def] JLEN, JARR unfolded at i"""
    L, A = JLEN(a), JARR(a)
    i1 = simplify(i + 1)
    t, tl = elem_text(Select(a, i))
    l0 = L(a, i)
    k = Int("k!j")
    sep = If(i > 0, IntVal(2), IntVal(0))
    return And(L(a, IntVal(0)) == 0, Implies(i >= 0, And(l0 >= 0, tl >= 0, L(a, i1) == l0 + sep + tl,
               ForAll([k], Implies(And(0 <= k, k < L(a, i1)), Select(A(a, i1), k) == If(k < l0, Select(A(a, i), k), If(And(i > 0, k == l0), IntVal(44), If(And(i > 0, k == l0 + 1), IntVal(32), Select(t, k - l0 - sep))))),
                      patterns=[Select(A(a, i1), k)]))))



class Text:
    """A text built from pieces (array, offset, length); at(k) is its k-th character."""

    def __init__(self):
        self.pieces = []
        self.len = IntVal(0)

    def add(self, arr, ln, off=0):
        self.pieces.append((self.len, arr, off))
        self.len = simplify(self.len + ln)
        return self

    def lit(self, s):
        for c in s:
            self.pieces.append((self.len, ord(c), 0))
            self.len = simplify(self.len + 1)
        return self

    def char(self, k):
        r = None
        for st, arr, off in reversed(self.pieces):
            v = IntVal(arr) if isinstance(arr, int) else Select(arr, simplify(k - st + off))
            r = v if r is None else r
            if r is not v:
                r = If(k < nxt, v, r)
            nxt = st
        return r

    def equals(self, o):
        """the stream or string o holds exactly this text"""
        return [("length", ln(o) == self.len), ("text", allk(lambda k: at(o, k) == self.char(k), 0, self.len, pat=lambda k: Select(ar(o), k)))]


def print_loop(text_before, arr, n, stream=0):
    """Loop of internal::print: i elements are written, each but the last followed by the separator."""
    def inv(L):
        i = L.ctr_pos()
        s = L.args[stream]
        a, nn = arr(L), n(L)
        out = text_before(L).add(JARR(a)(a, i), JLEN(a)(a, i))
        k = Int("k!o")
        tl = simplify(out.len + If(i > 0, IntVal(2), IntVal(0)))
        base = out.len
        return [("position", And(0 <= i, i < nn)), ("length", ln(s) == tl),
                ("text", ForAll([k], Implies(And(0 <= k, k < tl), at(s, k) == If(k < base, out.char(k), If(k == base, IntVal(44), IntVal(32)))), patterns=[Select(ar(s), k)]))]

    def hints(L):
        a = arr(L)
        return [joined_def(a, IntVal(0)), joined_def(a, L.ctr_pos())]
    return LoopSpec(inv, lambda L: n(L) - L.ctr_pos(), hints=hints)


def print_loop_before(text_before, arr, n, stream=0, first=0):
    """The same loop with each separator written before its element: i elements are written and nothing else."""
    def inv(L):
        i = L.ctr_pos()
        s = L.args[stream]
        a, nn = arr(L), n(L)
        return [("position", And(first <= i, i <= nn))] + text_before(L).add(JARR(a)(a, i), JLEN(a)(a, i)).equals(s)

    def hints(L):
        a = arr(L)
        return [joined_def(a, IntVal(0)), joined_def(a, L.ctr_pos())]
    return LoopSpec(inv, lambda L: n(L) - L.ctr_pos(), hints=hints)


def print_loops(*a):
    return {"loops": [print_loop(*a)], "alts": [[print_loop_before(*a)], [print_loop_before(*a, first=1)]]}


def printed(old_stream, open_, a, n, close):
    return Text().add(ar(old_stream), ln(old_stream)).lit(open_).add(JARR(a)(a, n), JLEN(a)(a, n)).lit(close)
