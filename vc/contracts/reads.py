"""Contracts of the operators that read from a stream.

Text A[0..N), position p.  lit(A, q, N) describes the literal of each class in terms of the text; the
contracts say that a literal followed by a blank or by the end of the text is stored and consumed exactly, and that
anything else throws or leaves the stream failed."""
from .common import *
from ..cppast import fsig as cppsig
from ..istream import RUN, run_def, fl_def, FLEND, FLOK, FLVAL, int_at, word, cut
from .fraction import reduced, red_hints, nm, dn
from .ints import text_parts, value_is

READS = []


def C(**kw):
    kw["props"] = tuple(kw["props"]) + ("U01",)
    c = Contract(**kw)
    READS.append(c)
    return c


def fld(s, k):
    return s.fields[k].val


def text(s):
    return s.fields["text"].arr, s.fields["text"].len


def good(s):
    return And(Not(fld(s, "eof")), Not(fld(s, "fail")))


def blank(c):
    return And(c >= 0, c <= 32)


def ends(A, p, N):
    """p is the end of the text or a blank"""
    return Or(p >= N, blank(Select(A, p)))


def skip_loop():
    """while (is.good() && is.peek() <= 0x20) is.ignore();"""
    def inv(L):
        s, o = L.args[0], L.old.args[0]
        A, N = text(s)
        p, p0 = fld(s, "pos"), fld(o, "pos")
        return [("position", And(p0 <= p, p <= N)),
                ("skips-blanks-only", allk(lambda k: blank(Select(A, k)), p0, p, pat=lambda k: Select(A, k))),
                ("good-until-the-end", Implies(good(o), And(Implies(fld(s, "eof"), p == N), Implies(fld(s, "fail"), fld(s, "eof"))))),
                ("a-failed-stream-stays", Implies(Not(good(o)), And(p == p0, fld(s, "eof") == fld(o, "eof"), fld(s, "fail") == fld(o, "fail"))))]
    return LoopSpec(inv, lambda L: (text(L.args[0])[1] - fld(L.args[0], "pos")) + If(good(L.args[0]), IntVal(1), IntVal(0)))


def start(o):
    A, N = text(o)
    return RUN("blank", A, fld(o, "pos"), N)


def started(e):
    o = e.args[0]
    A, N = text(o)
    return [run_def("blank", A, fld(o, "pos"), N)]


def fits(v):
    return And(v >= -2147483648, v <= 2147483647)


def frac_literal(o):
    """[(condition, numerator, denominator, end)]: the two forms a and a/b"""
    A, N = text(o)
    q = start(o)
    r, ok, v, _ = int_at(A, q, N)
    q2 = simplify(r + 1)
    r2, ok2, v2, _ = int_at(A, q2, N)
    first = And(good(o), q < N, ok, fits(v))
    return [(And(first, ends(A, r, N)), v, IntVal(1), r),
            (And(first, r < N, Select(A, r) == 47, ok2, fits(v2), v2 != 0, ends(A, r2, N)), v, v2, r2)]


def frac_hints(e):
    o = e.args[0]
    A, N = text(o)
    q = start(o)
    r, ok, v, d = int_at(A, q, N)
    r2, ok2, v2, d2 = int_at(A, simplify(r + 1), N)
    return started(e) + [run_def("digit", A, d, N), run_def("digit", A, d2, N)]


def accepted(e, forms, stored):
    s, o = e.args[0], e.old.args[0]
    A, N = text(o)
    res = [("fails-unless-a-literal", Implies(Not(Or(*[f[0] for f in forms])), fld(s, "fail")))]
    for i, f in enumerate(forms):
        ok, end = f[0], f[-1]
        res += [("literal%d-accepted" % i, Implies(ok, Not(fld(s, "fail")))),
                ("literal%d-consumed" % i, Implies(ok, fld(s, "pos") == end)),
                ("literal%d-end-of-text" % i, Implies(ok, fld(s, "eof") == (end >= N)))]
        res += [("literal%d-%s" % (i, n), g) for n, g in stored(f)]
    return res


def read(cls, forms, stored, hints, **kw):
    C(cls=kw.pop("owner", cls), name="operator>>", nparams=2, pred=lambda d: "istream" in cppsig(d), suffix="(istream)", props=("R01",),
      inline=True, frame=lambda e: [e.args[0], e.args[1]], throw_frame=lambda e: [e.args[0]], ret=lambda e: e.args[0],
      may_raise=lambda e: Not(Or(*[f[0] for f in forms(e.old.args[0])])),
      post=lambda e: accepted(e, forms(e.old.args[0]), lambda f: stored(e, f)), proof=hints, **kw)


read("Fraction", frac_literal, lambda e, f: reduced(e.args[1], f[1], f[2], when=f[0]), frac_hints, loops=[skip_loop()])


# ---------------------------------------------------------------- Complex
def cplx_literal(o):
    """the forms x, yj and x+yj: (condition, real, imaginary, end)"""
    A, N = text(o)
    q = start(o)
    c = Select(A, q)
    r, ok, x = FLEND(A, q, N), FLOK(A, q, N), FLVAL(A, q, N)
    r2, ok2, y = FLEND(A, r, N), FLOK(A, r, N), FLVAL(A, r, N)
    first = And(good(o), q < N, Or(And(c >= 48, c <= 57), c == 43, c == 45, c == 46), ok)
    j1, j2 = simplify(r + 1), simplify(r2 + 1)
    zero = z3.RealVal(0)
    sep = Select(A, r)
    return [(And(first, ends(A, r, N)), x, zero, r),
            (And(first, r < N, sep == 106, ends(A, j1, N)), zero, x, j1),
            (And(first, r < N, Or(sep == 43, sep == 45), ok2, r2 < N, Select(A, r2) == 106, ends(A, j2, N)), x, y, j2)]


def cplx_hints(e):
    o = e.args[0]
    A, N = text(o)
    q = start(o)
    return started(e) + [fl_def(A, q, N), fl_def(A, FLEND(A, q, N), N)]


def cplx_stored(e, f):
    c = e.args[1]
    return [("real", Implies(f[0], scalars_of(c)[0].val == f[1])), ("imag", Implies(f[0], scalars_of(c)[1].val == f[2]))]


read("Complex", cplx_literal, cplx_stored, cplx_hints, loops=[skip_loop()])


# ---------------------------------------------------------------- Int
def int_literal(o):
    """the longest run of characters that are not white space, read as Int(const char*) reads it"""
    A, N = text(o)
    q = RUN("space", A, fld(o, "pos"), N)
    r = RUN("word", A, q, N)
    w = word(A, q)
    L = RUN("nonnul", w, IntVal(0), simplify(r - q))
    s, ok, v = text_parts(cut(w, L), L)
    return [(And(good(o), q < N, ok), v, r)]


def int_hints(e):
    o = e.args[0]
    A, N = text(o)
    p = fld(o, "pos")
    q = RUN("space", A, p, N)
    r = RUN("word", A, q, N)
    w = word(A, q)
    return [run_def("space", A, p, N), run_def("word", A, q, N), run_def("nonnul", w, IntVal(0), simplify(r - q))]


read("Int", int_literal, lambda e, f: [(n, Implies(f[0], g)) for n, g in value_is(e.args[1], f[1])], int_hints,
     pre=lambda e: [("resource: at most 10^9 characters", text(e.args[0])[1] <= 1000000000), ("canonical", canon(e.args[1]))])


# ---------------------------------------------------------------- Str
def line(o):
    A, N = text(o)
    p = fld(o, "pos")
    return p, RUN("line", A, p, N), A, N


def line_post(e):
    s, o, t = e.args[0], e.old.args[0], e.args[1]
    p, r, A, N = line(o)
    g = And(good(o), p < N)
    return [("fails-unless-a-line", fld(s, "fail") == Not(g)),
            ("length", Implies(g, ln(t) == r - p)),
            ("text", Implies(g, allk(lambda k: at(t, k) == Select(A, p + k), 0, r - p, pat=lambda k: at(t, k)))),
            ("consumed", Implies(g, fld(s, "pos") == If(r < N, r + 1, r))),
            ("end-of-text", Implies(g, fld(s, "eof") == (r >= N))),
            ("at-the-end-nothing-is-read", Implies(And(good(o), p >= N), And(ln(t) == 0, fld(s, "eof"), fld(s, "pos") == p))),
            ("a-failed-stream-reads-nothing", Implies(Not(good(o)), And(fld(s, "pos") == p, ln(t) == ln(e.old.args[1]), EQA(ar(t), ar(e.old.args[1]), ln(t)))))]


C(cls="Str", name="operator>>", nparams=2, pred=lambda d: "istream" in cppsig(d), suffix="(istream)", props=("R01",),
  inline=True, frame=lambda e: [e.args[0], e.args[1]], ret=lambda e: e.args[0], post=line_post,
  proof=lambda e: [run_def("line", text(e.args[0])[0], fld(e.args[0], "pos"), text(e.args[0])[1])])
