"""std::istream, as far as the library uses it: a text, the position reached in it, eofbit and failbit.
(badbit is never set, skipws is on, the locale is the classic one, no exception mask; libstdc++'s behaviour at the
end of the text is the one modelled, and /verif/harness/R01.cpp compares the parts the contracts rely on with the
real streams.)

RUN_c(A, lo, hi): the first index in [lo, hi) whose character is not in class c, or hi.
FLEND, FLOK, FLVAL: where the extraction of a double that begins at p stops, whether it succeeds, and its value."""
import z3
from z3 import And, Or, Not, If, Implies, IntVal, BoolVal, Select, Store, ForAll, Function, Int, IntSort, BoolSort, RealSort, ArraySort, simplify
from .engine import Struct, Cell, Vec, Desc, Iter, Unsupported, ITYPES, irange, Ptr
from .cppast import qt, strip
from .theory import lemma, TXTV

I, B, R = IntSort(), BoolSort(), RealSort()
AI = ArraySort(I, I)
INT_MAX = 2147483647

CLASSES = {
    "blank": lambda c: And(c >= 0, c <= 32),
    "space": lambda c: Or(c == 32, And(c >= 9, c <= 13)),
    "word": lambda c: Not(Or(c == 32, And(c >= 9, c <= 13))),
    "digit": lambda c: And(c >= 48, c <= 57),
    "line": lambda c: c != 10,
    "nonnul": lambda c: c != 0,
}
_run = {k: Function("RUN_" + k, AI, I, I, I) for k in CLASSES}
FLEND = Function("FLEND", AI, I, I, I)
FLOK = Function("FLOK", AI, I, I, B)
FLVAL = Function("FLVAL", AI, I, I, R)


def RUN(cls, a, lo, hi):
    return _run[cls](a, simplify(lo) if z3.is_expr(lo) else IntVal(lo), simplify(hi))


@lemma
def run_def(cls, a, lo, hi):
    """[def] RUN_c is the end of the longest run of class c that begins at lo"""
    r = RUN(cls, a, lo, hi)
    f = CLASSES[cls]
    k = Int("k!r")
    return Implies(lo <= hi, And(lo <= r, r <= hi, Implies(r < hi, Not(f(Select(a, r)))),
                                 ForAll([k], Implies(And(lo <= k, k < r), f(Select(a, k))), patterns=[Select(a, k)])))


@lemma
def fl_def(a, p, n):
    """[def] the extraction of a double stops inside the text and reads at least one character when it succeeds"""
    return Implies(p <= n, And(p <= FLEND(a, p, n), FLEND(a, p, n) <= n, Implies(FLOK(a, p, n), FLEND(a, p, n) > p)))


def uchar(c):
    return If(c < 0, c + 256, c)


class IStream(Struct):
    def __init__(self, ex, name):
        Struct.__init__(self, ex, "std::istream", name)
        t = Vec(ex, "string", Desc("char", I, -128, 127), name + ".text", ex.fresh(name + ".text", AI), ex.fresh(name + ".len"))
        t.frozen = True
        self.fields["text"] = t
        self.fields["pos"] = Cell(ex, name + ".pos", ex.fresh(name + ".pos"), "long")
        self.fields["eof"] = Cell(ex, name + ".eof", ex.fresh(name + ".eof", B), "bool")
        self.fields["fail"] = Cell(ex, name + ".fail", ex.fresh(name + ".fail", B), "bool")
        k = Int("k!t")
        ex.assume(t.len >= 0, t.len <= INT_MAX, self.pos >= 0, self.pos <= t.len,
                  ForAll([k], And(Select(t.arr, k) >= -128, Select(t.arr, k) <= 127), patterns=[Select(t.arr, k)]))

    @property
    def arr(self):
        return self.fields["text"].arr

    @property
    def len(self):
        return self.fields["text"].len

    @property
    def pos(self):
        return self.fields["pos"].val

    def put(self, k, v):
        self.fields[k].set(simplify(v) if z3.is_expr(v) else BoolVal(v))

    def good(self):
        return And(Not(self.fields["eof"].val), Not(self.fields["fail"].val))


def of(ex, v):
    v = ex.loadptr(v)
    return v if isinstance(v, IStream) else None


def sentry(ex, s, skip):
    """True on the paths on which the operation may go on."""
    if not ex.branch(s.good()):
        s.put("fail", True)
        return False
    if skip:
        r = RUN("space", s.arr, s.pos, s.len)
        ex.assume(run_def("space", s.arr, s.pos, s.len))
        s.put("pos", r)
        if ex.branch(r >= s.len):
            s.put("eof", True)
            s.put("fail", True)
            return False
    return True


def method(ex, s, name, args, n):
    ex.models.add("std::istream::" + name)
    args = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
    if name == "good":
        return s.good()
    if name == "eof":
        return s.fields["eof"].val
    if name == "fail":
        return s.fields["fail"].val
    if name == "operator bool":
        return Not(s.fields["fail"].val)
    if name == "operator!":
        return s.fields["fail"].val
    if name in ("peek", "get", "ignore") and not args:
        if not sentry(ex, s, False):
            return s if name == "ignore" else IntVal(-1)
        if ex.branch(s.pos >= s.len):
            s.put("eof", True)
            if name == "get":
                s.put("fail", True)
            return s if name == "ignore" else IntVal(-1)
        c = Select(s.arr, s.pos)
        if name != "peek":
            s.put("pos", s.pos + 1)
        return s if name == "ignore" else uchar(c)
    if name == "get" and len(args) == 1:
        lv = ex.ev(args[0])
        if not sentry(ex, s, False):
            return s
        if ex.branch(s.pos >= s.len):
            s.put("eof", True)
            s.put("fail", True)
            return s
        lv.set(Select(s.arr, s.pos))
        s.put("pos", s.pos + 1)
        return s
    if name in ("unget", "putback"):
        raise Unsupported("std::istream::" + name)
    if name.startswith("operator>>"):
        return extract(ex, s, args[0], n)
    raise Unsupported("std::istream::" + name)


def int_at(a, p, n):
    """(end, has digits, value) of the decimal integer that begins at p"""
    c = Select(a, p)
    s = If(And(p < n, Or(c == 43, c == 45)), IntVal(1), IntVal(0))
    d = simplify(p + s)
    r = RUN("digit", a, d, n)
    v = TXTV(a, d, r)
    return r, r > d, If(c == 45, -v, v), d


def extract(ex, s, arg, n):
    """s >> arg"""
    t = strip(qt(arg))
    lv = ex.ev(arg)
    if isinstance(lv, Cell) and isinstance(lv.val, Ptr):
        lv = lv.val.lv
    ex.models.add("std::istream::operator>>(%s)" % t)
    if t in ("char", "signed char", "unsigned char"):
        if sentry(ex, s, True):
            lv.set(Select(s.arr, s.pos))
            s.put("pos", s.pos + 1)
        return s
    if t in ITYPES:
        if sentry(ex, s, True):
            lo, hi = irange(t)
            if lo == 0:
                raise Unsupported("extraction of " + t)
            r, ok, v, d = int_at(s.arr, s.pos, s.len)
            ex.assume(run_def("digit", s.arr, d, s.len))
            if not ex.branch(ok):
                lv.set(IntVal(0))
                s.put("fail", True)
            elif not ex.branch(And(v >= lo, v <= hi)):
                lv.set(If(v < lo, IntVal(lo), IntVal(hi)))
                s.put("fail", True)
            else:
                lv.set(v)
            s.put("pos", r)
            if ex.branch(r >= s.len):
                s.put("eof", True)
        return s
    if t == "double":
        if sentry(ex, s, True):
            p, a, N = s.pos, s.arr, s.len
            ex.assume(fl_def(a, p, N))
            if ex.branch(FLOK(a, p, N)):
                lv.set(FLVAL(a, p, N))
            else:
                lv.set(ex.fresh("unread", R))
                s.put("fail", True)
            s.put("pos", FLEND(a, p, N))
            if ex.branch(FLEND(a, p, N) >= N):
                s.put("eof", True)
        return s
    if isinstance(lv, Vec) and lv.kind == "string":
        if sentry(ex, s, True):
            p, a, N = s.pos, s.arr, s.len
            r = RUN("word", a, p, N)
            ex.assume(run_def("word", a, p, N))
            lv.set(arr=word(a, p), ln=simplify(r - p), structural=True)
            s.put("pos", r)
            if ex.branch(r >= N):
                s.put("eof", True)
        return s
    raise Unsupported("extraction of " + t)


def word(a, p):
    """the text a[p..)"""
    from .stdmodels import sfn
    return sfn("ERASE", I)(a, IntVal(0), simplify(p))


def getline(ex, args, n):
    """std::getline(s, string)"""
    s = of(ex, ex.ev(args[0]))
    lv = ex.loadptr(ex.ev(args[1]))
    if s is None or len(args) != 2:
        raise Unsupported("std::getline")
    if sentry(ex, s, False):
        p, a, N = s.pos, s.arr, s.len
        r = RUN("line", a, p, N)
        ex.assume(run_def("line", a, p, N))
        lv.set(arr=word(a, p), ln=simplify(r - p), structural=True)
        if ex.branch(r >= N):
            s.put("pos", N)
            s.put("eof", True)
            if ex.branch(r == p):
                s.put("fail", True)
        else:
            s.put("pos", r + 1)
    return s


def c_str(ex, v):
    """the characters up to the first NUL, and a terminator"""
    L = RUN("nonnul", v.arr, IntVal(0), v.len)
    ex.assume(run_def("nonnul", v.arr, IntVal(0), v.len))
    w = Vec(ex, "cstr", Desc("char", I, -128, 127), v.name + ".c_str", cut(v.arr, L), simplify(L + 1))
    w.cstr = True
    w.frozen = True
    return Iter(w, IntVal(0))


def cut(a, L):
    return Store(a, L, IntVal(0))
