"""Trusted contracts of the C++ standard library functions the code calls.

Each is stated on the abstract value (sequence = array + length, set = membership + sorted sequence,
stream = characters written) and emits the preconditions of the standard as obligations
(index in range, valid iterator, iterators into the same container, non-empty, ...).
"""
from fractions import Fraction as Fr
import z3
from z3 import (And, Or, Not, Implies, If, IntVal, BoolVal, RealVal, Int, Const, Function, IntSort, BoolSort, RealSort, ArraySort,
                Select, Store, ToReal, ToInt, ForAll, simplify, is_int_value)
from .engine import *
from .engine import _opaque
from . import engine, cppast, istream, theory as T
from .cppast import qt, strip, is_ref, Ast

I, B, R = IntSort(), BoolSort(), RealSort()


def arrsort(s):
    return ArraySort(I, s)


_fns = {}


def sfn(prefix, sort):
    """Sort-indexed array constructors FILL/ERASE/INS/EQA/DIFF."""
    if sort == I:
        return {"FILL": T.FILLI, "ERASE": T.ERASEI, "INS": T.INSI, "EQA": T.EQA, "DIFF": T.DIFF}[prefix]
    k = (prefix, str(sort))
    if k not in _fns:
        A = arrsort(sort)
        n = prefix + "_" + str(sort)
        _fns[k] = {"FILL": lambda: Function(n, A, I, I, sort, A), "ERASE": lambda: Function(n, A, I, I, A),
                   "INS": lambda: Function(n, A, I, I, A, I, A), "EQA": lambda: Function(n, A, A, I, B),
                   "DIFF": lambda: Function(n, A, A, I, I)}[prefix]()
    return _fns[k]


def U(name, *sorts):
    k = ("U", name)
    if k not in _fns:
        _fns[k] = Function(name, *sorts)
    return _fns[k]


LOG10 = Function("LOG10", R, R)
SQRT = Function("SQRTR", R, R)
RND = Function("RND64", R, R)
RND32 = Function("RND32", R, R)
RPOW = Function("RPOW", R, R, R)
HYPOT = Function("HYPOT", R, R, R)
ATAN2 = Function("ATAN2", R, R, R)
REXP = Function("REXP", R, R)
HASHR = Function("HASHR", R, IntSort())
RLOG = Function("RLOG", R, R)
RCOS = Function("RCOS", R, R)
RSIN = Function("RSIN", R, R)
INF = Const("INFINITY", R)
NANV = Const("NAN", R)
BXOR = Function("BXOR", I, I, I)
BAND = Function("BAND", I, I, I)
BOR = Function("BOR", I, I, I)
SHL = Function("SHL", I, I, I)
SHR = Function("SHR", I, I, I)
HASHI = Function("HASHI", I, I)
AI = T.AI
HASHS = Function("HASHS", AI, I, I)
DECLEN = Function("DECLEN", I, I)    # decimal text of an integer
DECCH = Function("DECCH", I, AI)
FIND = Function("FIND", AI, I, I, AI, I, I, I)   # FIND(a, lo, hi, p, poff, m): leftmost match start in [lo, hi-m], -1 if none
MATCH = Function("MATCH", AI, I, AI, I, I, B)    # a[i+k] == p[poff+k] for k < m


@T.lemma
def match_def(a, i, p, o, m):
    """[def] MATCH, forward direction"""
    k = Int("k!m")
    return Implies(MATCH(a, i, p, o, m), ForAll([k], Implies(And(0 <= k, k < m), Select(a, i + k) == Select(p, o + k)), patterns=[Select(p, o + k)]))


@T.lemma
def find_def(a, lo, hi, p, o, m):
    """[def] FIND: the first place in [lo, hi - m] where p[o..o+m) occurs in a, or -1"""
    r = FIND(a, lo, hi, p, o, m)
    k = Int("k!f")
    return Implies(And(lo <= hi, m >= 0), And(Or(r == -1, And(lo <= r, r + m <= hi, MATCH(a, r, p, o, m))), Implies(m == 0, r == lo),
               ForAll([k], Implies(And(lo <= k, k + m <= hi, Or(r == -1, k < r)), Not(MATCH(a, k, p, o, m))), patterns=[MATCH(a, k, p, o, m)])))


FINDC = Function("FINDC", AI, I, I, I, I)


@T.lemma
def findc_def(a, lo, hi, c):
    """[def] FINDC: the first place in [lo, hi) that holds c, or -1"""
    r = FINDC(a, lo, hi, c)
    k = Int("k!c")
    return Implies(And(lo >= 0, lo <= hi), And(Or(r == -1, And(lo <= r, r < hi, Select(a, r) == c)),
                   ForAll([k], Implies(And(lo <= k, k < hi, Or(r == -1, k < r)), Select(a, k) != c), patterns=[Select(a, k)])))


class Stream(Vec):
    """std::ostream: the characters written so far."""

    def __init__(self, ex, name):
        Vec.__init__(self, ex, "stream", Desc("char", I, -128, 127), name)
        self.width = IntVal(0)
        self.fill = IntVal(32)


def is_class(t, name):
    return t.startswith("std::" + name + "<") or t.startswith(name + "<") or t.startswith("std::__cxx11::" + name + "<")


def tmpl_args(t):
    i = t.index("<")
    depth, cur, out = 0, "", []
    for ch in t[i + 1:t.rindex(">")]:
        if ch == "<":
            depth += 1
        if ch == ">":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


STRINGS = ("std::basic_string<char>", "std::string", "basic_string<char>", "string", "std::__cxx11::basic_string<char>")


def std_kind(t):
    t = strip(t)
    if t in STRINGS:
        return "string"
    for k in ("vector", "deque", "set", "map", "initializer_list"):
        if is_class(t, k):
            return k
    if t.startswith("std::basic_ostringstream") or t in ("std::ostringstream", "std::basic_ostream<char>", "std::ostream", "ostream"):
        return "stream"
    return None


class Models:
    def __init__(self, prog):
        self.prog = prog
        self.used = set()

    def use(self, ex, name):
        ex.models.add(name)

    # ------------------------------------------------------------ objects
    def desc(self, ex, typ):
        t = strip(typ)
        if t in ITYPES:
            lo, hi = irange(t)
            d = Desc(t, I, lo, hi)
            return d
        if t == "bool":
            return Desc(t, B)
        if t in FTYPES:
            return Desc(t, R)
        b = t.split("::")[-1]
        if b in self.prog.opaque_types:
            return Desc(t, opaque_sort(b))
        if b == "Str":
            return StrDesc(t)
        if is_class(t, "pair") or t.replace("pyincpp::", "").startswith("Pair<"):
            from .assoc import pairsort
            a = [self.desc(ex, x) for x in tmpl_args(t)]
            return Desc(t, pairsort(a[0].sort, a[1].sort)) if all(a) else None
        return None

    def new_object(self, ex, typ, name, init=True, symbolic=False):
        t = strip(typ)
        cn = ex.classnode(t)
        if cn is not None:
            s = Struct(ex, self.prog.classkey(t), name)
            s.node = cn
            for b in cn.get("bases") or []:
                bt = b.get("type", {})
                bt = bt.get("desugaredQualType") or bt.get("qualType")
                if ex.classnode(strip(bt)) is not None:
                    s.fields["__base"] = self.new_object(ex, bt, name + ".__base", init, symbolic)
            for c in cn.get("inner") or []:
                if c and c.get("kind") == "FieldDecl":
                    f = self.new_field(ex, qt(c), name + "." + c["name"], init, symbolic)
                    if qt(c).lstrip().startswith("const ") and not qt(c).rstrip().endswith("*"):
                        f.const_decl = True
                    s.fields[c["name"]] = f
            return s
        k = std_kind(t)
        if k in ("vector", "deque"):
            d = self.desc(ex, tmpl_args(t)[0])
            if d is None:
                raise Unsupported("elements of " + t)
            v = Vec(ex, k, d, name)
        elif k == "string":
            v = Vec(ex, "string", Desc("char", I, -128, 127), name)
        elif k == "initializer_list":
            v = Vec(ex, "vector", self.desc(ex, tmpl_args(t)[0]), name)
        elif k == "stream":
            v = Stream(ex, name)
        elif k in ("set", "map"):
            v = self.prog.assoc.new(ex, k, tmpl_args(t), name)
        else:
            raise Unsupported("object of type " + t)
        if symbolic:
            self.havoc_vec(ex, v, name.split("/")[-1], "len")
        return v

    def new_field(self, ex, typ, name, init, symbolic):
        t = strip(typ)
        if t in ITYPES or t in FTYPES or t == "bool" or self.prog.is_enum(t):
            return Cell(ex, name, ex.fresh_scalar(t, name.split("/")[-1]) if symbolic else UNINIT, t)
        b = t.split("::")[-1]
        if b in self.prog.opaque_types:
            return Cell(ex, name, ex.fresh(name.split("/")[-1], opaque_sort(b)) if symbolic else UNINIT, t)
        return self.new_object(ex, t, name, True, symbolic)

    def symbolic(self, ex, typ, name):
        """Fresh value of any type (result of a callee, operand of the verified function)."""
        t = strip(typ)
        if t in ITYPES or t in FTYPES or t == "bool" or self.prog.is_enum(t):
            return ex.fresh_scalar(t, name)
        b = t.split("::")[-1]
        if b in self.prog.opaque_types:
            return ex.fresh(name, opaque_sort(b))
        if t.endswith("char *"):
            v = Vec(ex, "cstr", Desc("char", I, -128, 127), name + "[]", ex.fresh(name + "[]", AI), ex.fresh(name + ".size"))
            v.cstr = True
            # null-terminated: characters at 0..len-2, the terminator at len-1
            k = Const("kc!", I)
            ex.assume(v.len >= 1, v.len <= INT_MAX, Select(v.arr, v.len - 1) == 0,
                      ForAll([k], Implies(And(0 <= k, k < v.len - 1), Select(v.arr, k) != 0), patterns=[Select(v.arr, k)]))
            v.frozen = True
            return Iter(v, IntVal(0))
        if b in self.prog.functor_types:
            return Cell(ex, name, Opaque("functor", name=b), t)
        if "(*)" in t:
            return Cell(ex, name, Opaque("functor", name=name), t)
        if (is_class(t, "pair") or "Pair<" in t) and self.desc(ex, t) is not None:
            return ex.fresh(name, self.desc(ex, t).sort)
        if "iterator" in t or t.endswith("*"):
            raise Unsupported("symbolic " + t)
        if "istream" in t:
            return istream.IStream(ex, name)
        if "ostream" in t:
            s = Stream(ex, name)
            s.arr = ex.fresh(name + ".out", AI)
            s.len = ex.fresh(name + ".len")
            ex.assume(s.len >= 0, s.len <= INT_MAX)
            return s
        return self.new_object(ex, t, name, True, True)

    def havoc_vec(self, ex, o, short, what):
        if hasattr(o, "assoc"):
            return self.prog.assoc.havoc(ex, o, short)
        o.arr = ex.fresh(short, arrsort(o.desc.sort))
        if what == "len":
            o.len = ex.fresh(short + ".len")
            ex.assume(o.len >= 0, o.len <= INT_MAX)
            o.ver += 1

    def havoc_object(self, ex, o, title):
        if isinstance(o, Struct):
            for f in o.leaves():
                self.havoc_object(ex, f, title)
        elif isinstance(o, Vec):
            ex.touch(o, "len")
            self.havoc_vec(ex, o, o.name.split("/")[-1], "len")
        elif isinstance(o, Cell):
            ex.touch(o, "val")
            if z3.is_expr(o.val):
                nm = o.name.split("/")[-1]
                o.val = ex.fresh_scalar(o.typ, nm)
            elif o.val is UNINIT:
                o.val = ex.fresh_scalar(o.typ, o.name.split("/")[-1])
            else:
                raise Unsupported("havoc")
        elif isinstance(o, ElemRef):
            o.vec.set(arr=Store(o.vec.arr, o.idx, ex.fresh("elem", o.vec.desc.sort)), structural=False)

    def check_live(self, ex, env, n):
        for a in env.args:
            if isinstance(a, ElemRef):
                a.check(n)

    # ------------------------------------------------------------ iterators
    def valid(self, ex, it, n=None):
        if it.ver != it.vec.ver:
            if hasattr(it.vec, "assoc"):
                raise Unsupported("iterator of a set or map used after an update")
            ex.obl("invalidated-iterator", BoolVal(False), n)

    def iter_deref(self, ex, it, n):
        self.valid(ex, it, n)
        p = simplify(it.pos - 1) if it.rev else it.pos
        ex.obl("dereference-in-range", And(p >= 0, p < it.vec.len), n)
        if hasattr(it.vec, "assoc"):
            return self.prog.assoc.deref(ex, it, p)
        return ElemRef(it.vec, p)

    def iter_add(self, ex, it, k):
        d = simplify(it.pos - k) if it.rev else simplify(it.pos + k)
        ex.obl("iterator-in-range", And(d >= 0, d <= it.vec.len))
        return Iter(it.vec, d, it.rev, it.ver)

    def iter_arith(self, ex, op, x, y):
        if isinstance(x, Iter) and isinstance(y, Iter):
            if op == "-":
                if x.vec is not y.vec:
                    ex.obl("iterators-same-container", BoolVal(False))
                return simplify(y.pos - x.pos) if x.rev else simplify(x.pos - y.pos)
            raise Unsupported("iterator " + op)
        if isinstance(y, Iter):
            x, y = y, x
        y = ex.toint(y)
        return self.iter_add(ex, x, y if op == "+" else -y)

    def compare_objs(self, ex, op, a, b):
        if isinstance(a, Iter) and isinstance(b, Iter):
            if a.vec is not b.vec:
                ex.obl("iterators-same-container", BoolVal(False))
                return BoolVal(False)
            f = {"==": a.pos == b.pos, "!=": a.pos != b.pos}
            if op in f:
                return f[op]
            x, y = (b.pos, a.pos) if a.rev else (a.pos, b.pos)
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            same = a.lv is b.lv
            return BoolVal(same if op == "==" else not same)
        if isinstance(a, (Ptr, Iter)) or isinstance(b, (Ptr, Iter)):
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                return BoolVal(op == "!=")
            raise Unsupported("pointer comparison")
        if isinstance(a, (Vec, SV)) and isinstance(b, (Vec, SV)):
            e = self.vec_eq(ex, a, b)
            return e if op == "==" else Not(e)
        raise Unsupported("comparison")

    def vec_eq(self, ex, a, b):
        if hasattr(a, "assoc"):
            return self.prog.assoc.eq(ex, a, b)
        if isinstance(a, SV) or isinstance(b, SV):
            oa = a.off if isinstance(a, SV) else IntVal(0)
            ob = b.off if isinstance(b, SV) else IntVal(0)
            la, lb = a.len, b.len
            return And(la == lb, MATCH(a.arr, oa, b.arr, ob, la))
        if a.kind == "cstr" or b.kind == "cstr":
            raise Unsupported("comparison with a C string object")
        return And(a.len == b.len, sfn("EQA", a.desc.sort)(a.arr, b.arr, a.len))

    # ------------------------------------------------------------ literals / strings
    def string_literal(self, ex, n):
        key = ("lit", n.get("value"))
        s = n["value"]
        bs = decode_literal(s)
        nm = "lit_" + "".join(c if c.isalnum() else "_%02x" % ord(c) for c in s)[:60]
        v = Vec(ex, "cstr", Desc("char", I, -128, 127), nm)
        v.birth = 0
        v.cstr = True
        v.frozen = True
        arr = Const(nm + "_%d" % (hash(tuple(bs)) & 0xffffff), AI)
        v.arr = arr
        v.len = IntVal(len(bs) + 1)
        v.lit = bs
        for i, b in enumerate(bs + [0]):
            ex.assume(Select(arr, IntVal(i)) == (b - 256 if b > 127 else b))
        return v

    def cstr_view(self, ex, it, n=None):
        """(arr, off, len) of a null-terminated string at pointer it."""
        v = it.vec
        if v.cstr:
            ex.obl("string-in-range", And(it.pos >= 0, it.pos < v.len), n)
            return v.arr, it.pos, simplify(v.len - 1 - it.pos)
        raise Unsupported("C string from a container")

    def as_seq(self, ex, v, n=None):
        """(arr, off, len) of any sequence-like value."""
        if isinstance(v, Cell):
            v = v.val
        if isinstance(v, Iter):
            return self.cstr_view(ex, v, n)
        if isinstance(v, SV):
            return v.arr, v.off, v.len
        if isinstance(v, Vec):
            if v.kind == "cstr":
                return self.cstr_view(ex, Iter(v, IntVal(0)), n)
            return v.arr, IntVal(0), v.len
        if isinstance(v, Struct) and len(v.fields) == 1:
            return self.as_seq(ex, list(v.fields.values())[0], n)
        raise Unsupported("sequence from " + type(v).__name__)

    def fromseq(self, ex, sort, arr, off, ln):
        """Array holding arr[off..off+ln) at 0."""
        if is_int_value(off) and off.as_long() == 0:
            return arr
        return sfn("ERASE", sort)(arr, IntVal(0), off)

    def append(self, ex, v, arr, off, ln):
        l = simplify(ln)
        if is_int_value(l) and l.as_long() == 1:
            self.grow(ex, v, Store(v.arr, v.len, Select(arr, off)), simplify(v.len + 1))
            return
        if is_int_value(l) and l.as_long() == 0:
            return
        if is_int_value(simplify(v.len)) and simplify(v.len).as_long() == 0:
            self.grow(ex, v, self.fromseq(ex, v.desc.sort, arr, off, ln), l)
            return
        self.grow(ex, v, sfn("INS", v.desc.sort)(v.arr, v.len, ln, arr, off), simplify(v.len + ln))

    def grow(self, ex, v, arr, ln):
        v.set(arr=arr, ln=ln, structural=True)
        # resource assumption: no container exceeds INT_MAX elements
        ex.assume(v.len <= INT_MAX)

    def assign(self, ex, dst, src, move=False, fresh=False):
        src = ex.loadptr(src)
        if hasattr(dst, "assoc"):
            return self.prog.assoc.assign(ex, dst, src, move)
        if dst is src:
            return
        a, o, l = self.as_seq(ex, src)
        if isinstance(src, Vec) and src.kind != "cstr":
            dst.set(arr=src.arr, ln=src.len, structural=True)
            if move:
                if src.frozen:
                    return
                if src.kind == "string":
                    src.set(arr=ex.fresh("movedfrom", AI), ln=ex.fresh("movedfrom.len"), structural=True)
                    ex.assume(src.len >= 0, src.len <= INT_MAX)
                else:
                    src.set(ln=IntVal(0), structural=True)
            return
        dst.set(arr=self.fromseq(ex, dst.desc.sort, a, o, l), ln=l, structural=True)

    # ------------------------------------------------------------ construction
    def construct(self, ex, t, args, ctor, n):
        k = std_kind(t)
        name = ex.tmpname(n)
        b = t.split("::")[-1]
        if b in self.prog.opaque_types:
            if not args:
                return Const("DEFAULT_" + b, opaque_sort(b))
            src = ex.ev(args[0])
            v = ex.load(src)
            if cppast_move(ctor) and isinstance(src, (Cell, ElemRef)) and not (isinstance(src, Cell) and "tmp" in src.name):
                src.set(ex.fresh("movedfrom", opaque_sort(b)))
            return v
        if k in ("vector", "deque", "string"):
            self.use(ex, "std::%s constructor" % k)
            v = self.new_object(ex, t, name)
            a = [x for x in args if not (x["kind"] == "CXXDefaultArgExpr")]
            a = [x for x in a if "allocator" not in qt(x)]
            if not a:
                return v
            if len(a) == 1:
                t0 = strip(qt(a[0]))
                if t0 in ITYPES:
                    cnt = ex.rv(a[0])
                    self.size_ok(ex, cnt, n)
                    d = v.desc.default(ex)
                    v.arr = z3.K(I, d)
                    v.len = cnt
                    ex.assume(v.len <= INT_MAX)
                    return v
                src = ex.loadptr(ex.ev(a[0]))
                if isinstance(src, Opaque) and src.kind == "init_list":
                    return self.fill_list(ex, v, src)
                if isinstance(src, Vec) or isinstance(src, (SV, Iter)):
                    self.assign(ex, v, src, move=cppast_move(ctor), fresh=True)
                    return v
                raise Unsupported("construct %s from %s" % (t, t0))
            if len(a) == 2:
                x, y = ex.rv(a[0]), ex.rv(a[1])
                if isinstance(x, Iter) and isinstance(y, Iter):
                    self.range_ok(ex, x, y, n)
                    v.arr, v.len = self.range_seq(ex, v.desc.sort, x, y)
                    return v
                if isinstance(x, Iter):     # (pointer, count)
                    ex.obl("range-in-bounds", And(y >= 0, x.pos >= 0, x.pos + y <= x.vec.len), n)
                    v.arr, v.len = self.fromseq(ex, I, x.vec.arr, x.pos, y), y
                    return v
                self.size_ok(ex, x, n)
                v.arr = z3.K(I, v.desc.term(ex, y))
                v.len = x
                ex.assume(v.len <= INT_MAX)
                return v
            raise Unsupported("constructor " + ctor)
        if k == "stream":
            return self.new_object(ex, t, name)
        if k == "initializer_list" and len(args) == 1:
            return ex.rv(args[0])       # a view: copying it does not copy the elements
        if k in ("set", "map"):
            return self.prog.assoc.construct(ex, t, args, ctor, n, name)
        if "string_view" in t:
            self.use(ex, "std::string_view constructor")
            if not args:
                return SV(self.string_literal(ex, {"value": '""'}), IntVal(0), IntVal(0))
            if len(args) == 1:
                src = ex.rv(args[0])
                if isinstance(src, SV):
                    return src
                arr, off, ln = self.as_seq(ex, src, n)
                base = src.vec if isinstance(src, Iter) else vec_of(src)
                s = SV(base, off, ln)
                return s
            x, y = ex.rv(args[0]), ex.rv(args[1])
            if isinstance(y, Iter):
                self.range_ok(ex, x, y, n)
                return SV(x.vec, x.pos, simplify(y.pos - x.pos))
            lim = x.vec.len
            ex.obl("view-in-bounds", And(x.pos >= 0, y >= 0, x.pos + y <= lim), n)
            return SV(x.vec, x.pos, y)
        if "iterator" in t:
            return ex.rv(args[0]) if args else Opaque("iterator")
        if t.startswith("std::pair") or "pair<" in t:
            return self.prog.assoc.make_pair(ex, t, args, n)
        if "random_device" in t or "mersenne_twister" in t or "mt19937" in t:
            for a in args:
                ex.ev(a)
            return Cell(ex, name, Opaque("generator"), t)
        if "uniform_int_distribution" in t:
            vals = [ex.rv(a) for a in args if a["kind"] != "CXXDefaultArgExpr"]
            ex.obl("distribution-bounds", vals[0] <= vals[1], n)
            return Cell(ex, name, Opaque("distribution", lo=vals[0], hi=vals[1]), t)
        if t in ("std::runtime_error",):
            return Opaque("exception")
        if t in ORDERINGS:
            return ex.rv(args[0])
        if b == "__unspec":
            return IntVal(0)
        if t.startswith("(lambda") and len(args) == 1:
            return ex.rv(args[0])
        if "hash<" in t:
            return Opaque("hash", of=tmpl_args(t)[0])
        if b in self.prog.functor_types or t in self.prog.functor_types:
            return Opaque("functor", name=b)
        raise Unsupported("construction of " + t)

    def size_ok(self, ex, cnt, n):
        ex.obl("allocation-size", And(cnt >= 0, cnt <= (1 << 62)), n)

    def fill_list(self, ex, v, src):
        v.len = IntVal(len(src.items))
        for i, x in enumerate(src.items):
            v.arr = Store(v.arr, IntVal(i), v.desc.term(ex, x))
        return v

    def init_list(self, ex, n):
        t = strip(qt(n))
        items = [c for c in ex.inner(n) if c["kind"] != "ImplicitValueInitExpr"]
        if t in ITYPES or t in FTYPES or t == "bool":
            return ex.rv(items[0]) if items else ex.value_init(t, "x")
        if t.startswith("(lambda") and len(args) == 1:
            return ex.rv(args[0])
        if "hash<" in t:
            return Opaque("hash", of=tmpl_args(t)[0])
        return Opaque("init_list", items=[ex.rv(c) for c in items], typ=t)

    def range_ok(self, ex, x, y, n):
        if x.vec is not y.vec or x.rev != y.rev:
            ex.obl("iterators-same-container", BoolVal(False), n)
            raise PathEnd()
        self.valid(ex, x, n)
        self.valid(ex, y, n)
        lo, hi = (y.pos, x.pos) if x.rev else (x.pos, y.pos)
        ex.obl("range-valid", And(0 <= lo, lo <= hi, hi <= x.vec.len), n)

    def range_seq(self, ex, sort, x, y):
        if x.rev:
            a = ex.fresh("rev", arrsort(sort))
            k = Const("k!r", I)
            ex.assume(ForAll([k], Implies(And(0 <= k, k < x.pos - y.pos), Select(a, k) == Select(x.vec.arr, x.pos - 1 - k)), patterns=[Select(a, k)]))
            return a, simplify(x.pos - y.pos)
        ln = simplify(y.pos - x.pos)
        return self.fromseq(ex, sort, x.vec.arr, x.pos, ln), ln

    # ------------------------------------------------------------ member functions
    def method(self, ex, base, name, args, n):
        if isinstance(base, (Cell, ElemRef)):
            base2 = base.get()
        else:
            base2 = base
        if hasattr(base2, "assoc"):
            return self.prog.assoc.method(ex, base2, name, args, n)
        if isinstance(base2, Iter):
            if name == "base":
                return Iter(base2.vec, base2.pos, False, base2.ver)
            raise Unsupported("iterator method " + name)
        if isinstance(base2, SV):
            return self.sv_method(ex, base, base2, name, args, n)
        if isinstance(base2, istream.IStream):
            return istream.method(ex, base2, name, args, n)
        if isinstance(base2, Stream):
            return self.stream_method(ex, base2, name, args, n)
        if isinstance(base2, Vec):
            if name.startswith("operator") and name.endswith("string_view"):
                return SV(base2, IntVal(0), base2.len)
            m = getattr(self, "v_" + {"operator=": "opassign"}.get(name, name), None)
            if m is None:
                raise Unsupported("%s::%s" % (base2.kind, name))
            self.use(ex, "std::%s::%s" % (base2.kind, name))
            args = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
            return m(ex, base2, args, n)
        if isinstance(base2, Opaque):
            return self.prog.assoc.opaque_method(ex, base2, name, args, n)
        if z3.is_expr(base2) and name.startswith("operator ") and name.endswith("_ordering"):
            return base2
        raise Unsupported("method %s on %s" % (name, type(base2).__name__))

    def member(self, ex, base, nm, n):
        if hasattr(base, "key") and isinstance(base, ElemRef):
            return self.prog.assoc.member(ex, base, nm, n)
        b = ex.load(base) if isinstance(base, ElemRef) else base.get() if isinstance(base, Cell) else base
        if isinstance(b, Struct) and nm in b.fields:
            return b.fields[nm]
        return self.prog.assoc.member(ex, b, nm, n)

    def v_opassign(self, ex, v, a, n):
        src = ex.ev(a[0])
        self.assign(ex, v, src, move=a[0].get("valueCategory") == "xvalue")
        return v

    def v_size(self, ex, v, a, n):
        return v.len

    v_length = v_size

    def v_empty(self, ex, v, a, n):
        return v.len == 0

    def it(self, v, pos, rev=False):
        return Iter(v, pos, rev)

    def v_begin(self, ex, v, a, n):
        return Iter(v, IntVal(0))

    def v_end(self, ex, v, a, n):
        return Iter(v, v.len)

    v_cbegin, v_cend = v_begin, v_end

    def v_rbegin(self, ex, v, a, n):
        return Iter(v, v.len, True)

    def v_rend(self, ex, v, a, n):
        return Iter(v, IntVal(0), True)

    v_crbegin, v_crend = v_rbegin, v_rend

    def v_data(self, ex, v, a, n):
        return Iter(v, IntVal(0))

    def v_c_str(self, ex, v, a, n):
        return istream.c_str(ex, v)

    def v_back(self, ex, v, a, n):
        ex.obl("back-of-nonempty", v.len > 0, n)
        return ElemRef(v, simplify(v.len - 1))

    def v_front(self, ex, v, a, n):
        ex.obl("front-of-nonempty", v.len > 0, n)
        return ElemRef(v, IntVal(0))

    def v_reserve(self, ex, v, a, n):
        for x in a:
            ex.rv(x)
        v.set(arr=v.arr, structural=True)

    v_shrink_to_fit = v_reserve

    def v_push_back(self, ex, v, a, n):
        x = v.desc.term(ex, ex.rv(a[0]))
        self.grow(ex, v, Store(v.arr, v.len, x), simplify(v.len + 1))

    def v_emplace_back(self, ex, v, a, n):
        if len(a) != 1:
            raise Unsupported("emplace")
        self.v_push_back(ex, v, a, n)

    def v_push_front(self, ex, v, a, n):
        x = v.desc.term(ex, ex.rv(a[0]))
        s = v.desc.sort
        self.grow(ex, v, sfn("INS", s)(v.arr, IntVal(0), IntVal(1), z3.K(I, x), IntVal(0)), simplify(v.len + 1))

    def v_emplace_front(self, ex, v, a, n):
        if len(a) != 1:
            raise Unsupported("emplace")
        self.v_push_front(ex, v, a, n)

    def v_emplace(self, ex, v, a, n):
        if len(a) != 2:
            raise Unsupported("emplace")
        return self.v_insert(ex, v, a, n)

    def v_capacity(self, ex, v, a, n):
        c = ex.fresh("capacity")
        ex.assume(c >= v.len, c <= irange("unsigned long")[1])
        return c

    def v_shrink_to_fit(self, ex, v, a, n):
        v.set(structural=True)

    def v_pop_back(self, ex, v, a, n):
        ex.obl("pop-of-nonempty", v.len > 0, n)
        v.set(ln=simplify(v.len - 1), structural=True)

    def v_pop_front(self, ex, v, a, n):
        ex.obl("pop-of-nonempty", v.len > 0, n)
        v.set(arr=sfn("ERASE", v.desc.sort)(v.arr, IntVal(0), IntVal(1)), ln=simplify(v.len - 1), structural=True)

    def v_clear(self, ex, v, a, n):
        v.set(ln=IntVal(0), structural=True)

    def v_at(self, ex, v, a, n):
        i = ex.rv(a[0])
        if not ex.branch(And(i >= 0, i < v.len)):
            raise Thrown("std::out_of_range", n)
        return ElemRef(v, i)

    def v_resize(self, ex, v, a, n):
        m = ex.rv(a[0])
        x = v.desc.term(ex, ex.rv(a[1])) if len(a) > 1 else v.desc.default(ex)
        self.size_ok(ex, m, n)
        if is_int_value(simplify(v.len)) and simplify(v.len).as_long() == 0:
            arr = z3.K(I, x)
        else:
            arr = sfn("FILL", v.desc.sort)(v.arr, v.len, m, x)
        self.grow(ex, v, arr, m)

    def v_assign(self, ex, v, a, n):
        x, y = ex.rv(a[0]), ex.rv(a[1])
        if isinstance(x, Iter):
            self.range_ok(ex, x, y, n)
            arr, ln = self.range_seq(ex, v.desc.sort, x, y)
            self.grow(ex, v, arr, ln)
        else:
            self.size_ok(ex, x, n)
            self.grow(ex, v, z3.K(I, v.desc.term(ex, y)), x)

    def v_swap(self, ex, v, a, n):
        w = ex.loadptr(ex.ev(a[0]))
        self.swap(ex, v, w)

    def swap(self, ex, v, w):
        if hasattr(v, "assoc"):
            if not hasattr(w, "assoc"):
                raise Unsupported("swap")
            x, y = (v.mem, v.vals), (w.mem, w.vals)
            v.put(*y)
            w.put(*x)
        elif isinstance(v, Vec):
            a, l = v.arr, v.len
            b, m = w.arr, w.len
            v.set(arr=b, ln=m, structural=True)
            w.set(arr=a, ln=l, structural=True)
        elif isinstance(v, Struct):
            for k in v.fields:
                self.swap(ex, v.fields[k], w.fields[k])
        else:
            x, y = v.get(), w.get()
            v.set(y)
            w.set(x)

    def v_insert(self, ex, v, a, n):
        p = ex.rv(a[0])
        self.valid(ex, p, n)
        ex.obl("insert-position", And(p.pos >= 0, p.pos <= v.len, BoolVal(p.vec is v)), n)
        s = v.desc.sort
        if len(a) == 2:
            x = v.desc.term(ex, ex.rv(a[1]))
            if ex.quick(p.pos == v.len):
                self.grow(ex, v, Store(v.arr, v.len, x), simplify(v.len + 1))
            else:
                self.grow(ex, v, sfn("INS", s)(v.arr, p.pos, IntVal(1), z3.K(I, x), IntVal(0)), simplify(v.len + 1))
            return Iter(v, p.pos)
        x, y = ex.rv(a[1]), ex.rv(a[2])
        if isinstance(x, Iter):
            self.range_ok(ex, x, y, n)
            if x.vec is v:
                # the standard forbids iterators into the container itself
                ex.obl("insert-own-range", x.pos == y.pos, n)
            if x.rev:
                arr, ln = self.range_seq(ex, s, x, y)
                off = IntVal(0)
            else:
                arr, off, ln = x.vec.arr, x.pos, simplify(y.pos - x.pos)
            self.grow(ex, v, sfn("INS", s)(v.arr, p.pos, ln, arr, off), simplify(v.len + ln))
            return Iter(v, p.pos)
        self.size_ok(ex, x, n)
        self.grow(ex, v, sfn("INS", s)(v.arr, p.pos, x, z3.K(I, v.desc.term(ex, y)), IntVal(0)), simplify(v.len + x))
        return Iter(v, p.pos)

    def v_erase(self, ex, v, a, n):
        p = ex.rv(a[0])
        s = v.desc.sort
        if not isinstance(p, Iter):    # string::erase(pos, count)
            if not ex.branch(And(p >= 0, p <= v.len)):
                raise Thrown("std::out_of_range", n)
            cnt = simplify(v.len - p)
            if len(a) > 1:
                c = ex.rv(a[1])
                cnt = c if ex.quick(And(c >= 0, p + c <= v.len)) else simplify(If(And(c >= 0, p + c <= v.len), c, v.len - p))
            if ex.quick(p + cnt == v.len):
                v.set(ln=p, structural=True)
            else:
                v.set(arr=sfn("ERASE", s)(v.arr, p, cnt), ln=simplify(v.len - cnt), structural=True)
            return v
        self.valid(ex, p, n)
        if len(a) == 1:
            ex.obl("erase-in-range", And(p.pos >= 0, p.pos < v.len, BoolVal(p.vec is v)), n)
            v.set(arr=sfn("ERASE", s)(v.arr, p.pos, IntVal(1)), ln=simplify(v.len - 1), structural=True)
            return Iter(v, p.pos)
        q = ex.rv(a[1])
        self.valid(ex, q, n)
        ex.obl("erase-range", And(p.pos >= 0, p.pos <= q.pos, q.pos <= v.len, BoolVal(p.vec is v and q.vec is v)), n)
        if ex.quick(q.pos == v.len):
            v.set(ln=p.pos, structural=True)
        else:
            v.set(arr=sfn("ERASE", s)(v.arr, p.pos, simplify(q.pos - p.pos)), ln=simplify(v.len - (q.pos - p.pos)), structural=True)
        return Iter(v, p.pos)

    # strings
    def v_substr(self, ex, v, a, n):
        p = ex.rv(a[0]) if a else IntVal(0)
        if not ex.branch(And(p >= 0, p <= v.len)):
            raise Thrown("std::out_of_range", n)
        r = self.new_object(ex, "std::basic_string<char>", ex.tmpname(n))
        cnt = simplify(v.len - p)
        if len(a) > 1:
            c = ex.rv(a[1])
            cnt = c if ex.quick(And(c >= 0, p + c <= v.len)) else simplify(If(And(c >= 0, p + c <= v.len), c, v.len - p))
        r.arr, r.len = self.fromseq(ex, I, v.arr, p, cnt), cnt
        return r

    def v_append(self, ex, v, a, n):
        if len(a) == 1:
            x = ex.rv(a[0])
            arr, off, ln = self.as_seq(ex, x, n)
            self.append(ex, v, arr, off, ln)
            return v
        x, y = ex.rv(a[0]), ex.rv(a[1])
        if z3.is_expr(y) and (len(a) == 3 or isinstance(vec_of(x), Vec) and not isinstance(x, Iter)):
            # append(string, pos[, count])
            arr, off, ln = self.as_seq(ex, x, n)
            if not ex.branch(And(y >= 0, y <= ln)):
                raise Thrown("std::out_of_range", n)
            cnt = simplify(ln - y)
            if len(a) == 3:
                c = ex.rv(a[2])
                cnt = c if ex.quick(And(c >= 0, y + c <= ln)) else simplify(If(And(c >= 0, y + c <= ln), c, ln - y))
            self.append(ex, v, arr, simplify(off + y), cnt)
            return v
        if isinstance(x, Iter) and isinstance(y, Iter):
            self.range_ok(ex, x, y, n)
            if x.rev:
                arr, ln = self.range_seq(ex, I, x, y)
                self.append(ex, v, arr, IntVal(0), ln)
            else:
                self.append(ex, v, x.vec.arr, x.pos, simplify(y.pos - x.pos))
            return v
        if isinstance(x, Iter):
            self.append(ex, v, x.vec.arr, x.pos, y)
            return v
        if z3.is_expr(x):   # append(count, char)
            self.append(ex, v, z3.K(I, y), IntVal(0), x)
            return v
        raise Unsupported("append")

    def v_find(self, ex, v, a, n):
        x = ex.rv(a[0])
        frm = ex.rv(a[1]) if len(a) > 1 else IntVal(0)
        return self.find_in(ex, v.arr, IntVal(0), v.len, x, frm, n)

    def find_in(self, ex, arr, off, ln, x, frm, n):
        if z3.is_expr(x):
            lo, hi = simplify(off + frm), simplify(off + ln)
            r = FINDC(arr, lo, hi, x)
            ex.assume(findc_def(arr, lo, hi, x))
            return If(And(frm <= ln, r != -1), r - off, IntVal((1 << 64) - 1))
        parr, po, pl = self.as_seq(ex, x, n)
        # position relative to the view; npos if none (also when frm > len)
        r = FIND(arr, simplify(off + frm), simplify(off + ln), parr, po, pl)
        ex.assume(find_def(arr, simplify(off + frm), simplify(off + ln), parr, po, pl))
        ok = And(frm <= ln, r != -1)
        return If(ok, r - off, IntVal((1 << 64) - 1))

    def find_class(self, ex, name, arr, off, ln, a, n):
        """find_first_of, find_first_not_of, find_last_of, find_last_not_of for a character or a set of known characters"""
        x = ex.rv(a[0])
        if z3.is_expr(x):
            if name == "find_first_of":
                return self.find_in(ex, arr, off, ln, x, ex.rv(a[1]) if len(a) > 1 else IntVal(0), n)
            among = lambda t: t == x
        else:
            parr, po, pl = self.as_seq(ex, x, n)
            pl = simplify(pl)
            if len(a) > 2 or not is_int_value(pl) or pl.as_long() > 40:
                raise Unsupported("string::" + name)
            among = lambda t: Or([t == Select(parr, po + q) for q in range(pl.as_long())])
        hit = (lambda t: Not(among(t))) if "not" in name else among
        r, k = ex.fresh("found"), Const("k!f", I)
        NPOS = IntVal((1 << 64) - 1)
        at = lambda t: Select(arr, simplify(off + t))
        if "first" in name:
            frm = ex.rv(a[1]) if len(a) > 1 else IntVal(0)
            ex.assume(r >= 0, Implies(frm <= ln, And(frm <= r, r <= ln)), Implies(frm > ln, r == ln), Implies(r < ln, hit(at(r))),
                      ForAll([k], Implies(And(off + frm <= k, k < off + r), Not(hit(Select(arr, k)))), patterns=[Select(arr, k)]))
            return If(r < ln, r, NPOS)
        top = ln
        if len(a) > 1:
            p = ex.rv(a[1])
            top = If(p + 1 <= ln, p + 1, ln)
        ex.assume(r >= -1, r < top, Implies(r >= 0, hit(at(r))),
                  ForAll([k], Implies(And(off + r < k, k < off + top), Not(hit(Select(arr, k)))), patterns=[Select(arr, k)]))
        return If(r >= 0, r, NPOS)

    def v_find_first_of(self, ex, v, a, n):
        return self.find_class(ex, "find_first_of", v.arr, IntVal(0), v.len, a, n)

    def v_find_first_not_of(self, ex, v, a, n):
        return self.find_class(ex, "find_first_not_of", v.arr, IntVal(0), v.len, a, n)

    def v_find_last_of(self, ex, v, a, n):
        return self.find_class(ex, "find_last_of", v.arr, IntVal(0), v.len, a, n)

    def v_find_last_not_of(self, ex, v, a, n):
        return self.find_class(ex, "find_last_not_of", v.arr, IntVal(0), v.len, a, n)

    def v_contains(self, ex, v, a, n):
        return self.v_find(ex, v, a, n) != (1 << 64) - 1

    def v_starts_with(self, ex, v, a, n):
        arr, off, ln = self.as_seq(ex, ex.rv(a[0]), n)
        return And(v.len >= ln, MATCH(v.arr, IntVal(0), arr, off, ln))

    def v_ends_with(self, ex, v, a, n):
        arr, off, ln = self.as_seq(ex, ex.rv(a[0]), n)
        return And(v.len >= ln, MATCH(v.arr, simplify(v.len - ln), arr, off, ln))

    def sv_method(self, ex, lv, s, name, args, n):
        args = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
        self.use(ex, "std::string_view::" + name)
        if name in ("size", "length"):
            return s.len
        if name == "empty":
            return s.len == 0
        if name == "find":
            x = ex.rv(args[0])
            frm = ex.rv(args[1]) if len(args) > 1 else IntVal(0)
            return self.find_in(ex, s.arr, s.off, s.len, x, frm, n)
        if name == "substr":
            p = ex.rv(args[0]) if args else IntVal(0)
            if not ex.branch(And(p >= 0, p <= s.len)):
                raise Thrown("std::out_of_range", n)
            cnt = simplify(s.len - p)
            if len(args) > 1:
                c = ex.rv(args[1])
                cnt = c if ex.quick(And(c >= 0, p + c <= s.len)) else simplify(If(And(c >= 0, p + c <= s.len), c, s.len - p))
            r = SV(s.vec, simplify(s.off + p), cnt)
            r.arr = s.arr
            return r
        if name in ("begin", "cbegin", "data"):
            return Iter(s.vec, s.off)
        if name in ("end", "cend"):
            return Iter(s.vec, simplify(s.off + s.len))
        if name.startswith("find_") and name.endswith("_of"):
            return self.find_class(ex, name, s.arr, s.off, s.len, args, n)
        if name in ("starts_with", "ends_with"):
            arr, off, ln = self.as_seq(ex, ex.rv(args[0]), n)
            return And(s.len >= ln, MATCH(s.arr, s.off if name == "starts_with" else simplify(s.off + s.len - ln), arr, off, ln))
        if name == "operator[]":
            pass
        raise Unsupported("string_view::" + name)

    # ------------------------------------------------------------ operators
    def operator(self, ex, name, args, n, c):
        if name == "operator=":
            v = ex.rv(args[1])
            lv = ex.ev(args[0])
            t = c["referencedDecl"].get("type", {}).get("qualType", "")
            mv = "&&)" in t.replace("noexcept", "").replace(" ", "")[:200] and t.count("&&") > 0
            if isinstance(lv, Cell) and not isinstance(v, Vec):
                lv.set(v)
                return lv
            lv = ex.loadptr(lv)
            if isinstance(lv, Vec):
                if isinstance(v, Opaque) and v.kind == "init_list":
                    lv.set(arr=lv.arr, ln=IntVal(0), structural=True)
                    for x in v.items:
                        self.grow(ex, lv, Store(lv.arr, lv.len, lv.desc.term(ex, x)), simplify(lv.len + 1))
                    return lv
                self.assign(ex, lv, v, move=mv)
                return lv
            if isinstance(lv, ElemRef):
                lv.set(v)
                return lv
            raise Unsupported("operator= on " + type(lv).__name__)
        if name == "operator[]":
            base = ex.loadptr(ex.ev(args[0]))
            i = ex.rv(args[1])
            if isinstance(base, Vec) and not hasattr(base, "assoc"):
                self.use(ex, "std::%s::operator[]" % base.kind)
                if base.kind == "string":
                    ex.obl("index-in-range", And(i >= 0, i < base.len), n)
                else:
                    ex.obl("index-in-range", And(i >= 0, i < base.len), n)
                return ElemRef(base, i)
            if isinstance(base, Vec) and base.kind == "map":
                return self.prog.assoc.subscript(ex, base, i, n)
            if isinstance(base, SV):
                ex.obl("index-in-range", And(i >= 0, i < base.len), n)
                return ElemRef(base.vec, simplify(base.off + i))
            if isinstance(base, Iter):
                return self.iter_deref(ex, self.iter_add(ex, base, i), n)
            raise Unsupported("operator[]")
        if name == "operator()":
            f = ex.rv(args[0])
            return ex.call_value(f, [ex.ev(a) for a in args[1:]], n)
        if name in ("operator++", "operator--"):
            lv = ex.ev(args[0])
            old = ex.load(lv)
            k = IntVal(1 if name == "operator++" else -1)
            if isinstance(old, Iter):
                new = self.iter_add(ex, old, k)
                lv.set(new)
                return old if len(args) > 1 else lv
            raise Unsupported(name)
        if name == "operator*" and len(args) == 1:
            v = ex.rv(args[0])
            if isinstance(v, Iter):
                return self.iter_deref(ex, v, n)
            raise Unsupported("operator*")
        if name == "operator->":
            v = ex.rv(args[0])
            if isinstance(v, Iter):
                return Ptr(self.iter_deref(ex, v, n))
            raise Unsupported("operator->")
        if name in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>="):
            a, b = ex.rv(args[0]), ex.rv(args[1])
            return self.equality(ex, name[8:], a, b, n)
        if name == "operator<=>":
            a, b = ex.rv(args[0]), ex.rv(args[1])
            if self.plain_vec(a) and self.plain_vec(b):
                self.use(ex, "std::%s operator<=>" % a.kind)
                return self.lex(ex, a, b)
            if isinstance(a, Iter) and isinstance(b, Iter):
                d = (b.pos - a.pos) if a.rev else (a.pos - b.pos)
                if a.vec is not b.vec:
                    ex.obl("iterators-same-container", BoolVal(False), n)
                return d
            raise Unsupported("operator<=>")
        if name in ("operator+", "operator-"):
            a, b = ex.rv(args[0]), ex.rv(args[1])
            if isinstance(a, Iter) or isinstance(b, Iter):
                if not (isinstance(a, Iter) and a.vec.cstr) and not (isinstance(b, Iter) and b.vec.cstr):
                    return self.iter_arith(ex, name[8:], a, b)
            if name == "operator+":
                self.use(ex, "std::string operator+")
                r = self.new_object(ex, "std::basic_string<char>", ex.tmpname(n))
                for x in (a, b):
                    if z3.is_expr(x):
                        self.grow(ex, r, Store(r.arr, r.len, x), simplify(r.len + 1))
                    else:
                        arr, off, ln = self.as_seq(ex, x, n)
                        self.append(ex, r, arr, off, ln)
                return r
            raise Unsupported(name)
        if name in ("operator+=", "operator-="):
            b = ex.rv(args[1])
            lv = ex.ev(args[0])
            a = ex.load(lv)
            a = ex.loadptr(a)
            if isinstance(a, Iter):
                lv.set(self.iter_arith(ex, name[8], a, b))
                return lv
            if isinstance(a, Vec) and name == "operator+=":
                self.use(ex, "std::string::operator+=")
                if z3.is_expr(b):
                    self.grow(ex, a, Store(a.arr, a.len, b), simplify(a.len + 1))
                else:
                    arr, off, ln = self.as_seq(ex, b, n)
                    self.append(ex, a, arr, off, ln)
                return a
            raise Unsupported(name)
        if name == "operator<<":
            return self.stream_out(ex, args, n)
        if name == "operator>>":
            s = istream.of(ex, ex.rv(args[0]))
            if s is None:
                raise Unsupported("operator>>")
            return istream.extract(ex, s, args[1], n)
        if name == "operator!" and istream.of(ex, ex.rv(args[0])) is not None:
            return istream.method(ex, istream.of(ex, ex.rv(args[0])), name, [], n)
        if name in ("operator|", "operator&", "operator^"):
            raise Unsupported(name)
        raise Unsupported("std " + name)

    def equality(self, ex, op, a, b, n):
        for s in (a, b):
            pass
        if isinstance(a, Vec) and hasattr(a, "assoc"):
            e = self.prog.assoc.eq(ex, a, b)
            return e if op == "==" else Not(e)
        if isinstance(a, (Iter,)) and isinstance(b, Iter) and not (a.vec.cstr or b.vec.cstr):
            return self.compare_objs(ex, op, a, b)
        if z3.is_expr(a) and z3.is_expr(b):
            if a.sort() == b.sort() and op in ("==", "!="):
                return a == b if op == "==" else a != b
            if a.sort() == I and b.sort() == I and any("_ordering" in qt(x) for x in ex.inner(n)[1:]):
                return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
            raise Unsupported("operator" + op)
        if op in ("==", "!="):
            if isinstance(a, Vec) and isinstance(b, Vec) and a.kind != "cstr" and b.kind != "cstr":
                e = self.vec_eq(ex, a, b)
            else:
                x, xo, xl = self.as_seq(ex, a, n)
                y, yo, yl = self.as_seq(ex, b, n)
                m = simplify(yl) if is_int_value(simplify(yl)) else simplify(xl)
                if is_int_value(m) and m.as_long() <= 64:
                    # against a literal: character by character
                    e = And(xl == yl, *[Select(x, simplify(xo + k)) == Select(y, simplify(yo + k)) for k in range(m.as_long())])
                else:
                    e = And(xl == yl, MATCH(x, xo, y, yo, xl))
            return e if op == "==" else Not(e)
        if self.plain_vec(a) and self.plain_vec(b):
            self.use(ex, "std::%s operator%s" % (a.kind, op))
            r = self.lex(ex, a, b)
            return {"<": r < 0, ">": r > 0, "<=": r <= 0, ">=": r >= 0}[op]
        raise Unsupported("operator" + op)

    def plain_vec(self, v):
        return isinstance(v, Vec) and not hasattr(v, "assoc") and v.kind in ("vector", "deque", "string")

    def lex(self, ex, a, b):
        """-1, 0 or 1: the lexicographic comparison of two sequences"""
        d, r, facts = lex_cmp(a.desc.sort, a.kind == "string", a.arr, a.len, b.arr, b.len)
        ex.assume(*facts)
        return r

    def v_compare(self, ex, v, a, n):
        if len(a) == 1 and v.kind == "string":
            o = ex.loadptr(ex.ev(a[0]))
            if self.plain_vec(o):
                s, r = self.lex(ex, v, o), ex.fresh("compare", I)
                ex.assume((r < 0) == (s < 0), (r > 0) == (s > 0), -INT_MAX - 1 <= r, r <= INT_MAX)
                return r
        if len(a) == 3 and v.kind == "string":
            p, c = ex.rv(a[0]), ex.rv(a[1])
            arr, off, ln = self.as_seq(ex, ex.rv(a[2]), n)
            if not ex.branch(And(p >= 0, p <= v.len)):
                raise Thrown("std::out_of_range", n)
            r = ex.fresh("compare")
            l1 = If(p + c <= v.len, c, v.len - p)
            ex.assume((r == 0) == And(l1 == ln, MATCH(v.arr, p, arr, off, ln)), -INT_MAX - 1 <= r, r <= INT_MAX)
            return r
        raise Unsupported("string::compare")

    def f_lexicographical_compare_three_way(self, ex, args, n):
        return self.lex_ranges(ex, args, n)

    def f_lexicographical_compare(self, ex, args, n):
        return self.lex_ranges(ex, args, n) < 0

    def lex_ranges(self, ex, args, n):
        its = [ex.rv(x) for x in args]
        if len(its) != 4 or not all(isinstance(i, Iter) and not i.rev for i in its):
            raise Unsupported("lexicographical comparison")
        self.range_ok(ex, its[0], its[1], n)
        self.range_ok(ex, its[2], its[3], n)
        sort = its[0].vec.desc.sort
        x, y = [(self.fromseq(ex, sort, p.vec.arr, p.pos, simplify(q.pos - p.pos)), simplify(q.pos - p.pos)) for p, q in (its[:2], its[2:])]
        d, r, facts = lex_cmp(sort, None, *x, *y)       # chars here are compared as chars, not as unsigned bytes
        ex.assume(*facts)
        return r

    # ------------------------------------------------------------ streams
    def stream_of(self, ex, v):
        if isinstance(v, Cell):
            v = v.val
        if isinstance(v, Stream):
            return v
        raise Unsupported("stream " + type(v).__name__)

    def stream_out(self, ex, args, n):
        s = self.stream_of(ex, ex.rv(args[0]))
        x = ex.rv(args[1])
        t = strip(qt(args[1]))
        self.use(ex, "std::ostream::operator<<")
        self.emit(ex, s, x, t, n)
        return s

    def emit(self, ex, s, x, t, n):
        x = ex.loadptr(x)
        if isinstance(x, Opaque):
            if x.kind == "setw":
                s.width = x.v
                return
            if x.kind == "setfill":
                s.fill = x.v
                return
            if x.kind == "printed":
                pass
            raise Unsupported("output of " + x.kind)
        w = simplify(s.width)
        if not (is_int_value(w) and w.as_long() <= 1):
            # padding: only handled when the text is provably at least as wide
            pass
        if z3.is_expr(x) and x.sort() == I:
            if t in ("char", "signed char", "unsigned char"):
                self.pad_ok(ex, s, IntVal(1), n)
                self.grow(ex, s, Store(s.arr, s.len, x), simplify(s.len + 1))
                return
            arr, ln = self.dec_text(ex, x)
            self.pad_ok(ex, s, ln, n)
            self.append(ex, s, arr, IntVal(0), ln)
            return
        if z3.is_expr(x) and (x.sort().kind() == z3.Z3_UNINTERPRETED_SORT or x.sort() == engine.StrV or x.sort() == R):
            arr, ln = self.text_of(ex, x)
            self.pad_ok(ex, s, ln, n)
            self.append(ex, s, arr, IntVal(0), ln)
            return
        if z3.is_expr(x) and x.sort() == B:
            raise Unsupported("output of bool")
        arr, off, ln = self.as_seq(ex, x, n)
        self.pad_ok(ex, s, ln, n)
        self.append(ex, s, arr, off, ln)

    def pad_ok(self, ex, s, ln, n):
        w = simplify(s.width)
        if not (is_int_value(w) and w.as_long() == 0):
            if not ex.quick(w <= ln):
                raise Unsupported("padded output")
            s.width = IntVal(0)

    def dec_text(self, ex, x):
        if ex.proved(And(x >= 0, x <= 9)):
            ex.assume(DECLEN(x) == 1, Select(DECCH(x), 0) == 48 + x)
            return DECCH(x), IntVal(1)
        ln, arr = DECLEN(x), DECCH(x)
        ex.assume(ln >= 1, ln <= 20, Implies(And(x >= 0, x <= 9), And(ln == 1, Select(arr, 0) == 48 + x)))
        return arr, ln

    def text_of(self, ex, x):
        s = x.sort()
        TXT = U("TXT_" + str(s), s, AI)
        TLEN = U("TLEN_" + str(s), s, I)
        ex.assume(TLEN(x) >= 0, TLEN(x) <= INT_MAX)
        return TXT(x), TLEN(x)

    def stream_method(self, ex, s, name, args, n):
        if name == "str":
            r = self.new_object(ex, "std::basic_string<char>", ex.tmpname(n))
            r.arr, r.len = s.arr, s.len
            return r
        if name == "put":
            self.emit(ex, s, ex.rv(args[0]), "char", n)
            return s
        raise Unsupported("stream." + name)

    # ------------------------------------------------------------ free functions
    def call(self, ex, name, args, n, c):
        m = getattr(self, "f_" + name, None)
        if m is None:
            raise Unsupported("std function " + name)
        self.use(ex, "std::" + name)
        args = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
        return m(ex, args, n)

    def f_move(self, ex, a, n):
        if len(a) == 3:
            return self.move_range(ex, a, n)
        if len(a) != 1:
            raise Unsupported("std::move algorithm")
        return ex.ev(a[0])

    def f_forward(self, ex, a, n):
        return ex.ev(a[0])

    f_as_const = f_forward

    def move_range(self, ex, a, n):
        """std::move(first, last, out): out receives the elements, what is left behind in the source is unspecified"""
        x, y = self.get_range(ex, a, n)
        d = ex.rv(a[2])
        if not isinstance(d, Iter) or x.rev or d.rev:
            raise Unsupported("std::move algorithm")
        cnt = simplify(y.pos - x.pos)
        self.dest(ex, d, cnt, n)
        if d.vec is x.vec:
            ex.obl("move-overlap", Or(d.pos <= x.pos, d.pos >= y.pos), n)
        S, D = x.vec.arr, d.vec.arr
        if d.vec is not x.vec:
            L = ex.fresh("left", arrsort(x.vec.desc.sort))
            k = Const("k!v", I)
            ex.assume(ForAll([k], Implies(Not(And(x.pos <= k, k < y.pos)), Select(L, k) == Select(S, k)), patterns=[Select(L, k)]))
            self.write_array(ex, x.vec, L)
        N = ex.fresh("moved", arrsort(d.vec.desc.sort))
        k = Const("k!v", I)
        here = And(d.pos <= k, k < d.pos + cnt)
        ex.assume(ForAll([k], Implies(here, Select(N, k) == Select(S, k - d.pos + x.pos)), patterns=[Select(N, k)]))
        gone = And(x.pos <= k, k < y.pos) if d.vec is x.vec else BoolVal(False)
        ex.assume(ForAll([k], Implies(And(Not(here), Not(gone)), Select(N, k) == Select(D, k)), patterns=[Select(N, k)]))
        self.write_array(ex, d.vec, N)
        return Iter(d.vec, simplify(d.pos + cnt))

    def limit(self, ex, n, lo):
        """numeric_limits<T>::min()/max(), called without arguments"""
        t = strip(qt(n))
        r = irange(t)
        if r is None:
            raise Unsupported("numeric_limits of " + t)
        return IntVal(r[0] if lo else r[1])

    f_lowest = lambda self, ex, a, n: self.limit(ex, n, True)

    def f_epsilon(self, ex, a, n):
        if strip(qt(n)) != "double":
            raise Unsupported("epsilon of " + qt(n))
        return z3.Q(1, 1 << 52)

    def f_max(self, ex, a, n):
        if not a:
            return self.limit(ex, n, False)
        if len(a) != 2:
            raise Unsupported("std::max")
        x, y = ex.rv(a[0]), ex.rv(a[1])
        return self.sel(ex, x < y, y, x)

    def sel(self, ex, c, x, y):
        """If(c, x, y) as a named value"""
        c = simplify(c)
        if z3.is_true(c):
            return x
        if z3.is_false(c):
            return y
        if not z3.is_int(x):
            return If(c, x, y)
        m = ex.fresh("sel")
        ex.assume(Implies(c, m == x), Implies(Not(c), m == y))
        return m

    def f_min(self, ex, a, n):
        if not a:
            return self.limit(ex, n, True)
        if len(a) != 2:
            raise Unsupported("std::min")
        x, y = ex.rv(a[0]), ex.rv(a[1])
        return self.sel(ex, y < x, y, x)

    def f_swap(self, ex, a, n):
        x, y = ex.loadptr(ex.ev(a[0])), ex.loadptr(ex.ev(a[1]))
        self.swap(ex, x, y)

    def f_make_pair(self, ex, a, n):
        return self.prog.assoc.make_pair(ex, None, a, n)

    def f_exchange(self, ex, a, n):
        lv = ex.ev(a[0])
        v = ex.rv(a[1])
        if isinstance(lv, (Cell, ElemRef)):
            old = ex.load(lv)
            lv.set(v)
            return old
        raise Unsupported("exchange")

    def f_abs(self, ex, a, n):
        x = ex.rv(a[0])
        t = strip(qt(a[0]))
        if z3.is_real(x):
            return If(x >= 0, x, -x)
        ex.norm(-x, t, "abs", n) if not ex.quick(x >= 0) else None
        return self.sel(ex, x >= 0, x, simplify(-x))

    def f_floor(self, ex, a, n):
        x = simplify(ex.rv(a[0]))
        q = self.ratio(ex, x)
        if q is not None:
            return ToReal(ex.quotient(q[0], q[1], floor=True))
        return ToReal(self.rfloor(ex, x))

    def rfloor(self, ex, x):
        f = ex.fresh("floor")
        ex.assume(ToReal(f) <= x, x < ToReal(f) + 1)
        return f

    def f_ceil(self, ex, a, n):
        x = simplify(ex.rv(a[0]))
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL:
            return x
        q = self.ratio(ex, x)
        if q is not None:
            return ToReal(simplify(-ex.quotient(simplify(-q[0]), q[1], floor=True)))
        f = ex.fresh("ceil")
        ex.assume(ToReal(f) >= x, x > ToReal(f) - 1)
        return ToReal(f)

    def f_trunc(self, ex, a, n):
        x = ex.rv(a[0])
        f = self.rfloor(ex, If(x >= 0, x, -x))
        return ToReal(If(x >= 0, f, -f))

    def ratio(self, ex, x):
        """x == to_real(a)/to_real(b): (a, b)"""
        if getattr(x, "_ratio", None):
            return x._ratio
        r = self.ratios.get(x.get_id()) if hasattr(self, "ratios") else None
        return (r[1], r[2]) if r else None

    ratios = {}
    TWO53 = 2 ** 53

    def rnd(self, ex, x, typ="double"):
        """The double nearest to the real number x (IEEE 754, round to nearest): a function RND of which is known that it
        is exact on integers up to 2^53 and on doubles, keeps the sign, and errs by at most one part in 2^53 for values
        of ordinary size.  Contracts marked `reals` idealise: there the result is x itself."""
        if ex.reals and typ != "float":
            return x
        if typ == "long double":
            raise Unsupported("long double arithmetic")
        fn, p = (RND32, 24) if typ == "float" else (RND, 53)
        lim = 2 ** p
        x = simplify(x)
        if z3.is_rational_value(x):
            fr = x.as_fraction()
            if typ != "float" and fr == 0 or (abs(fr) < 2 ** 1000 and abs(fr) > Fr(1, 2 ** 1000)):
                v = fr.numerator / fr.denominator
                if typ != "float":
                    y = Fr(v)
                    return x if y == fr else RealVal("%d/%d" % (y.numerator, y.denominator))
        intarg = self.intterm(x)
        if intarg is not None:
            intarg = simplify(intarg)
            x = ToReal(intarg)
        if intarg is not None and ex.quick(And(intarg >= -lim, intarg <= lim)):
            return x
        if x.decl().name() == fn.name():
            return x
        r = fn(x)
        key = "rnd:%d" % r.get_id()
        if key not in ex.rnds:
            ex.rnds[key] = r
            ax, err = If(x >= 0, x, -x), If(r >= x, r - x, x - r)
            big, small = RealVal(2 ** 200), RealVal("1/%d" % 2 ** 200)
            ex.assume(Implies(x >= 0, r >= 0), Implies(x <= 0, r <= 0), Implies(Or(x >= small, x <= -small), r != 0),
                      Implies(And(ax <= big, Or(ax >= small, x == 0)), err * lim <= ax))
            if intarg is not None:
                ex.assume(Implies(And(intarg >= -lim, intarg <= lim), r == x))
        return r

    def intterm(self, t):
        """The integer term whose value the real term t has, if that is evident."""
        if z3.is_rational_value(t):
            return IntVal(t.numerator_as_long()) if t.denominator_as_long() == 1 else None
        if not z3.is_app(t):
            return None
        k = t.decl().kind()
        if k == z3.Z3_OP_TO_REAL:
            return t.arg(0)
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            xs = [self.intterm(c) for c in t.children()]
            if any(x is None for x in xs):
                return None
            r = xs[0]
            for x in xs[1:]:
                r = r + x if k == z3.Z3_OP_ADD else r - x if k == z3.Z3_OP_SUB else r * x
            return -r if k == z3.Z3_OP_UMINUS else r
        return None

    def fdiv(self, ex, a, b, typ="double"):
        ex.obl("division-by-zero", b != 0)
        asint = self.intterm
        if z3.is_app(a) and z3.is_app(b):
            x, y = asint(simplify(a)), asint(simplify(b))
            if x is not None and y is not None:
                if is_int_value(y) and y.as_long() == 1:
                    return ToReal(x)
                r = self.rnd(ex, simplify(a / b), typ)
                # the rounded quotient of two integers below 2^52 has the floor of the exact one (lemma rounded_quotient_floor)
                lim = 2 ** 52 if typ == "double" else 2 ** 23
                if ex.reals or ex.quick(And(x > -lim, x < lim, y > -lim, y < lim)):
                    self.ratios[r.get_id()] = (r, x, y)
                return r
        return self.rnd(ex, a / b, typ)

    def f_log10(self, ex, a, n):
        x = ex.rv(a[0])
        if z3.is_int(x):
            x = ToReal(x)
        ex.obl("log-domain", x > 0, n)
        r = LOG10(x)
        ex.assume(Implies(And(x >= 1, x < 10), And(r >= 0, r < 1)), Implies(And(x >= 1, x <= RealVal(2 ** 64)), And(r >= 0, r < 20)))
        return r

    def real1(self, ex, a, fn, dom=None):
        x = ex.rv(a[0])
        if z3.is_int(x):
            x = ToReal(x)
        return fn(x)

    def f_sqrt(self, ex, a, n):
        x = ex.rv(a[0])
        if z3.is_int(x):
            x = ToReal(x)
        r = SQRT(x)
        ex.assume(Implies(x >= 0, And(r >= 0, r * r == x)))
        return self.rnd(ex, r)

    def f_exp(self, ex, a, n):
        return self.real1(ex, a, REXP)

    def f___builtin_inff(self, ex, a, n):
        return INF

    f___builtin_inf = f___builtin_huge_val = f___builtin_huge_valf = f___builtin_inff

    def f___builtin_nanf(self, ex, a, n):
        return NANV

    f___builtin_nan = f___builtin_nanf

    def f_log(self, ex, a, n):
        return self.real1(ex, a, RLOG)

    def f_cos(self, ex, a, n):
        return self.real1(ex, a, RCOS)

    def f_sin(self, ex, a, n):
        return self.real1(ex, a, RSIN)

    def two(self, ex, a):
        x, y = ex.rv(a[0]), ex.rv(a[1])
        x = ToReal(x) if z3.is_int(x) else x
        y = ToReal(y) if z3.is_int(y) else y
        return x, y

    def f_pow(self, ex, a, n):
        x, y = self.two(ex, a)
        r = RPOW(x, y)
        if ex.quick(x > 0):
            ex.assume(r > 0)
        return r

    def f_hypot(self, ex, a, n):
        x, y = self.two(ex, a)
        r = HYPOT(x, y)
        ex.assume(r >= 0, r * r == x * x + y * y)
        return r

    def f_atan2(self, ex, a, n):
        return ATAN2(*self.two(ex, a))

    def f_gcd(self, ex, a, n):
        x, y = ex.rv(a[0]), ex.rv(a[1])
        t = strip(qt(a[0]))
        lo = irange("long long" if "long" in t else t)[0] if t in ITYPES else INT_MIN
        ex.obl("gcd-representable", And(x > lo, y > lo), n)
        g = T.GCD(x, y)
        ex.hints.append(T.gcd_divides(x, y))
        ex.assume(g >= 0, Implies(Or(x != 0, y != 0), g >= 1))
        return g

    def f_lcm(self, ex, a, n):
        x, y = ex.rv(a[0]), ex.rv(a[1])
        t = strip(qt(n))
        lo, hi = irange(t)
        ex.obl("lcm-representable-operands", And(x > lo, y > lo), n)
        ex.hints.append(T.gcd_divides(x, y))
        r = T.LCM(x, y)
        ex.obl("lcm-representable", And(r >= lo, r <= hi), n)
        return r

    def f_strlen(self, ex, a, n):
        p = ex.rv(a[0])
        arr, off, ln = self.cstr_view(ex, p, n)
        return ln

    def f_to_string(self, ex, a, n):
        x = ex.rv(a[0])
        arr, ln = self.dec_text(ex, x)
        r = self.new_object(ex, "std::basic_string<char>", ex.tmpname(n))
        r.arr, r.len = arr, ln
        return r

    def f_setw(self, ex, a, n):
        return Opaque("setw", v=ex.rv(a[0]))

    def f_setfill(self, ex, a, n):
        return Opaque("setfill", v=ex.rv(a[0]))

    def f_getline(self, ex, a, n):
        return istream.getline(ex, a, n)

    def f_isdigit(self, ex, a, n):
        x = ex.rv(a[0])
        ex.obl("ctype-argument", And(x >= -1, x <= 255), n)
        return If(And(x >= 48, x <= 57), IntVal(1), IntVal(0))

    def f_size(self, ex, a, n):
        return vec_of(ex.loadptr(ex.ev(a[0]))).len

    def f_begin(self, ex, a, n):
        return Iter(vec_of(ex.loadptr(ex.ev(a[0]))), IntVal(0))

    def f_end(self, ex, a, n):
        v = vec_of(ex.loadptr(ex.ev(a[0])))
        return Iter(v, v.len)

    def f_distance(self, ex, a, n):
        x, y = ex.rv(a[0]), ex.rv(a[1])
        return self.iter_arith(ex, "-", y, x)

    def f_next(self, ex, a, n):
        k = ex.rv(a[1]) if len(a) > 1 else IntVal(1)
        return self.iter_add(ex, ex.rv(a[0]), k)

    def f_prev(self, ex, a, n):
        k = ex.rv(a[1]) if len(a) > 1 else IntVal(1)
        return self.iter_add(ex, ex.rv(a[0]), -k)

    def f_advance(self, ex, a, n):
        lv = ex.ev(a[0])
        lv.set(self.iter_add(ex, ex.load(lv), ex.rv(a[1])))

    # algorithms ------------------------------------------------------------
    def f_includes(self, ex, a, n):
        return self.prog.assoc.includes(ex, a, n)

    def f_set_intersection(self, ex, a, n):
        return self.prog.assoc.set_op(ex, a, n, lambda x, y: And(x, y))

    def f_set_union(self, ex, a, n):
        return self.prog.assoc.set_op(ex, a, n, lambda x, y: Or(x, y))

    def f_set_difference(self, ex, a, n):
        return self.prog.assoc.set_op(ex, a, n, lambda x, y: And(x, Not(y)))

    def f_set_symmetric_difference(self, ex, a, n):
        return self.prog.assoc.set_op(ex, a, n, lambda x, y: x != y)

    def f_inserter(self, ex, a, n):
        v = ex.loadptr(ex.ev(a[0]))
        it = ex.rv(a[1])
        self.valid(ex, it, n)
        if not hasattr(v, "assoc") or it.vec is not v:
            raise Unsupported("inserter")
        return Opaque("inserter", vec=v)

    def get_range(self, ex, a, n):
        x, y = ex.rv(a[0]), ex.rv(a[1])
        if not isinstance(x, Iter) or not isinstance(y, Iter):
            raise Unsupported("range")
        self.range_ok(ex, x, y, n)
        return x, y

    def rng_get(self, x, k):
        """k-th element of a range starting at iterator x"""
        return Select(x.vec.arr, x.pos - 1 - k) if x.rev else Select(x.vec.arr, x.pos + k)

    def f_find(self, ex, a, n):
        x, y = self.get_range(ex, a, n)
        e = x.vec.desc.term(ex, ex.rv(a[2]))
        if hasattr(x.vec, "assoc") or x.rev:
            raise Unsupported("find")
        r = ex.fresh("found")
        k = Const("k!f", I)
        A = x.vec.arr
        ex.assume(x.pos <= r, r <= y.pos, Implies(r < y.pos, Select(A, r) == e),
                  ForAll([k], Implies(And(x.pos <= k, k < r), Select(A, k) != e), patterns=[Select(A, k)]))
        return Iter(x.vec, r, False, x.ver)

    def f_find_if(self, ex, a, n, want=True):
        x, y = self.get_range(ex, a, n)
        if hasattr(x.vec, "assoc"):
            raise Unsupported("find_if")
        z, p = self.lam_term(ex, ex.rv(a[2]), x.vec, n)
        q = p if want else Not(p)
        r, k, v = ex.fresh("found"), Const("k!f", I), x.vec
        at = lambda t: z3.substitute(q, (z, t))
        if x.rev:
            # positions count down from x.pos to y.pos; r is the position of the result
            ex.assume(y.pos <= r, r <= x.pos, Implies(r > y.pos, at(Select(v.arr, r - 1))),
                      ForAll([k], Implies(And(r <= k, k < x.pos), Not(at(Select(v.arr, k)))), patterns=[Select(v.arr, k)]))
        else:
            ex.assume(x.pos <= r, r <= y.pos, Implies(r < y.pos, at(Select(v.arr, r))),
                      ForAll([k], Implies(And(x.pos <= k, k < r), Not(at(Select(v.arr, k)))), patterns=[Select(v.arr, k)]))
        return Iter(v, r, x.rev, x.ver)

    def f_find_if_not(self, ex, a, n):
        return self.f_find_if(ex, a, n, False)

    def f_count(self, ex, a, n):
        x, y = self.get_range(ex, a, n)
        return self.counted(ex, x, y, x.vec.desc.term(ex, ex.rv(a[2])))

    def counted(self, ex, x, y, e):
        r = U("CNT_" + str(x.vec.desc.sort), arrsort(x.vec.desc.sort), I, I, x.vec.desc.sort, I)(x.vec.arr, x.pos, y.pos, e)
        A = x.vec.arr
        k, w = Const("k!f", I), ex.fresh("counted")
        ex.assume(r >= 0, r <= y.pos - x.pos, Implies(r == 0, ForAll([k], Implies(And(x.pos <= k, k < y.pos), Select(A, k) != e), patterns=[Select(A, k)])),
                  Implies(r > 0, And(x.pos <= w, w < y.pos, Select(A, w) == e)))
        return r

    def write_array(self, ex, v, arr):
        v.set(arr=arr, structural=False)

    def f_reverse(self, ex, a, n):
        x, y = self.get_range(ex, a, n)
        v = x.vec
        A = v.arr
        N = ex.fresh("reversed", arrsort(v.desc.sort))
        k = Const("k!v", I)
        ex.assume(ForAll([k], Select(N, k) == If(And(x.pos <= k, k < y.pos), Select(A, x.pos + y.pos - 1 - k), Select(A, k)), patterns=[Select(N, k)]))
        self.write_array(ex, v, N)

    def dest(self, ex, it, cnt, n):
        """Destination range of an output iterator into a container."""
        if not isinstance(it, Iter) or it.rev:
            raise Unsupported("output iterator")
        self.valid(ex, it, n)
        ex.obl("destination-in-range", And(it.pos >= 0, it.pos + cnt <= it.vec.len), n)

    def f_reverse_copy(self, ex, a, n):
        x, y = self.get_range(ex, a, n)
        d = ex.rv(a[2])
        cnt = simplify(y.pos - x.pos)
        self.dest(ex, d, cnt, n)
        if d.vec is x.vec:
            raise Unsupported("overlapping reverse_copy")
        N = ex.fresh("reversed", arrsort(d.vec.desc.sort))
        k = Const("k!v", I)
        A, D = x.vec.arr, d.vec.arr
        ex.assume(ForAll([k], Select(N, k) == If(And(d.pos <= k, k < d.pos + cnt), Select(A, y.pos - 1 - (k - d.pos)), Select(D, k)), patterns=[Select(N, k)]))
        self.write_array(ex, d.vec, N)
        return Iter(d.vec, simplify(d.pos + cnt))

    def f_copy(self, ex, a, n):
        x, y = self.get_range(ex, a, n)
        return self.copy_range(ex, x, y, ex.rv(a[2]), n)

    def f_copy_n(self, ex, a, n):
        x, k = ex.rv(a[0]), ex.rv(a[1])
        d = ex.rv(a[2])
        if not isinstance(x, Iter) or not z3.is_expr(k):
            raise Unsupported("copy_n")
        if ex.branch(k <= 0):
            return d
        y = self.iter_add(ex, x, k)
        self.range_ok(ex, x, y, n)
        return self.copy_range(ex, x, y, d, n)

    def copy_range(self, ex, x, y, d, n):
        if isinstance(d, Opaque) and d.kind == "back_inserter" and not x.rev:
            if d.vec is x.vec:
                raise Unsupported("copy of a range to the end of its own container")
            self.append(ex, d.vec, x.vec.arr, x.pos, simplify(y.pos - x.pos))
            return d
        if not isinstance(d, Iter):
            return self.prog.assoc.copy_to(ex, x, y, d, n)
        cnt = simplify(x.pos - y.pos) if x.rev else simplify(y.pos - x.pos)
        self.dest(ex, d, cnt, n)
        if d.vec is x.vec:
            ex.obl("copy-overlap", Or(d.pos <= x.pos, d.pos >= y.pos), n)
        N = ex.fresh("copied", arrsort(d.vec.desc.sort))
        k = Const("k!v", I)
        D = d.vec.arr
        ex.assume(ForAll([k], Select(N, k) == If(And(d.pos <= k, k < d.pos + cnt), self.rng_get(x, k - d.pos), Select(D, k)), patterns=[Select(N, k)]))
        self.write_array(ex, d.vec, N)
        return Iter(d.vec, simplify(d.pos + cnt))

    def f_fill(self, ex, a, n):
        x, y = self.get_range(ex, a, n)
        e = x.vec.desc.term(ex, ex.rv(a[2]))
        self.write_array(ex, x.vec, sfn("FILL", x.vec.desc.sort)(x.vec.arr, x.pos, y.pos, e))

    def rot(self, ex, A, lo, mid, hi, N, base, D):
        k = Const("k!v", I)
        ex.assume(ForAll([k], Select(N, k) == If(And(base <= k, k < base + (hi - lo)),
                                               If(k - base < hi - mid, Select(A, mid + (k - base)), Select(A, lo + (k - base) - (hi - mid))),
                                               Select(D, k)), patterns=[Select(N, k)]))

    def f_rotate(self, ex, a, n):
        x, m, y = ex.rv(a[0]), ex.rv(a[1]), ex.rv(a[2])
        self.range_ok(ex, x, m, n)
        self.range_ok(ex, m, y, n)
        v = x.vec
        N = ex.fresh("rotated", arrsort(v.desc.sort))
        self.rot(ex, v.arr, x.pos, m.pos, y.pos, N, x.pos, v.arr)
        self.write_array(ex, v, N)
        return Iter(v, simplify(x.pos + (y.pos - m.pos)))

    def f_rotate_copy(self, ex, a, n):
        x, m, y, d = ex.rv(a[0]), ex.rv(a[1]), ex.rv(a[2]), ex.rv(a[3])
        self.range_ok(ex, x, m, n)
        self.range_ok(ex, m, y, n)
        self.dest(ex, d, simplify(y.pos - x.pos), n)
        if d.vec is x.vec:
            raise Unsupported("overlapping rotate_copy")
        N = ex.fresh("rotated", arrsort(d.vec.desc.sort))
        self.rot(ex, x.vec.arr, x.pos, m.pos, y.pos, N, d.pos, d.vec.arr)
        self.write_array(ex, d.vec, N)
        return Iter(d.vec, simplify(d.pos + (y.pos - x.pos)))

    def flt(self, sort, kind):
        """Specification of filtering: FLTLEN/FLTARR(a, n, p) = the elements of a[0..n) that satisfy keep_p, in order."""
        PS = I
        return (U("FLTLEN_%s_%s" % (kind, sort), arrsort(sort), I, sort if kind == "ne" else I, I),
                U("FLTARR_%s_%s" % (kind, sort), arrsort(sort), I, sort if kind == "ne" else I, arrsort(sort)))

    def f_remove(self, ex, a, n):
        x, y = self.get_range(ex, a, n)
        ref = ex.ev(a[2])
        if isinstance(ref, ElemRef) and ref.vec is x.vec:
            # std::remove reads the value while it overwrites the range
            ex.obl("remove-value-aliases-range", Not(And(x.pos <= ref.idx, ref.idx < y.pos)), n)
        e = x.vec.desc.term(ex, ex.load(ref))
        return self.filter_range(ex, x, y, "ne", e, n)

    def filter_range(self, ex, x, y, kind, e, n):
        v = x.vec
        s = v.desc.sort
        L, F = self.flt(s, kind)
        if not ex.quick(And(x.pos == 0)):
            raise Unsupported("filter of an inner range")
        A = v.arr
        ln = L(A, y.pos, e)
        N = ex.fresh("filtered", arrsort(s))
        k = Const("k!v", I)
        ex.assume(ln >= 0, ln <= y.pos, ForAll([k], Implies(And(0 <= k, k < ln), Select(N, k) == Select(F(A, y.pos, e), k)), patterns=[Select(N, k)]),
                  ForAll([k], Implies(k >= y.pos, Select(N, k) == Select(A, k)), patterns=[Select(N, k)]))
        self.write_array(ex, v, N)
        return Iter(v, ln)

    def f_copy_if(self, ex, a, n):
        x, y = self.get_range(ex, a, n)
        d = ex.rv(a[2])
        p = ex.rv(a[3])
        pid = self.pred_id(ex, p)
        if isinstance(d, Iter) and d.vec is x.vec and ex.quick(d.pos == x.pos):
            return self.filter_range(ex, x, y, "pred", pid, n)
        if isinstance(d, Opaque) and d.kind == "back_inserter" and d.vec is not x.vec and not hasattr(x.vec, "assoc") and not x.rev \
                and ex.quick(x.pos == 0) and ex.quick(d.vec.len == 0):
            L, F = self.flt(x.vec.desc.sort, "pred")
            ln = L(x.vec.arr, y.pos, pid)
            ex.assume(ln >= 0, ln <= y.pos)
            d.vec.set(arr=F(x.vec.arr, y.pos, pid), ln=ln, structural=True)
            return d
        raise Unsupported("copy_if")

    def f_back_inserter(self, ex, a, n):
        v = vec_of(ex.loadptr(ex.ev(a[0])))
        if not isinstance(v, Vec) or hasattr(v, "assoc"):
            raise Unsupported("back_inserter")
        return Opaque("back_inserter", vec=v)

    def f_transform(self, ex, a, n):
        if len(a) != 4:
            raise Unsupported("transform of two ranges")
        x, y = self.get_range(ex, a, n)
        d = ex.rv(a[2])
        if hasattr(x.vec, "assoc") or not isinstance(d, Iter) or d.rev or x.rev:
            raise Unsupported("transform")
        cnt = simplify(y.pos - x.pos)
        self.dest(ex, d, cnt, n)
        if d.vec is x.vec and not ex.quick(d.pos == x.pos):
            raise Unsupported("transform of overlapping ranges")
        z, t = self.lam_term(ex, ex.rv(a[3]), x.vec, n, sort=d.vec.desc.sort)
        N, k = ex.fresh("transformed", arrsort(d.vec.desc.sort)), Const("k!v", I)
        A, D = x.vec.arr, d.vec.arr
        ex.assume(ForAll([k], Select(N, k) == If(And(d.pos <= k, k < d.pos + cnt), z3.substitute(t, (z, Select(A, x.pos + (k - d.pos)))), Select(D, k)), patterns=[Select(N, k)]))
        self.write_array(ex, d.vec, N)
        return Iter(d.vec, simplify(d.pos + cnt))

    def f_equal(self, ex, a, n):
        its = [ex.rv(q) for q in a]
        if len(its) not in (3, 4) or not all(isinstance(i, Iter) and not i.rev and not hasattr(i.vec, "assoc") for i in its):
            raise Unsupported("std::equal")
        x, y, d = its[:3]
        self.range_ok(ex, x, y, n)
        cnt = simplify(y.pos - x.pos)
        same = BoolVal(True)
        if len(its) == 4:
            self.range_ok(ex, d, its[3], n)
            same = cnt == simplify(its[3].pos - d.pos)
            if not ex.branch(same):
                return BoolVal(False)
        else:
            self.valid(ex, d, n)
            ex.obl("range-in-bounds", And(d.pos >= 0, d.pos + cnt <= d.vec.len), n)
        s = x.vec.desc.sort
        if s != d.vec.desc.sort:
            raise Unsupported("std::equal of ranges of different types")
        if x.vec.kind in ("string", "cstr"):
            return MATCH(d.vec.arr, d.pos, x.vec.arr, x.pos, cnt)
        return sfn("EQA", s)(self.fromseq(ex, s, x.vec.arr, x.pos, cnt), self.fromseq(ex, s, d.vec.arr, d.pos, cnt), cnt)

    def f_count_if(self, ex, a, n):
        x, y = self.get_range(ex, a, n)
        if hasattr(x.vec, "assoc") or x.rev:
            raise Unsupported("count_if")
        z, p = self.lam_term(ex, ex.rv(a[2]), x.vec, n)
        s, A = x.vec.desc.sort, x.vec.arr
        if z3.is_eq(p):
            e = p.arg(1) if p.arg(0).eq(z) else p.arg(0) if p.arg(1).eq(z) else None
            if e is not None and not any(c.eq(z) for c in [e] + e.children()):
                return self.counted(ex, x, y, e)
        r, k, w = ex.fresh("counted"), Const("k!f", I), ex.fresh("witness")
        at = lambda t: z3.substitute(p, (z, t))
        ex.assume(r >= 0, r <= y.pos - x.pos, Implies(r == 0, ForAll([k], Implies(And(x.pos <= k, k < y.pos), Not(at(Select(A, k)))), patterns=[Select(A, k)])),
                  Implies(r > 0, And(x.pos <= w, w < y.pos, at(Select(A, w)))))
        return r

    def lam_term(self, ex, f, vec, n, bound=None, sort=B):
        """What the callable f answers for an arbitrary element x of vec: a term over x"""
        s = vec.desc.sort
        x = ex.fresh("elem", s)
        if bound is not None:
            ex.assume(bound(x))
        if isinstance(f, Opaque) and f.kind == "functor":
            return x, self.call_functor(ex, f, [Cell(ex, "elem", x, vec.desc.typ)], n)
        if not isinstance(f, Lambda):
            raise Unsupported("predicate")
        cell = Cell(ex, "elem", x, vec.desc.typ)
        res, before = None, dict(ex.freshc)
        for cs, facts, r in reversed(ex.joined(lambda: ex.load(ex.call_lambda(f, [cell], n)))):
            if sort == B:
                r = ex.tobool(r)
            if not z3.is_expr(r) or (sort is not None and r.sort() != sort):
                raise Unsupported("predicate")
            r, cs = self.over_elem(x, r, cs, facts, before)
            res = r if res is None else If(And(*cs), r, res)
        return x, res

    def over_elem(self, x, r, cs, facts, before):
        """What the calls in the callable's body say about their results (c = term) is put in place of those results."""
        subst = []
        parts = [c for g in facts for c in (g.children() if z3.is_and(g) else [g])]
        for c in parts:
            if z3.is_eq(c) and z3.is_const(c.arg(0)) and c.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED:
                subst.append((c.arg(0), c.arg(1)))
        for p in reversed(subst):
            r = z3.substitute(r, p)
            cs = [z3.substitute(c, p) for c in cs]
        consts, todo = set(), [r] + cs
        while todo:
            t = todo.pop()
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                consts.add(t.decl().name())
            todo += t.children()
        for nm in consts:
            b, _, k = nm.rpartition("!")
            if b and k.isdigit() and int(k) >= before.get(b, 0):
                raise Unsupported("a predicate whose value is not determined by its argument")
        for c in parts:
            if z3.is_eq(c) and z3.is_const(c.arg(0)) and c.arg(0).decl().name() in consts and not c.arg(0).eq(x):
                raise Unsupported("predicate with state")
        return r, cs

    def captured_elements(self, f, vec):
        """references into vec that the lambda f may read"""
        ids, todo = set(), [f.node] if isinstance(f, Lambda) else []
        while todo:
            t = todo.pop()
            if t.get("kind") == "DeclRefExpr":
                ids.add(t["referencedDecl"]["id"])
            todo += [c for c in t.get("inner") or [] if c]
        return [v for v in (f.frame.lookup(i) for i in ids) if isinstance(v, ElemRef) and v.vec is vec] if ids else []

    def kept_as(self, ex, f, vec, x, y, keep, n):
        """(kind, argument) of the filter that keeps the elements for which f answers `keep`"""
        z, r = self.lam_term(ex, f, vec, n)
        while z3.is_not(r):
            r, keep = r.arg(0), not keep
        if z3.is_eq(r) and not keep:
            e = r.arg(1) if r.arg(0).eq(z) else r.arg(0) if r.arg(1).eq(z) else None
            if e is not None and not any(c.eq(z) for c in [e] + e.children()):
                for ref in self.captured_elements(f, vec):
                    ex.obl("remove-value-aliases-range", Not(And(x.pos <= ref.idx, ref.idx < y.pos)), n)
                return "ne", e
        if keep and z3.is_app(r) and r.decl().name().startswith("PRED_") and r.arg(0).eq(z):
            return "pred", Const("PRED_Pred", I)
        raise Unsupported("filter predicate")

    def f_remove_if(self, ex, a, n):
        x, y = self.get_range(ex, a, n)
        kind, e = self.kept_as(ex, ex.rv(a[2]), x.vec, x, y, False, n)
        return self.filter_range(ex, x, y, kind, e, n)

    def f_erase(self, ex, a, n):
        """std::erase(container, value)"""
        v = vec_of(ex.loadptr(ex.ev(a[0])))
        if not isinstance(v, Vec) or hasattr(v, "assoc") or len(a) != 2:
            raise Unsupported("std::erase")
        ref = ex.ev(a[1])
        if isinstance(ref, ElemRef) and ref.vec is v:
            ex.obl("remove-value-aliases-range", BoolVal(False), n)
        return self.erase_filtered(ex, v, "ne", v.desc.term(ex, ex.load(ref)), n)

    def f_erase_if(self, ex, a, n):
        v = vec_of(ex.loadptr(ex.ev(a[0])))
        if hasattr(v, "assoc") and v.vsort is None:
            z, p = self.lam_term(ex, ex.rv(a[1]), v, n, lambda t: Select(v.mem, t))
            return self.prog.assoc.keep(ex, v, lambda k: Not(z3.substitute(p, (z, k))))
        if not isinstance(v, Vec) or hasattr(v, "assoc"):
            raise Unsupported("std::erase_if")
        kind, e = self.kept_as(ex, ex.rv(a[1]), v, Iter(v, IntVal(0)), Iter(v, v.len), False, n)
        return self.erase_filtered(ex, v, kind, e, n)

    def erase_filtered(self, ex, v, kind, e, n):
        old = v.len
        it = self.filter_range(ex, Iter(v, IntVal(0)), Iter(v, v.len), kind, e, n)
        v.set(ln=it.pos, structural=True)
        return simplify(old - it.pos)

    def quantified(self, ex, a, n, want):
        """-> (all elements of the range answer `want`, the range and predicate)"""
        f = ex.rv(a[2])
        x, y = ex.rv(a[0]), ex.rv(a[1])
        if not isinstance(x, Iter):
            raise Unsupported("range")
        self.range_ok(ex, x, y, n)
        v = x.vec
        r = ex.fresh("every", B)
        if hasattr(v, "assoc"):
            if v.vsort is not None or x.rev or not (ex.quick(x.pos == 0) and ex.quick(y.pos == v.len)):
                raise Unsupported("part of a set")
            z, p = self.lam_term(ex, f, v, n, lambda t: Select(v.mem, t))
            q = p if want else Not(p)
            w, k = ex.fresh("witness", v.ksort), Const("x!q", v.ksort)
            ex.assume(Implies(r, ForAll([k], Implies(Select(v.mem, k), z3.substitute(q, (z, k))), patterns=[Select(v.mem, k)])),
                      Implies(Not(r), And(Select(v.mem, w), Not(z3.substitute(q, (z, w))))))
            return r
        lo, hi = (y.pos, x.pos) if x.rev else (x.pos, y.pos)
        z, p = self.lam_term(ex, f, v, n)
        q = p if want else Not(p)
        w, k = ex.fresh("witness"), Const("k!q", I)
        ex.assume(Implies(r, ForAll([k], Implies(And(lo <= k, k < hi), z3.substitute(q, (z, Select(v.arr, k)))), patterns=[Select(v.arr, k)])),
                  Implies(Not(r), And(lo <= w, w < hi, Not(z3.substitute(q, (z, Select(v.arr, w)))))))
        return r

    def f_all_of(self, ex, a, n):
        return self.quantified(ex, a, n, True)

    def f_none_of(self, ex, a, n):
        return self.quantified(ex, a, n, False)

    def f_any_of(self, ex, a, n):
        return Not(self.quantified(ex, a, n, False))

    def pred_id(self, ex, p):
        if isinstance(p, Cell):
            p = p.val
        if isinstance(p, Opaque) and p.kind == "functor":
            return Const("PRED_" + p.name, I)
        raise Unsupported("predicate")

    def f_stable_sort(self, ex, a, n):
        x, y = self.get_range(ex, a, n)
        cmp = ex.rv(a[2]) if len(a) > 2 else None
        cid = self.cmp_id(ex, cmp, x.vec.desc.sort, n)
        v = x.vec
        s = v.desc.sort
        S = U("SORTED_" + str(s), arrsort(s), I, I, arrsort(s))
        if not ex.quick(x.pos == 0):
            raise Unsupported("sort of an inner range")
        N = ex.fresh("sorted", arrsort(s))
        k = Const("k!v", I)
        A = v.arr
        ex.assume(ForAll([k], Select(N, k) == If(And(0 <= k, k < y.pos), Select(S(A, y.pos, cid), k), Select(A, k)), patterns=[Select(N, k)]))
        self.write_array(ex, v, N)

    def cmp_id(self, ex, c, sort, n):
        if isinstance(c, Cell):
            c = c.val
        if c is None or (isinstance(c, Opaque) and c.kind == "less"):
            return Const("CMP_less", I)
        if isinstance(c, Opaque) and c.kind == "functor":
            return Const("CMP_" + c.name, I)
        if isinstance(c, Lambda):
            # a comparator written in place: it must be the order <
            s = sort
            x, y = ex.fresh("cmp.x", s), ex.fresh("cmp.y", s)
            t = str(s)
            r = ex.call_lambda(c, [Cell(ex, "cmp.x", x, t), Cell(ex, "cmp.y", y, t)], n)
            if z3.is_app(r) and r.num_args() == 2 and r.arg(0).eq(x) and r.arg(1).eq(y):
                nm = r.decl().name()
                if nm.startswith("CMP_") and nm.endswith("_" + str(s)):
                    return Const(nm[:-len(str(s)) - 1], I)     # the user's comparator, wrapped
            ex.obl("comparator-is-less", r == self.elem_cmp("<", x, y), n)
            return Const("CMP_less", I)
        raise Unsupported("comparator")

    def f_for_each(self, ex, a, n):
        x, y = ex.rv(a[0]), ex.rv(a[1])
        self.range_ok(ex, x, y, n)
        f = ex.rv(a[2])
        if isinstance(f, Opaque):
            if f.kind != "functor" or f.name != "Act" or x.rev:
                raise Unsupported("for_each")
            v = x.vec
            s = v.desc.sort
            N = ex.fresh("mapped", arrsort(s))
            k = Const("k!v", I)
            A = v.arr
            ex.assume(ForAll([k], Select(N, k) == If(And(x.pos <= k, k < y.pos), U("ACT_" + str(s), s, s)(Select(A, k)), Select(A, k)), patterns=[Select(N, k)]))
            self.write_array(ex, v, N)
            return f
        if hasattr(x.vec, "assoc"):
            r = self.prog.assoc.for_each(ex, x, y, f, n)
            if r is not NotImplemented:
                return r
        key = ex.frame.chain + str(n["id"])
        it = Cell(ex, ex.frame.chain + "__it", x, "iterator")
        ex.extra_objects.append(it)
        fr = ex.frame
        fr.vars["__it" + str(n["id"])] = it

        def body():
            ex.call_value(f, [self.iter_deref(ex, it.val, n)], n)
        ex.loop_core(key, n, lambda: self.compare_objs(ex, "!=", it.val, y), body, lambda: it.set(self.iter_add(ex, it.val, IntVal(1))), True)
        return f

    def call_opaque(self, ex, f, vals, n):
        if f.kind == "distribution":
            v = ex.fresh("random")
            ex.assume(f.lo <= v, v <= f.hi)
            return v
        if f.kind == "generator":
            return ex.fresh("gen")
        if f.kind == "hash":
            x = ex.load(vals[0])
            t = strip(f.of)
            if z3.is_expr(x):
                r = HASHR(x) if z3.is_real(x) else HASHI(ex.toint(x))
                ex.assume(r >= 0, r < (1 << 64))
                return r
            v = vec_of(x)
            if v is not None and v.kind == "string":
                r = HASHS(v.arr, v.len)
                ex.assume(r >= 0, r < (1 << 64))
                self.prog.hash_string(ex, v)
                return r
            raise Unsupported("hash of " + t)
        if f.kind == "functor":
            return self.call_functor(ex, f, vals, n)
        raise Unsupported("call of " + f.kind)

    def call_functor(self, ex, f, vals, n):
        """A user's callable: a predicate, an action that rewrites its argument, or a comparator."""
        xs = [ex.load(v) for v in vals]
        s = xs[0].sort()
        if f.name == "Act":
            vals[0].set(U("ACT_" + str(s), s, s)(xs[0]))
            return None
        if f.name == "Pred":
            return U("PRED_" + str(s), s, B)(xs[0])
        if len(xs) == 2:
            return U("CMP_" + f.name + "_" + str(s), s, s, B)(xs[0], xs[1])
        raise Unsupported("call of " + f.name)

    # ------------------------------------------------------------ bits
    def bitop(self, ex, op, a, b, typ):
        if is_int_value(simplify(a)) and is_int_value(simplify(b)):
            x, y = simplify(a).as_long(), simplify(b).as_long()
            return IntVal({"&": x & y, "|": x | y, "^": x ^ y, "<<": x << y, ">>": x >> y}[op])
        if op == "&" and is_int_value(simplify(b)):
            m = simplify(b).as_long()
            if m >= 0 and (m & (m + 1)) == 0:
                return a % (m + 1)
        if op == "&" and is_int_value(simplify(a)):
            return self.bitop(ex, op, b, a, typ)
        if op == "|":
            for x, y in ((a, b), (b, a)):
                for p in (10, 8, 16):
                    if ex.quick(And(x >= 0, x < (1 << p), y >= 0, y % (1 << p) == 0)):
                        return x + y
        if op in ("&", "|", "^") and ex.quick(And(a >= 0, a <= 1, b >= 0, b <= 1)):
            x, y = a == 1, b == 1
            return If({"&": And(x, y), "|": Or(x, y), "^": x != y}[op], IntVal(1), IntVal(0))
        if op in ("<<", ">>") and strip(typ) in ("int", "long") and is_int_value(simplify(b)) and 0 <= simplify(b).as_long() < 31:
            k = 1 << simplify(b).as_long()
            if op == ">>":
                return a / k
            lo, hi = irange(strip(typ))
            if ex.quick(And(a * k >= lo, a * k <= hi)):
                return a * k
        if op == "<=>":
            return If(a < b, IntVal(-1), If(a > b, IntVal(1), IntVal(0)))
        fn = {"^": BXOR, "&": BAND, "|": BOR, "<<": SHL, ">>": SHR}.get(op)
        if fn is None:
            raise Unsupported("operator " + op)
        r = fn(a, b)
        lo, hi = irange(strip(typ))
        ex.assume(r >= lo, r <= hi)
        return r

    def bitnot(self, ex, v, typ):
        t = strip(typ)
        if ITYPES[t][1]:
            return -v - 1
        return irange(t)[1] - v

    # ------------------------------------------------------------ hooks
    def override(self, ex, d, this, vals, n):
        c = d.get("_cls")
        cn = c.get("name") if c else None
        if cn in self.prog.opaque_types and d.get("name") in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>="):
            x, y = ex.load(this), ex.load(ex.loadptr(vals[0]))
            return self.elem_cmp(d["name"][8:], x, y)
        if cn in self.prog.functor_types and d.get("name") == "operator()":
            return self.call_opaque(ex, Opaque("functor", name=cn), vals, n)
        if d.get("name") == "operator<<" and cn is None and len(vals) == 2 and not Ast._hasbody(d):
            s = self.stream_of(ex, ex.loadptr(vals[0]))
            self.emit(ex, s, ex.load(vals[1]), "T", n)
            return s
        return self.prog.override(ex, d, this, vals, n)

    def elem_cmp(self, op, x, y):
        """comparison of elements of the uninterpreted type: == is identity, < an uninterpreted strict order"""
        if op == "==":
            return x == y
        if op == "!=":
            return x != y
        L = (lambda a, b: a < b) if x.sort() == I else U("LT_" + str(x.sort()), x.sort(), x.sort(), B)
        return {"<": lambda: L(x, y), ">": lambda: L(y, x), "<=": lambda: Not(L(y, x)), ">=": lambda: Not(L(x, y))}[op]()

    def bodyless(self, ex, d, this, vals, n):
        c = d.get("_cls")
        if d.get("name") == "operator==" and (d.get("explicitlyDefaulted") or d.get("isImplicit")):
            return self.struct_eq(ex, this, vals[0])
        raise Unsupported("function without a body: " + cppast.fname(d))

    def struct_eq(self, ex, a, b):
        b = ex.loadptr(b)
        fs = []
        for k in a.fields:
            x, y = a.fields[k], b.fields[k]
            if isinstance(x, Cell):
                fs.append(x.val == y.val)
            elif isinstance(x, Struct):
                fs.append(self.struct_eq(ex, x, y))
            else:
                fs.append(self.vec_eq(ex, x, y))
        return And(fs) if len(fs) != 1 else fs[0]

    def subscript(self, ex, p, i, n):
        if isinstance(p, Opaque) and p.kind == "init_list":
            i = simplify(i)
            if is_int_value(i):
                return p.items[i.as_long()]
        raise Unsupported("subscript")

    def deref(self, ex, p, n):
        raise Unsupported("dereference of " + type(p).__name__)


ORDERINGS = ("std::strong_ordering", "std::weak_ordering", "std::partial_ordering", "strong_ordering", "weak_ordering", "partial_ordering")


def less(sort, bytes_):
    """the order of the elements: characters of a string as unsigned bytes, integers as integers, others uninterpreted"""
    if sort == I:
        return (lambda x, y: x % 256 < y % 256) if bytes_ else (lambda x, y: x < y)
    return U("LT_" + str(sort), sort, sort, B)


def lex_cmp(sort, bytes_, a, n, b, m):
    """(the first position where neither precedes the other any more, the comparison -1/0/1, the facts that define the position)"""
    lt = less(sort, bytes_)
    A = z3.ArraySort(I, sort)
    d = U("LEXD_%s%s" % (sort, "_u" if bytes_ else ""), A, I, A, I, I)(a, n, b, m)
    k = z3.FreshConst(I, "k")
    eqv = lambda x, y: And(Not(lt(x, y)), Not(lt(y, x)))
    facts = [0 <= d, d <= n, d <= m,
             ForAll([k], Implies(And(0 <= k, k < d), eqv(Select(a, k), Select(b, k))), patterns=[Select(a, k), Select(b, k)]),
             Implies(And(d < n, d < m), Not(eqv(Select(a, d), Select(b, d))))]
    r = If(And(d < n, d < m), If(lt(Select(a, d), Select(b, d)), IntVal(-1), IntVal(1)), If(n < m, IntVal(-1), If(n > m, IntVal(1), IntVal(0))))
    return d, r, [Implies(And(n >= 0, m >= 0), f) for f in facts]


@T.lemma
def first_difference(sort, bytes_, a, n, b, m):
    """[def] LEXD: the first position at which one of two elements precedes the other, else the smaller length"""
    return And(lex_cmp(sort, bytes_, a, n, b, m)[2])


def cppast_move(ctor):
    c = ctor.replace("noexcept", "")
    return "&&" in c


def decode_literal(s):
    import ast as pyast
    body = s[s.index('"') + 1:s.rindex('"')]
    out = []
    i = 0
    bs = body.encode("latin-1", "replace") if False else body
    while i < len(body):
        c = body[i]
        if c != "\\":
            out += list(c.encode("utf-8"))
            i += 1
            continue
        d = body[i + 1]
        simple = {"n": 10, "t": 9, "r": 13, "0": 0, "\\": 92, '"': 34, "'": 39, "a": 7, "b": 8, "f": 12, "v": 11, "?": 63, "e": 27}
        if d == "x":
            j = i + 2
            while j < len(body) and body[j] in "0123456789abcdefABCDEF":
                j += 1
            out.append(int(body[i + 2:j], 16) & 255)
            i = j
        elif d in "01234567":
            j = i + 1
            while j < len(body) and j < i + 4 and body[j] in "01234567":
                j += 1
            out.append(int(body[i + 1:j], 8) & 255)
            i = j
        else:
            out.append(simple[d])
            i += 2
    return out
