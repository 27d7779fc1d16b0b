"""Symbolic executor: generates the proof obligations of one function of /repo from clang's AST.

Every path of the function is executed symbolically (loops are cut by their invariants, callees with
a contract are replaced by it, callees without one are executed in place).  C++ integers are
mathematical integers whose overflow is an obligation (signed) or wraps (unsigned).
"""
import z3
from z3 import (And, Or, Not, Implies, If, IntVal, RealVal, BoolVal, Int, Bool, Real, Const, Array, Select, Store,
                IntSort, BoolSort, RealSort, ArraySort, ToReal, ToInt, is_int_value, is_true, is_false, ForAll, simplify)
from . import cppast
from .cppast import qt, strip, is_ref, Ast

INT_MAX = 2147483647
INT_MIN = -2147483648
VLIM = 1 << 30

ITYPES = {
    "int": (32, True), "signed char": (8, True), "char": (8, True), "unsigned char": (8, False),
    "short": (16, True), "unsigned short": (16, False), "unsigned int": (32, False),
    "long": (64, True), "unsigned long": (64, False), "long long": (64, True),
    "unsigned long long": (64, False), "std::size_t": (64, False), "size_t": (64, False), "std::ptrdiff_t": (64, True),
    "size_type": (64, False), "difference_type": (64, True), "std::streamsize": (64, True),
}
FTYPES = ("double", "float", "long double")


class Unsupported(Exception):
    """The code uses a construct outside the executor's reach (an extraction break, not a violation)."""


class PathEnd(Exception):
    pass


class Restart(Exception):
    pass


class Thrown(Exception):
    def __init__(self, typ, node=None):
        self.typ, self.node = typ, node


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


UNINIT = object()


def irange(t):
    b, s = ITYPES[t]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


# ---------------------------------------------------------------- element descriptors
class Desc:
    def __init__(self, typ, sort, lo=None, hi=None):
        self.typ, self.sort, self.lo, self.hi = typ, sort, lo, hi
        self.cls = None

    def default(self, ex):
        if self.sort == IntSort():
            return IntVal(0)
        return Const("DEFAULT_" + str(self.sort), self.sort)

    def load(self, ex, t):
        return t

    def term(self, ex, v):
        return v


_opaque = {}


def opaque_sort(name):
    if name not in _opaque:
        _opaque[name] = z3.DeclareSort(name)
    return _opaque[name]


_StrV = z3.Datatype("StrV")
_StrV.declare("mkstr", ("chars", ArraySort(IntSort(), IntSort())), ("slen", IntSort()))
StrV = _StrV.create()


class StrDesc(Desc):
    def __init__(self, typ):
        Desc.__init__(self, typ, StrV)

    def default(self, ex):
        return StrV.mkstr(Const("NOCHARS", ArraySort(IntSort(), IntSort())), IntVal(0))

    def load(self, ex, t):
        s = ex.new_object(self.typ, "elem", init=False)
        v = vec_of(s)
        v.arr = simplify(StrV.chars(t))
        v.len = simplify(StrV.slen(t))
        ex.assume(v.len >= 0, v.len <= INT_MAX)
        if s is not v:
            s.frozen = True
        v.frozen = True
        return s

    def term(self, ex, v):
        if z3.is_expr(v):
            return v
        w = vec_of(v)
        return StrV.mkstr(w.arr, w.len)


# ---------------------------------------------------------------- storage
def const_write(o):
    """A field declared const may not change after its initialisation, whatever cast was used to reach it."""
    if getattr(o, "const_decl", False):
        o.ex.obl("write-to-const-object (%s)" % o.name, BoolVal(False), assume=False)


class Initialising:
    """The initialisation of the object o: the one write a const member may see."""

    def __init__(self, o):
        self.o = o
        self.was = getattr(o, "const_decl", False)

    def __enter__(self):
        if self.was:
            self.o.const_decl = False

    def __exit__(self, *a):
        if self.was:
            self.o.const_decl = True


class Cell:
    __slots__ = ("ex", "name", "val", "typ", "birth", "born_decl", "const_decl")

    def __init__(self, ex, name, val, typ):
        self.ex, self.name, self.val, self.typ = ex, name, val, typ
        self.birth = ex.nextbirth()

    def get(self):
        return self.val

    def set(self, v):
        const_write(self)
        self.ex.touch(self, "val")
        self.val = v


class Struct:
    def __init__(self, ex, cls, name):
        self.ex, self.cls, self.name = ex, cls, name
        self.birth = ex.nextbirth()
        self.fields = {}   # name -> Cell | Struct | Vec ...
        self.frozen = False

    def leaves(self):
        for f in self.fields.values():
            if isinstance(f, Struct):
                yield from f.leaves()
            else:
                yield f


class Vec:
    """std::vector / std::deque / std::string: elements arr[0..len)."""

    def __init__(self, ex, kind, desc, name, arr=None, ln=None):
        self.ex, self.kind, self.desc, self.name = ex, kind, desc, name
        self.birth = ex.nextbirth()
        self.arr = arr if arr is not None else Const("EMPTY_" + str(desc.sort), ArraySort(IntSort(), desc.sort))
        self.len = ln if ln is not None else IntVal(0)
        self.ver = 0
        self.frozen = False
        self.cstr = False

    def set(self, arr=None, ln=None, structural=None):
        if structural is None:
            structural = ln is not None
        if self.frozen:
            raise Unsupported("write through a read-only element view")
        const_write(self)
        self.ex.touch(self, "len" if structural else "arr")
        if structural:
            self.ver += 1
        if arr is not None:
            self.arr = arr
        if ln is not None:
            self.len = ln if z3.is_expr(ln) else IntVal(ln)


class ElemRef:
    def __init__(self, vec, idx, ver=None):
        self.vec, self.idx, self.ver = vec, idx, vec.ver if ver is None else ver

    def check(self, node=None):
        if self.ver != self.vec.ver:
            self.vec.ex.obl("dangling-reference", BoolVal(False), node)

    def get(self):
        self.check()
        return self.vec.ex.vload(self.vec, self.idx)

    def set(self, v):
        self.check()
        t = self.vec.desc.term(self.vec.ex, v)
        self.vec.set(arr=Store(self.vec.arr, self.idx, t), structural=False)


class Iter:
    """Iterator or pointer into a Vec; rev: reverse_iterator whose base() is pos."""

    def __init__(self, vec, pos, rev=False, ver=None):
        self.vec, self.pos, self.rev = vec, pos, rev
        self.ver = vec.ver if ver is None else ver


class NodeIter:
    pass


class Ptr:
    def __init__(self, lv):
        self.lv = lv


class SV:
    """std::string_view"""

    def __init__(self, vec, off, ln):
        self.vec, self.off, self.len = vec, off, ln
        self.arr = vec.arr


class Lambda:
    def __init__(self, node, frame):
        self.node, self.frame = node, frame


class FnRef:
    def __init__(self, decl):
        self.decl = decl


class Opaque:
    """A function-like or other object the executor knows only by name (predicates, actions, generators)."""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class Snap:
    """Value of an object at some moment."""

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class VSnap:
    def __init__(self, v):
        self.arr, self.len, self.desc, self.kind = v.arr, v.len, v.desc, v.kind
        self.out = getattr(v, "out", None)
        self.mem = getattr(v, "mem", None)
        self.mp = getattr(v, "mp", None)


class CSnap:
    def __init__(self, val):
        self.val = val


def snap(o):
    if isinstance(o, Struct):
        return Snap(o.cls, {k: snap(v) for k, v in o.fields.items()})
    if isinstance(o, Vec):
        if hasattr(o, "assoc"):
            from .assoc import AVSnap
            return AVSnap(o)
        return VSnap(o)
    if isinstance(o, (Cell, ElemRef)):
        return CSnap(o.get())
    return o


def vec_of(s):
    """The (first) sequence of an object or snapshot."""
    if isinstance(s, (Vec, VSnap, SV)):
        return s
    if isinstance(s, (Struct, Snap)):
        for f in s.fields.values():
            if isinstance(f, (Vec, VSnap)):
                return f
            if isinstance(f, (Struct, Snap)):
                r = vec_of(f)
                if r is not None:
                    return r
    return None


def scalars_of(s):
    return [f for f in s.fields.values() if isinstance(f, (Cell, CSnap))]


class Frame:
    def __init__(self, parent=None, this=None, fn=None, chain=""):
        self.vars, self.parent, self.this, self.fn, self.chain = {}, parent, this, fn, chain

    def lookup(self, did):
        f = self
        while f is not None:
            if did in f.vars:
                return f.vars[did]
            f = f.parent
        return None


class Obligation:
    __slots__ = ("fn", "kind", "line", "file", "hyps", "goal", "hints", "alias", "status", "solver", "time", "path", "group", "smt")

    def __init__(self, fn, kind, line, file, hyps, goal, hints, alias, path):
        self.fn, self.kind, self.line, self.file, self.hyps, self.goal, self.hints, self.alias, self.path = fn, kind, line, file, hyps, goal, hints, alias, path
        self.status = None
        self.solver = None
        self.time = 0.0
        self.group = None

    @property
    def name(self):
        return "%s%s:%s@%s:%s" % (self.fn, "[%s]" % self.alias if self.alias else "", self.kind, (self.file or "?").split("/")[-1], self.line)


class Exec:
    def __init__(self, prog, fn, contract, alias=None, log=None):
        self.prog, self.fn, self.contract, self.alias = prog, fn, contract, alias
        # double arithmetic is exact real arithmetic only in the functions whose contract says so
        self.reals = contract is not None and contract.reals
        self.ast = prog.ast
        self.modsets = {}
        self.settled = set()      # loops whose body has been run through once to see what it modifies
        self.obligations = []
        self.npaths = 0
        self.nframes = 0
        self.called = set()    # contracts used at call sites
        self.inlined = set()
        self.models = set()    # std models used (trusted)
        self.loops_used = {}
        self.loopindex = None
        self.maxpaths = 4000

    # ------------------------------------------------------------ path exploration
    def reset(self, prefix):
        self.pc = []
        self.hints = []
        self.prefix = prefix
        self.dpos = 0
        self.trace = []
        self.births = 0
        self.freshc = {}
        self.rnds = {}
        self.loopstack = []
        self.solver = None
        self.nasserted = 0
        self.divs = {}
        self.depth = 0
        self.frame = None
        self.callstack = []
        self.saved = []
        self.extra_objects = []
        self.local = None
        self.node = None
        self.statics = {}
        self.cur_line = None
        self.cur_file = None

    def nextbirth(self):
        self.births += 1
        return self.births

    def fresh(self, base, sort=None):
        sort = IntSort() if sort is None else sort
        k = self.freshc.get(base, 0)
        self.freshc[base] = k + 1
        return Const("%s!%d" % (base, k), sort)

    def assume(self, *fs):
        for f in fs:
            if f is None or (z3.is_expr(f) and is_true(f)):
                continue
            if f is True:
                continue
            self.pc.append(f)

    def framestack(self):
        return [f for f in reversed(self.saved) if f is not None]

    def live(self):
        return self.dpos >= len(self.prefix)

    def obl(self, kind, goal, node=None, assume=True):
        if goal is True:
            return
        goal = goal if z3.is_expr(goal) else BoolVal(bool(goal))
        if is_true(simplify(goal)):
            if not kind.startswith("ensures"):
                return
            goal = BoolVal(True)     # decided while it was generated
        if self.live():
            n = node or self.node
            ln = (n or {}).get("_line") or self.cur_line
            fl = (n or {}).get("_file") or self.cur_file
            self.obligations.append(Obligation(self.fnname, kind, ln, fl, list(self.pc), goal, list(self.hints), self.alias, list(self.trace)))
        if assume:
            self.pc.append(goal)

    @property
    def fnname(self):
        return self.contract.title if self.contract else cppast.fname(self.fn)

    def _sync(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set("timeout", 250)
            self.nasserted = 0
        while self.nasserted < len(self.pc):
            f = self.pc[self.nasserted]
            self.nasserted += 1
            if not has_quant(f):
                self.solver.add(f)

    def quick(self, f):
        """True if the path condition (without quantified facts) refutes `not f` quickly."""
        f = simplify(f)
        if is_true(f):
            return True
        if is_false(f):
            return False
        if has_quant(f):
            return False
        key = ("q", f.get_id(), len(self.pc), tuple(self.trace), self.localkey())
        c = self.prog.quickcache.get((id(self),) + key)
        if c is not None:
            return c[0]
        self._sync()
        self.solver.push()
        self.solver.add(Not(f))
        r = self.solver.check() == z3.unsat
        self.solver.pop()
        self.prog.quickcache[(id(self),) + key] = (r, f)
        return r

    def proved(self, f):
        """True if the path condition, with the theory of the specification functions, implies f."""
        if self.quick(f):
            return True
        key = ("p", f.get_id(), len(self.pc), tuple(self.trace), self.localkey())
        c = self.prog.quickcache.get((id(self),) + key)
        if c is not None:
            return c[0]
        from . import theory
        base = [x for x in self.pc] + [Not(f)]
        base += theory.Inst(base, theory.RULES).run(3)
        s = z3.Solver()
        s.set("timeout", 1500)
        s.add(*base)
        r = s.check() == z3.unsat
        self.prog.quickcache[(id(self),) + key] = (r, f)
        return r

    def possible(self, f):
        f = simplify(f)
        if is_true(f):
            return True
        if is_false(f):
            return False
        if has_quant(f):
            return True
        self._sync()
        self.solver.push()
        self.solver.add(f)
        r = self.solver.check() != z3.unsat
        self.solver.pop()
        return r

    def choose(self, conds):
        """conds: list of formulas (exhaustive). Returns the index taken on this path."""
        if self.local is not None:
            return self.choose_locally(conds)
        if self.dpos < len(self.prefix):
            k = self.prefix[self.dpos]
            self.dpos += 1
            self.trace.append(k)
            self.assume(conds[k])
            return k
        feas = [k for k, c in enumerate(conds) if self.possible(c)]
        if not feas:
            raise PathEnd()
        for k in feas[1:]:
            self.work.append(self.trace + [k])
        k = feas[0]
        # the chosen option becomes part of the (replayed) past
        self.prefix = self.trace + [k]
        self.dpos += 1
        self.trace.append(k)
        self.assume(conds[k])
        return k

    def localkey(self):
        return None if self.local is None else (self.local["nth"], tuple(self.local["trace"]))

    def choose_locally(self, conds):
        lo = self.local
        p = len(lo["trace"])
        if p < len(lo["prefix"]):
            k = lo["prefix"][p]
        else:
            feas = [k for k, c in enumerate(conds) if self.possible(c)]
            if not feas:
                raise PathEnd()
            for k in feas[1:]:
                lo["work"].append(lo["trace"] + [k])
            k = feas[0]
        lo["trace"].append(k)
        lo["taken"].append(len(self.pc))
        self.assume(conds[k])
        return k

    def joined(self, run):
        """Runs a computation without effects on what exists outside of it along all of its paths.
        -> [(the choices of the path, the other facts on it, value)]"""
        if self.local is not None:
            raise Unsupported("a computation with several paths within another")
        mark = {"key": object(), "mods": {}, "mark": self.births}
        base, out, work = list(self.pc), [], [[]]
        self.njoin = getattr(self, "njoin", 0) + 1
        self.loopstack.append(mark)
        state = (self.frame, self.depth, len(self.saved), len(self.callstack))
        try:
            while work:
                if len(out) > 32:
                    raise Unsupported("too many paths")
                self.local = {"prefix": work.pop(), "trace": [], "work": work, "taken": [], "nth": self.njoin}
                self.pc = list(base)
                self.solver, self.nasserted = None, 0
                try:
                    v = run()
                except PathEnd:
                    continue
                except Thrown:
                    raise Unsupported("a computation that throws on some of its paths")
                t = set(self.local["taken"])
                out.append(([self.pc[i] for i in sorted(t)], [self.pc[i] for i in range(len(base), len(self.pc)) if i not in t], v))
        finally:
            self.local = None
            self.loopstack.remove(mark)
            self.pc = base
            self.solver, self.nasserted = None, 0
            self.frame, self.depth = state[0], state[1]
            del self.saved[state[2]:], self.callstack[state[3]:]
        if mark["mods"]:
            raise Unsupported("a callable with effects")
        if not out:
            raise PathEnd()
        return out

    def branch(self, c):
        if c is True or c is False:
            return c
        c = simplify(c)
        if is_true(c):
            return True
        if is_false(c):
            return False
        return self.choose([c, Not(c)]) == 0

    def explore(self, run):
        """run() executes the function once along self.prefix."""
        for attempt in range(200):
            self.obligations = []
            self.work = [[]]
            self.npaths = self.nframes = 0
            try:
                while self.work:
                    prefix = self.work.pop()
                    self.reset(prefix)
                    self.npaths += 1
                    if self.npaths > self.maxpaths:
                        raise Unsupported("too many paths")
                    try:
                        run()
                    except PathEnd:
                        pass
                return
            except Restart:
                continue
        raise Unsupported("loop frame does not stabilise")

    # ------------------------------------------------------------ writes
    def touch(self, obj, what):
        for lp in self.loopstack:
            if obj.birth <= lp["mark"]:
                ms = lp["mods"]
                cur = ms.get(obj.name)
                if cur is None or (cur == "arr" and what == "len"):
                    ms[obj.name] = what
                    if lp["key"] in self.settled:
                        raise Restart()

    # ------------------------------------------------------------ objects
    def classnode(self, typ):
        return self.prog.classnode(typ)

    def desc(self, typ):
        return self.prog.desc(self, typ)

    def new_object(self, typ, name, init=True, symbolic=False):
        """Object of class type `typ`: default state (init) or fresh symbolic content."""
        return self.prog.models.new_object(self, typ, name, init, symbolic)

    def range_facts(self, v, typ):
        t = strip(typ)
        if t in ITYPES:
            lo, hi = irange(t)
            self.assume(v >= lo, v <= hi)

    def fresh_scalar(self, typ, name):
        t = strip(typ)
        if t == "bool":
            return self.fresh(name, BoolSort())
        if t in FTYPES:
            return self.fresh(name, RealSort())
        if t in ITYPES:
            v = self.fresh(name)
            self.range_facts(v, t)
            return v
        if self.prog.is_enum(t):
            v = self.fresh(name)
            vals = self.prog.enum_values(t)
            if vals:
                self.assume(Or([v == x for x in vals]))
            return v
        d = self.desc(t)
        if d is not None:
            return self.fresh(name, d.sort)
        raise Unsupported("scalar type " + typ)

    def vload(self, vec, idx):
        t = simplify(Select(vec.arr, idx)) if False else Select(vec.arr, idx)
        d = vec.desc
        if d.lo is not None:
            self.assume(t >= d.lo, t <= d.hi)
        return d.load(self, t)

    def load(self, lv):
        if isinstance(lv, (Cell, ElemRef)):
            v = lv.get()
            if v is UNINIT:
                self.obl("uninitialised-read", BoolVal(False))
                v = self.fresh_scalar(lv.typ, "uninit")
                lv.val = v
            return v
        return lv

    # ------------------------------------------------------------ arithmetic
    def toint(self, v):
        if isinstance(v, bool):
            return IntVal(1 if v else 0)
        if isinstance(v, int):
            return IntVal(v)
        if z3.is_bool(v):
            return If(v, IntVal(1), IntVal(0))
        return v

    def tobool(self, v):
        if isinstance(v, bool):
            return BoolVal(v)
        if z3.is_bool(v):
            return v
        if z3.is_arith(v):
            return v != 0
        raise Unsupported("boolean context of " + type(v).__name__)

    def conv(self, v, src, dst):
        s, d = strip(src), strip(dst)
        if d == "bool":
            return self.tobool(v)
        v = self.toint(v)
        if d in FTYPES:
            if d == "float":
                return self.prog.models.rnd(self, ToReal(v) if z3.is_int(v) else v, "float")
            return self.prog.models.rnd(self, ToReal(v)) if z3.is_int(v) else v
        if self.prog.is_enum(d):
            return v
        if d not in ITYPES:
            raise Unsupported("conversion to " + dst)
        if z3.is_real(v):
            x = simplify(v)
            if x.decl().kind() == z3.Z3_OP_TO_REAL:
                r = x.arg(0)
            else:
                r = If(x >= 0, ToInt(x), -ToInt(-x))
            lo, hi = irange(d)
            self.obl("float-to-int-range", And(r >= lo, r <= hi))
            return r
        lo, hi = irange(d)
        if s in ITYPES:
            slo, shi = irange(s)
            if slo >= lo and shi <= hi:
                return v
        if is_int_value(v):
            x = v.as_long()
            m = hi - lo + 1
            return IntVal((x - lo) % m + lo)
        if self.quick(And(v >= lo, v <= hi)):
            return v
        m = hi - lo + 1
        return (v - lo) % m + lo if lo else v % m

    def norm(self, r, typ, kind, node=None):
        """Result r of an arithmetic operation in type typ."""
        t = strip(typ)
        if t in FTYPES or z3.is_real(r):
            return r
        if t not in ITYPES:
            if self.prog.is_enum(t):
                return r
            raise Unsupported("arithmetic in " + typ)
        lo, hi = irange(t)
        if is_int_value(simplify(r)):
            r = simplify(r)
        if ITYPES[t][1]:
            self.obl("signed-overflow", And(r >= lo, r <= hi), node)
            return r
        if self.quick(And(r >= lo, r <= hi)):
            return r
        return r % (hi + 1)

    def quotient(self, a, b, floor=False):
        """Shared fresh quotient of a / b (truncating, or floor)."""
        a, b = simplify(a), simplify(b)
        if is_int_value(a) and is_int_value(b):
            x, y = a.as_long(), b.as_long()
            if y == 0:
                return IntVal(0)
            q = x // y
            if not floor and q < 0 and q * y != x:
                q += 1
            return IntVal(q)
        nn = self.quick(And(a >= 0, b > 0))
        key = (a.get_id(), b.get_id(), "f" if (nn or floor) else "t")
        if key in self.divs:
            return self.divs[key][0]
        if is_int_value(b) or floor:
            q = self.fresh("quot")
        else:
            from .theory import TDIV
            q = TDIV(a, b)
        r = a - b * q
        if nn or floor:
            if nn:
                self.assume(q >= 0, q <= a)
                self.assume(r >= 0, r < b)
            elif is_int_value(b):
                if b.as_long() > 0:
                    self.assume(r >= 0, r < b)
                else:
                    self.assume(r <= 0, r > b)
            else:
                self.assume(Implies(b > 0, And(r >= 0, r < b)), Implies(b < 0, And(r <= 0, r > b)))
        else:
            self.assume(Implies(b != 0, And(Implies(a >= 0, r >= 0), Implies(a <= 0, r <= 0),
                                            r < If(b >= 0, b, -b), r > If(b >= 0, -b, b))))
            self.assume(Implies(b != 0, And(q <= If(a >= 0, a, -a), q >= If(a >= 0, -a, a))))
            # sign of the quotient
            self.assume(Implies(Or(And(a >= 0, b > 0), And(a <= 0, b < 0)), q >= 0),
                        Implies(Or(And(a >= 0, b < 0), And(a <= 0, b > 0)), q <= 0))
        self.divs[key] = (q, a, b)
        return q

    def arith(self, op, a, b, typ, node=None):
        t = strip(typ)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return self.compare(op, a, b)
        if t == "bool":
            a, b = self.toint(a), self.toint(b)
            t = typ = "int"
        a, b = self.toint(a), self.toint(b)
        if t in FTYPES or z3.is_real(a) or z3.is_real(b):
            if z3.is_int(a):
                a = ToReal(a)
            if z3.is_int(b):
                b = ToReal(b)
            rnd = self.prog.models.rnd
            if op == "+":
                return rnd(self, a + b, t)
            if op == "-":
                return rnd(self, a - b, t)
            if op == "*":
                return rnd(self, a * b, t)
            if op == "/":
                return self.prog.models.fdiv(self, a, b, t)
            raise Unsupported("floating " + op)
        if op == "+":
            return self.norm(a + b, typ, op, node)
        if op == "-":
            return self.norm(a - b, typ, op, node)
        if op == "*":
            return self.norm(a * b, typ, op, node)
        if op in ("/", "%"):
            self.obl("division-by-zero", b != 0, node)
            if ITYPES.get(t, (0, False))[1]:
                lo, hi = irange(t)
                if not (is_int_value(b) and b.as_long() != -1):
                    self.obl("signed-overflow", Not(And(a == lo, b == -1)), node)
            q = self.quotient(a, b)
            return q if op == "/" else simplify(a - b * q, som=True) if False else a - b * q
        return self.prog.models.bitop(self, op, a, b, typ)

    def compare(self, op, a, b):
        if isinstance(a, (Iter, Ptr, SV, Vec)) or isinstance(b, (Iter, Ptr, SV, Vec)):
            return self.prog.models.compare_objs(self, op, a, b)
        if z3.is_bool(a) and z3.is_bool(b) and op in ("==", "!="):
            return a == b if op == "==" else a != b
        a, b = self.toint(a), self.toint(b)
        if z3.is_real(a) and z3.is_int(b):
            b = ToReal(b)
        if z3.is_real(b) and z3.is_int(a):
            a = ToReal(a)
        return {"<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b,
                "==": lambda: a == b, "!=": lambda: a != b}[op]()

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        """Evaluates to an lvalue object or to a value, as the expression's category says."""
        k = n["kind"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression " + k)
        old = self.node
        self.node = n
        if n.get("_line"):
            self.cur_line, self.cur_file = n["_line"], n.get("_file")
        try:
            return m(n)
        finally:
            self.node = old

    def rv(self, n):
        return self.load(self.ev(n))

    def inner(self, n):
        return [c for c in n.get("inner") or [] if c]

    def one(self, n):
        i = self.inner(n)
        return i[0]

    def e_pass(self, n):
        return self.ev(self.one(n))

    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ConstantExpr = e_pass
    e_SubstNonTypeTemplateParmExpr = e_pass
    e_CXXRewrittenBinaryOperator = e_pass
    e_FullExpr = e_pass

    def e_ConstantExpr(self, n):
        return self.ev(self.one(n))

    def e_SubstNonTypeTemplateParmExpr(self, n):
        return self.ev(self.inner(n)[-1])

    def e_MaterializeTemporaryExpr(self, n):
        v = self.ev(self.one(n))
        if isinstance(v, (Cell, ElemRef, Struct, Vec)):
            return v
        return Cell(self, self.tmpname(n), v, qt(n))

    def tmpname(self, n):
        return (self.frame.chain if self.frame else "") + "tmp" + str(n.get("id", ""))

    def e_IntegerLiteral(self, n):
        return IntVal(int(n["value"]))

    def e_CharacterLiteral(self, n):
        v = int(n["value"])
        return IntVal(v - 256 if v > 127 else v)

    def e_FloatingLiteral(self, n):
        return RealVal(n["value"])

    def e_CXXBoolLiteralExpr(self, n):
        return BoolVal(bool(n["value"]))

    def e_CXXNullPtrLiteralExpr(self, n):
        return Opaque("nullptr")

    def e_StringLiteral(self, n):
        return self.prog.models.string_literal(self, n)

    def e_CXXThisExpr(self, n):
        f = self.frame
        while f is not None and f.this is None:
            f = f.parent
        if f is None:
            raise Unsupported("this outside a member")
        return Ptr(f.this)

    def e_DeclRefExpr(self, n):
        d = n["referencedDecl"]
        if d["kind"] == "EnumConstantDecl":
            return IntVal(self.prog.enum_const(d))
        if d["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            return FnRef(n)
        v = self.frame.lookup(d["id"])
        if v is not None:
            return v
        return self.prog.global_var(self, d)

    def e_MemberExpr(self, n):
        base = self.ev(self.one(n))
        if n.get("isArrow"):
            base = self.load(base)
            base = self.deref(base, n)
        else:
            base = self.loadptr(base)
        nm = n.get("name")
        if isinstance(base, Struct):
            if nm in base.fields:
                return base.fields[nm]
            b = base
            while "__base" in b.fields:
                b = b.fields["__base"]
                if nm in b.fields:
                    return b.fields[nm]
            md = self.ast.byid.get(n.get("referencedMemberDecl"))
            if md is not None and md["kind"] == "VarDecl":
                return self.prog.global_var(self, md)
            raise Unsupported("member " + str(nm))
        return self.prog.models.member(self, base, nm, n)

    def loadptr(self, v):
        if isinstance(v, Cell) and not z3.is_expr(v.val):
            return v.val
        return v

    def deref(self, p, n):
        if isinstance(p, Ptr):
            return p.lv
        if isinstance(p, Iter):
            return self.prog.models.iter_deref(self, p, n)
        return self.prog.models.deref(self, p, n)

    def e_ImplicitCastExpr(self, n):
        ck = n.get("castKind")
        c = self.one(n)
        if ck == "LValueToRValue":
            return self.load(self.ev(c))
        if ck in ("NoOp", "FunctionToPointerDecay", "ConstructorConversion", "UserDefinedConversion", "BitCast", "Dependent"):
            return self.ev(c)
        if ck == "ArrayToPointerDecay":
            v = self.ev(c)
            if isinstance(v, Vec):
                return Iter(v, IntVal(0))
            return v
        if ck == "IntegralCast":
            return self.conv(self.rv(c), qt(c), qt(n))
        if ck == "IntegralToBoolean":
            return self.tobool(self.rv(c))
        if ck == "IntegralToFloating":
            v = self.toint(self.rv(c))
            t = strip(qt(n))
            return ToReal(v) if t == "long double" else self.prog.models.rnd(self, ToReal(v), t)
        if ck == "FloatingToIntegral":
            return self.conv(self.rv(c), qt(c), qt(n))
        if ck == "FloatingCast":
            v = self.rv(c)
            return self.prog.models.rnd(self, v, "float") if strip(qt(n)) == "float" and strip(qt(c)) != "float" else v
        if ck == "FloatingToBoolean":
            return self.rv(c) != 0
        if ck in ("DerivedToBase", "UncheckedDerivedToBase"):
            v = self.ev(c)
            return self.tobase(v, n)
        if ck == "PointerToBoolean":
            return BoolVal(True)
        if ck == "NullToPointer":
            return Opaque("nullptr")
        if ck == "ToVoid":
            self.ev(c)
            return None
        raise Unsupported("cast " + str(ck))

    e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_CXXStaticCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr

    def tobase(self, v, n):
        p = isinstance(v, Ptr)
        s = v.lv if p else v
        s = self.loadptr(s)
        if isinstance(s, Struct) and s.cls:
            if "__base" in s.fields:
                b = s.fields["__base"]
                return Ptr(b) if p else b
            return v
        return v   # std base classes

    def e_UnaryOperator(self, n):
        op = n["opcode"]
        c = self.one(n)
        if op == "&":
            v = self.ev(c)
            if isinstance(v, FnRef):
                return v
            if isinstance(v, ElemRef) and not hasattr(v, "key"):
                return Iter(v.vec, v.idx, ver=v.ver)
            return Ptr(v)
        if op == "*":
            return self.deref(self.rv(c), n)
        if op in ("++", "--"):
            lv = self.ev(c)
            old = self.load(lv)
            if isinstance(old, Iter):
                new = self.prog.models.iter_add(self, old, IntVal(1 if op == "++" else -1))
            else:
                new = self.arith("+" if op == "++" else "-", old, RealVal(1) if z3.is_real(old) else IntVal(1), "int" if strip(qt(c)) in ("signed char", "char", "unsigned char", "short", "unsigned short") else qt(c), n)
                new = self.conv(new, "int", qt(c)) if not z3.is_real(new) else new
            lv.set(new)
            return old if n.get("isPostfix") else lv
        v = self.rv(c)
        if op == "-":
            v = self.toint(v)
            if z3.is_real(v):
                return -v
            return self.norm(-v, qt(n), "-", n)
        if op == "+":
            return v
        if op == "!":
            return Not(self.tobool(v))
        if op == "~":
            return self.prog.models.bitnot(self, v, qt(n))
        raise Unsupported("unary " + op)

    def e_BinaryOperator(self, n):
        op = n["opcode"]
        a, b = self.inner(n)
        if op == "=":
            v = self.rv(b)
            lv = self.ev(a)
            lv = lv
            self.assign(lv, v, n)
            return lv
        if op == ",":
            self.ev(a)
            return self.ev(b)
        if op == "&&":
            x = self.tobool(self.rv(a))
            if not self.branch(x):
                return BoolVal(False)
            return self.tobool(self.rv(b))
        if op == "||":
            x = self.tobool(self.rv(a))
            if self.branch(x):
                return BoolVal(True)
            return self.tobool(self.rv(b))
        x = self.rv(a)
        y = self.rv(b)
        if isinstance(x, Iter) or isinstance(y, Iter):
            if op in ("+", "-"):
                return self.prog.models.iter_arith(self, op, x, y)
        return self.arith(op, x, y, qt(n), n)

    def e_CompoundAssignOperator(self, n):
        op = n["opcode"][:-1]
        a, b = self.inner(n)
        y = self.rv(b)
        lv = self.ev(a)
        x = self.load(lv)
        if isinstance(x, Iter):
            lv.set(self.prog.models.iter_arith(self, op, x, y))
            return lv
        ct = (n.get("computeLHSType") or {})
        ct = ct.get("desugaredQualType") or ct.get("qualType") or qt(n)
        rt = (n.get("computeResultType") or {})
        rt = rt.get("desugaredQualType") or rt.get("qualType") or ct
        if strip(ct) in FTYPES:
            x = self.conv(x, qt(a), ct) if not z3.is_real(x) else x
        elif not z3.is_real(x):
            x = self.conv(x, qt(a), ct)
        r = self.arith(op, x, y, rt, n)
        if not (z3.is_real(r) and strip(qt(a)) in FTYPES):
            r = self.conv(r, rt, qt(a))
        lv.set(r)
        return lv

    def assign(self, lv, v, n=None):
        if isinstance(lv, (Cell, ElemRef)):
            lv.set(v)
        elif isinstance(lv, Struct):
            self.copy_into(lv, v)
        elif isinstance(lv, Vec):
            self.prog.models.assign(self, lv, v)
        else:
            raise Unsupported("assignment to " + type(lv).__name__)

    def e_ConditionalOperator(self, n):
        c, a, b = self.inner(n)
        x = self.tobool(self.rv(c))
        if self.branch(x):
            return self.ev(a)
        return self.ev(b)

    def e_ArraySubscriptExpr(self, n):
        a, b = self.inner(n)
        p = self.rv(a)
        i = self.rv(b)
        if isinstance(p, Iter):
            return self.prog.models.iter_deref(self, Iter(p.vec, simplify(p.pos + i), p.rev, p.ver), n)
        return self.prog.models.subscript(self, p, i, n)

    def e_CXXDefaultArgExpr(self, n):
        return self.prog.default_arg(self, n)

    def e_CXXThrowExpr(self, n):
        i = self.inner(n)
        typ = qt(i[0]) if i else "rethrow"
        x = i[0] if i else {}
        while x.get("kind") in ("ExprWithCleanups", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr", "ImplicitCastExpr"):
            x = self.one(x)
        raise Thrown(strip(qt(x)) if x else typ, n)

    def e_LambdaExpr(self, n):
        return Lambda(n, self.frame)

    def e_UnaryExprOrTypeTraitExpr(self, n):
        raise Unsupported("sizeof")

    def e_SizeOfPackExpr(self, n):
        if "value" in n:
            return IntVal(int(n["value"]))
        fr = self.frame
        while fr is not None and fr.fn is None:
            fr = fr.parent
        r = self.prog.pack_size(fr.fn if fr else self.fn, n.get("name"))
        if r is None:
            raise Unsupported("sizeof...")
        return IntVal(r)

    def e_ImplicitValueInitExpr(self, n):
        return self.value_init(qt(n), self.tmpname(n))

    def e_CXXScalarValueInitExpr(self, n):
        if qt(n) == "void":
            return None
        return self.value_init(qt(n), self.tmpname(n))

    def value_init(self, typ, name):
        t = strip(typ)
        if t in ITYPES or self.prog.is_enum(t):
            return IntVal(0)
        if t == "bool":
            return BoolVal(False)
        if t in FTYPES:
            return RealVal(0)
        return self.new_object(t, name)

    def e_InitListExpr(self, n):
        return self.prog.models.init_list(self, n)

    def e_CXXStdInitializerListExpr(self, n):
        return self.ev(self.one(n))

    def e_CXXConstructExpr(self, n):
        return self.construct(n, qt(n), self.inner(n), (n.get("ctorType") or {}).get("qualType", ""))

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXFunctionalCastExpr(self, n):
        return self.e_ImplicitCastExpr(n)

    def construct(self, n, typ, args, ctor):
        t = strip(typ)
        cn = self.classnode(t)
        if cn is None:
            return self.prog.models.construct(self, t, args, ctor, n)
        return self.construct_class(n, t, cn, args, ctor)

    def ctor_of(self, cn, ctor):
        want = norm_sig(ctor)
        cands = [c for c in self.inner(cn) if c["kind"] == "CXXConstructorDecl"]
        for c in self.inner(cn):
            if c["kind"] == "FunctionTemplateDecl":
                cands += [x for x in self.inner(c)[1:] if x.get("kind") == "CXXConstructorDecl"]
        hit = [c for c in cands if norm_sig(cppast.fsig(c)) == want]
        if not hit:
            hit = [c for c in cands if norm_sig(cppast.fsig(c)).replace("pyincpp::", "") == want.replace("pyincpp::", "")]
        return hit[0] if hit else None

    def construct_class(self, n, t, cn, args, ctor):
        c = self.ctor_of(cn, ctor)
        if c is None:
            if not args:
                return self.new_object(t, self.tmpname(n))
            # implicit copy/move
            if len(args) == 1:
                o = self.new_object(t, self.tmpname(n), init=False)
                self.copy_into(o, self.ev(args[0]))
                return o
            raise Unsupported("constructor %s of %s" % (ctor, t))
        ps = Ast.params(c)
        implicit = c.get("isImplicit") or c.get("explicitlyDefaulted")
        if implicit and len(ps) == 1:
            src = self.loadptr(self.ev(args[0]))
            o = self.new_object(t, self.tmpname(n), init=False)
            self.copy_into(o, src, move=norm_sig(ctor).endswith("&&)"))
            return o
        if implicit and not ps:
            return self.new_object(t, self.tmpname(n))
        avals = self.bind_args(c, args)
        ct = self.prog.call_contract(c)
        if ct is not None and not (self.fn is c and not self.callstack):
            return self.apply_contract(ct, c, None, avals, n, t)
        o = self.new_object(t, self.tmpname(n), init=False)
        self.inlined.add(cppast.fname(c))
        self.call_body(c, o, avals, n)
        return o

    def copy_into(self, dst, src, move=False):
        src = self.loadptr(src)
        if isinstance(src, (Struct, Snap)):
            if dst is src:
                return
            for k, f in dst.fields.items():
                s = src.fields[k]
                if isinstance(f, Cell):
                    with Initialising(f):
                        f.set(s.val)
                elif isinstance(f, Struct):
                    self.copy_into(f, s, move)
                else:
                    with Initialising(f):
                        self.prog.models.assign(self, f, s, move=move)
            return
        if isinstance(dst, (Cell, ElemRef)) and isinstance(src, (Cell, ElemRef)) and z3.is_expr(src.get()):
            dst.set(src.get())      # an object of an opaque element type
            return
        raise Unsupported("copy from " + type(src).__name__)

    # ------------------------------------------------------------ calls
    def callee(self, n):
        """DeclRefExpr or MemberExpr of a call's callee."""
        c = self.inner(n)[0]
        while c["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            c = self.one(c)
        return c

    def bind_args(self, f, args):
        ps = Ast.params(f)
        out = []
        for i, a in enumerate(args):
            if a["kind"] == "CXXDefaultArgExpr":
                break
            out.append(self.ev(a))
        while len(out) < len(ps):
            out.append(self.prog.default_of(self, ps[len(out)]))
        return out

    def e_CallExpr(self, n):
        c = self.callee(n)
        args = self.inner(n)[1:]
        if c["kind"] == "DeclRefExpr" and c["referencedDecl"]["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            d = self.resolve(c["referencedDecl"]["id"])
            if d is not None:
                return self.invoke(d, None, args, n)
            return self.prog.models.call(self, c["referencedDecl"]["name"], args, n, c)
        f = self.rv(self.inner(n)[0])
        return self.call_value(f, [self.ev(a) for a in args], n)

    def resolve(self, did):
        d = self.ast.byid.get(did)
        if d is None:
            return None
        if not Ast._hasbody(d) and not d.get("isImplicit") and not d.get("explicitlyDefaulted"):
            # definition elsewhere?
            return d if d.get("_cls") is not None else d
        return d

    def call_value(self, f, vals, n):
        if isinstance(f, Cell):
            f = f.val
        if isinstance(f, Lambda):
            return self.call_lambda(f, vals, n)
        if isinstance(f, Opaque):
            return self.prog.models.call_opaque(self, f, vals, n)
        if isinstance(f, FnRef):
            d = self.resolve(f.decl["referencedDecl"]["id"])
            if d is not None:
                return self.call_body(d, None, vals, n)
        raise Unsupported("call of " + type(f).__name__)

    def call_lambda(self, lam, vals, n):
        rec = [c for c in self.inner(lam.node) if c["kind"] == "CXXRecordDecl"][0]
        op = None
        for c in self.inner(rec):
            if c["kind"] == "CXXMethodDecl" and c.get("name") == "operator()":
                op = c
            if c["kind"] == "FunctionTemplateDecl" and c.get("name") == "operator()":
                # instantiation with a body
                for x in self.inner(c)[1:]:
                    if x["kind"] == "CXXMethodDecl" and Ast._hasbody(x):
                        op = x
        if op is None:
            raise Unsupported("lambda")
        return self.call_body(op, None, vals, n, parent=lam.frame)

    def e_CXXMemberCallExpr(self, n):
        c = self.callee(n)
        args = self.inner(n)[1:]
        if c["kind"] != "MemberExpr":
            raise Unsupported("member call through " + c["kind"])
        base = self.ev(self.one(c))
        if c.get("isArrow"):
            base = self.deref(self.load(base), n)
        else:
            base = self.loadptr(base)
        d = self.resolve(c.get("referencedMemberDecl"))
        b0 = base.val if isinstance(base, Cell) else base
        if isinstance(b0, Lambda) and d is not None and d["kind"] == "CXXConversionDecl":
            return b0   # a captureless lambda as a function pointer
        if d is not None:
            return self.invoke(d, base, args, n)
        return self.prog.models.method(self, base, c.get("name"), args, n)

    def e_CXXOperatorCallExpr(self, n):
        c = self.callee(n)
        args = self.inner(n)[1:]
        if c["kind"] != "DeclRefExpr":
            raise Unsupported("operator call")
        d = self.resolve(c["referencedDecl"]["id"])
        name = c["referencedDecl"]["name"]
        if d is not None:
            if d["kind"] == "CXXMethodDecl" and name != "operator()" or (name == "operator()" and d.get("_cls") is not None and d["kind"] == "CXXMethodDecl"):
                if name in ("operator=",) or name.endswith("=") and name not in ("operator==", "operator!=", "operator<=", "operator>="):
                    # right operand first
                    vals = self.bind_args(d, args[1:])
                    base = self.loadptr(self.ev(args[0]))
                    return self.invoke_vals(d, base, vals, n)
                base = self.loadptr(self.ev(args[0]))
                if isinstance(base, Lambda):
                    return self.call_lambda(base, [self.ev(a) for a in args[1:]], n)
                return self.invoke(d, base, args[1:], n)
            return self.invoke(d, None, args, n)
        return self.prog.models.operator(self, name, args, n, c)

    def invoke(self, d, this, args, n):
        vals = self.bind_args(d, args)
        return self.invoke_vals(d, this, vals, n)

    def invoke_vals(self, d, this, vals, n):
        if d["kind"] == "CXXMethodDecl" and d.get("storageClass") == "static":
            this = None
        if d.get("name") == "operator=" and (d.get("isImplicit") or d.get("explicitlyDefaulted")):
            self.copy_into(this, vals[0], move=norm_sig(cppast.fsig(d)).split("(")[-1].endswith("&&)"))
            return this
        if isinstance(this, Lambda):
            return self.call_lambda(this, vals, n)
        h = self.prog.models.override(self, d, this, vals, n)
        if h is not NotImplemented:
            return h
        ct = self.prog.call_contract(d)
        if ct is not None:
            return self.apply_contract(ct, d, this, vals, n, None)
        if not Ast._hasbody(d):
            return self.prog.models.bodyless(self, d, this, vals, n)
        self.inlined.add(cppast.fname(d))
        return self.call_body(d, this, vals, n)

    def call_body(self, d, this, vals, n, parent=None):
        if self.depth > 24:
            raise Unsupported("recursion without a contract: " + cppast.fname(d))
        for cs in self.callstack:
            if cs is d:
                raise Unsupported("recursion without a contract: " + cppast.fname(d))
        self.callstack.append(d)
        self.depth += 1
        old = self.frame
        chain = (old.chain if old else "") + (str(n.get("id")) + "/" if n else "")
        fr = Frame(parent=parent, this=this, fn=d, chain=chain)
        self.saved.append(old)
        self.frame = fr
        rett = cppast.fsig(d).split("(")[0].strip()
        try:
            self.bind_params(d, vals, fr)
            if d["kind"] == "CXXConstructorDecl":
                self.ctor_inits(d, this)
            b = Ast.body(d)
            try:
                self.st(b)
            except Ret as r:
                return r.v
            return None
        finally:
            self.frame = old
            self.saved.pop()
            self.depth -= 1
            self.callstack.pop()

    def bind_params(self, d, vals, fr):
        for p, v in zip(Ast.params(d), vals):
            t = qt(p)
            if is_ref(t):
                if not isinstance(v, (Cell, ElemRef, Struct, Vec)) :
                    v = Cell(self, fr.chain + p.get("name", "arg"), v, t)
                fr.vars[p["id"]] = v
            else:
                v = self.load(v)
                if isinstance(v, (Struct, Vec)):
                    fr.vars[p["id"]] = v
                else:
                    fr.vars[p["id"]] = Cell(self, fr.chain + p.get("name", "arg"), v, t)

    def ctor_inits(self, d, this):
        for c in self.inner(d):
            if c["kind"] != "CXXCtorInitializer":
                continue
            i = self.inner(c)
            if "anyInit" in c:
                nm = c["anyInit"]["name"]
                f = this.fields[nm]
                if isinstance(f, Cell):
                    v = self.rv(i[0])
                    with Initialising(f):
                        f.set(v)
                else:
                    v = self.ev(i[0])
                    v = self.loadptr(v)
                    if isinstance(f, Struct):
                        self.copy_into(f, v)
                    else:
                        with Initialising(f):
                            self.prog.models.assign(self, f, v, move=True, fresh=True)
            elif "baseInit" in c:
                v = self.ev(i[0])
                if "__base" in this.fields:
                    self.copy_into(this.fields["__base"], v)
            elif "delegatingInit" in c:
                v = self.ev(i[0])
                self.copy_into(this, v)
            else:
                v = self.ev(i[0])

    # ------------------------------------------------------------ contracts at call sites
    def apply_contract(self, ct, d, this, vals, n, ctype):
        self.called.add(ct.title)
        env = CallEnv(self, ct, d, this, vals, n, ctype)
        return env.apply()

    # ------------------------------------------------------------ statements
    def st(self, n):
        k = n["kind"]
        m = getattr(self, "s_" + k, None)
        old = self.node
        self.node = n
        if n.get("_line"):
            self.cur_line, self.cur_file = n["_line"], n.get("_file")
        try:
            if m is not None:
                m(n)
            else:
                self.ev(n)
        finally:
            self.node = old

    def s_CompoundStmt(self, n):
        for c in self.inner(n):
            self.st(c)

    def s_NullStmt(self, n):
        pass

    def s_AttributedStmt(self, n):
        self.st(self.inner(n)[-1])

    def s_DeclStmt(self, n):
        for v in self.inner(n):
            if v["kind"] == "VarDecl":
                self.vardecl(v)
            elif v["kind"] in ("TypedefDecl", "TypeAliasDecl", "StaticAssertDecl", "UsingDecl", "CXXRecordDecl", "EnumDecl", "EmptyDecl", "UsingDirectiveDecl"):
                pass
            elif v["kind"] == "DecompositionDecl":
                self.bindings(v)
            else:
                raise Unsupported("declaration " + v["kind"])

    def bindings(self, v):
        """auto [a, b] = a pair"""
        init = [c for c in self.inner(v) if c["kind"] != "BindingDecl" and not c["kind"].endswith("Attr")]
        bs = [c for c in self.inner(v) if c["kind"] == "BindingDecl"]
        if len(bs) != 2 or len(init) != 1:
            raise Unsupported("structured binding")
        b = self.ev(init[0])
        byref = is_ref(qt(v))
        for d, nm in zip(bs, ("first", "second")):
            x = self.prog.assoc.member(self, b, nm, init[0])
            if x is NotImplemented:
                raise Unsupported("structured binding")
            if not byref:
                x = self.load(x)
            if not isinstance(x, (Cell, ElemRef, Struct, Vec)):
                x = Cell(self, self.frame.chain + d.get("name", nm), x, qt(d))
            for c in [d] + [c for c in self.inner(d) if c["kind"] == "VarDecl"]:
                self.frame.vars[c["id"]] = x

    def vardecl(self, v):
        init = [c for c in self.inner(v) if not c["kind"].endswith("Attr") and not c["kind"].endswith("Comment")]
        t = qt(v)
        name = self.frame.chain + v.get("name", "_")
        if v.get("storageClass") == "static" and not is_constexprish(v):
            if not (t.startswith("const ") or "*const" in t or "const char *" in t):
                raise Unsupported("static local variable")
        if is_ref(t):
            lv = self.ev(init[0])
            if not isinstance(lv, (Cell, ElemRef, Struct, Vec)):
                lv = Cell(self, name, lv, t)
            self.frame.vars[v["id"]] = lv
            return
        if not init or not v.get("init"):
            ts = strip(t)
            if ts in ITYPES or ts in FTYPES or ts == "bool" or self.prog.is_enum(ts):
                self.frame.vars[v["id"]] = Cell(self, name, UNINIT, ts)
                return
            if init:
                val = self.ev(init[0])
            else:
                val = self.new_object(t, name)
        else:
            val = self.ev(init[0])
        val = self.load(val)
        if isinstance(val, (Struct, Vec)):
            val.name = name
            if isinstance(val, Struct):
                rename(val, name)
            self.frame.vars[v["id"]] = val
        else:
            self.frame.vars[v["id"]] = Cell(self, name, val, t)

    def s_ReturnStmt(self, n):
        i = self.inner(n)
        if not i:
            raise Ret(None)
        fn = self.frame.fn
        v = self.ev(i[0])
        if i[0].get("valueCategory") in ("lvalue", "xvalue"):
            rt = cppast.fsig(fn)
            raise Ret(v)
        raise Ret(v)

    def s_IfStmt(self, n):
        i = self.inner(n)
        k = 0
        if n.get("hasInit"):
            self.st(i[k])
            k += 1
        if n.get("hasVar"):
            self.st(i[k])
            k += 1
        cond = i[k]
        if n.get("isConstexpr") and cond["kind"] == "ConstantExpr" and "value" in cond:
            c = cond["value"] not in ("0", "false", False)
        else:
            c = self.branch(self.tobool(self.rv(cond)))
        if c:
            self.st(i[k + 1])
        elif n.get("hasElse"):
            self.st(i[k + 2])

    def s_BreakStmt(self, n):
        raise Brk()

    def s_ContinueStmt(self, n):
        raise Cont()

    def s_WhileStmt(self, n):
        i = self.inner(n)
        if n.get("hasVar"):
            var, cond, body = i
            self.loop(n, lambda: (self.st(var), self.tobool(self.rv(cond)))[1], lambda: self.st(body), None)
            return
        cond, body = i
        self.loop(n, lambda: self.tobool(self.rv(cond)), lambda: self.st(body), None)

    def s_DoStmt(self, n):
        body, cond = self.inner(n)
        if self.reading(n).kind == "head":
            # do S while(c): the loop that starts with S and ends after it when c does not hold
            def once():
                try:
                    self.st(body)
                except Cont:
                    pass
                if not self.branch(self.tobool(self.rv(cond))):
                    raise Brk()
            self.loop(n, lambda: BoolVal(True), once, None)
            return
        # do S while(c): executed as the first S followed by while(c) S
        try:
            self.st(body)
        except Cont:
            pass
        except Brk:
            return
        self.loop(n, lambda: self.tobool(self.rv(cond)), lambda: self.st(body), None)

    def s_ForStmt(self, n):
        i = n["inner"]
        init, var, cond, inc, body = i
        if init:
            self.st(init)
        self.loop(n, (lambda: self.tobool(self.rv(cond))) if cond and cond.get("kind") else (lambda: BoolVal(True)),
                  lambda: self.st(body) if body and body.get("kind") else None,
                  (lambda: self.ev(inc)) if inc and inc.get("kind") else None)

    def s_CXXForRangeStmt(self, n):
        i = n["inner"]
        init, rng, beg, end, cond, inc, var, body = i
        if init and init.get("kind"):
            self.st(init)
        self.st(rng)
        rv = self.inner(rng)[0]
        r = self.frame.vars.get(rv["id"])
        items = r.get() if isinstance(r, Cell) else r
        if isinstance(items, Opaque) and items.kind == "init_list":
            return self.unroll(items.items, self.inner(var)[0], body)
        self.st(beg)
        self.st(end)

        def b():
            self.st(var)
            self.st(body)
        self.loop(n, lambda: self.tobool(self.rv(cond)), b, lambda: self.ev(inc), ranged=True)

    def unroll(self, items, v, body):
        """range-for over a braced list: its elements are known, so the body is executed once for each"""
        if len(items) > 40:
            raise Unsupported("long braced list in a range-for")
        t = qt(v)
        for x in items:
            if isinstance(x, (Struct, Vec)) and not (is_ref(t) and t.startswith("const ")):
                raise Unsupported("range-for copying class objects out of a braced list")
            self.frame.vars[v["id"]] = x if isinstance(x, (Struct, Vec)) else Cell(self, self.frame.chain + v.get("name", "_"), x, t)
            try:
                self.st(body)
            except Cont:
                pass
            except Brk:
                return

    def s_SwitchStmt(self, n):
        i = self.inner(n)
        cond, body = i[-2], i[-1]
        v = self.toint(self.rv(cond))
        # flatten: list of (labels, stmt)
        seq = []

        def flat(s, labels):
            if s["kind"] == "CaseStmt":
                ii = self.inner(s)
                c = self.rv(ii[0])
                flat(ii[-1], labels + [c])
            elif s["kind"] == "DefaultStmt":
                flat(self.inner(s)[-1], labels + ["default"])
            else:
                seq.append((labels, s))
        for s in self.inner(body) if body["kind"] == "CompoundStmt" else [body]:
            flat(s, [])
        entries = []
        consts = []
        dflt = None
        for k, (labels, s) in enumerate(seq):
            for l in labels:
                if isinstance(l, str):
                    dflt = k
                else:
                    consts.append(l)
                    entries.append((v == l, k))
        # cases that lead to the same statement are one option
        opts = {}
        for c, k in entries:
            opts.setdefault(k, []).append(c)
        ks = sorted(opts)
        conds = [Or(opts[k]) for k in ks]
        conds.append(And([v != c for c in consts]))
        k = self.choose(conds)
        start = ks[k] if k < len(ks) else (dflt if dflt is not None else None)
        if start is None:
            return
        try:
            for labels, s in seq[start:]:
                self.st(s)
        except Brk:
            pass

    def s_CXXTryStmt(self, n):
        raise Unsupported("try")

    # ------------------------------------------------------------ loops
    def reading(self, node):
        """How the annotation of this loop is read (see readings.py)."""
        idx = self.prog.loop_index(self, self.frame.chain + str(node["id"]))
        return self.prog.readings.get((self.fn["id"], idx), READ0)

    def loop(self, node, cond, body, inc, ranged=False):
        key = self.frame.chain + str(node["id"])
        return self.loop_core(key, node, cond, body, inc, ranged)

    def loop_core(self, key, node, cond, body, inc, ranged=False):
        if self.local is not None:
            raise Unsupported("a loop in a callable")
        if key in self.settled:
            return self.loop_cut(key, node, cond, body, inc, ranged)
        # the first pass over a loop only finds out what it modifies (and so which variables play which role)
        try:
            self.loop_cut(key, node, cond, body, inc, ranged)
        except (PathEnd, Brk, Cont, Ret, Thrown):
            if key not in self.modsets:
                raise
        if key in self.modsets:
            self.settled.add(key)
            raise Restart()

    def loop_cut(self, key, node, cond, body, inc, ranged=False):
        idx = self.prog.loop_index(self, key)
        spec = self.prog.loop_spec(self.contract, self.fn, idx)
        if spec is None:
            # no invariant: only loops whose condition is decided concretely can be executed
            for _ in range(80):
                c = simplify(cond())
                if is_false(c):
                    return
                if not is_true(c):
                    if self.quick(c):
                        pass
                    elif self.quick(Not(c)):
                        return
                    else:
                        raise Unsupported("loop without invariant at line %s" % node.get("_line"))
                try:
                    body()
                except Brk:
                    return
                except Cont:
                    pass
                if inc:
                    inc()
            raise Unsupported("loop without invariant at line %s" % node.get("_line"))
        self.loops_used[idx] = node.get("_line")
        mods = self.modsets.setdefault(key, {})
        L = LoopView(self, spec, key, node)
        L.outer = self.loopstack[-1]["L"] if self.loopstack else None
        L.capture_entry(mods)
        self.hints.extend(spec.entry_hints(L))
        for nm, f in spec.inv(L):
            self.obl("loop%d-invariant-entry(%s)" % (idx, nm), f, node, assume=key in self.settled)
        # cut
        mark = self.births
        L.havoc(mods)
        invs = spec.inv(L)
        for nm, f in invs if key in self.settled else []:
            self.assume(f)
        self.hints.extend(spec.hints(L))
        info = dict(key=key, mark=mark, mods=mods, L=L)
        self.loopstack.append(info)
        var0 = spec.variant(L)
        out = False
        try:
            c = cond()
            if self.branch(c):
                try:
                    body()
                except Cont:
                    pass
                except Brk:
                    out = True
                if not out:
                    if inc:
                        inc()
            else:
                out = True
        finally:
            if info in self.loopstack:
                self.loopstack.remove(info)
        if out:
            self.hints.extend(spec.exit_hints(L))
            return
        self.hints.extend(spec.step_hints(L))
        goals = list(spec.inv(L))
        for nm, f in goals:
            self.obl("loop%d-invariant-preserved(%s)" % (idx, nm), f, node, assume=False)
        if var0 is not None:
            var1 = spec.variant(L)
            if isinstance(var0, tuple):
                # lexicographic
                g = BoolVal(False)
                eq = BoolVal(True)
                for a, b in zip(var0, var1):
                    g = Or(g, And(eq, b < a, a >= 0))
                    eq = And(eq, a == b)
                self.obl("loop%d-terminates" % idx, g, node)
            else:
                self.obl("loop%d-terminates" % idx, And(var1 < var0, var0 >= 0), node)
        raise PathEnd()


def rename(s, name):
    s.name = name
    for k, f in s.fields.items():
        if isinstance(f, Struct):
            rename(f, name + "." + k)
        else:
            f.name = name + "." + k


def is_constexprish(v):
    return v.get("constexpr")


def norm_sig(s):
    s = s.replace("noexcept", "").replace("pyincpp::", "").replace(" ", "")
    return s


_hq = {}


def has_quant(f):
    i = f.get_id()
    r = _hq.get(i)
    if r is not None and r[1].eq(f):
        return r[0]
    st, seen, res = [f], set(), False
    while st:
        x = st.pop()
        if z3.is_quantifier(x):
            res = True
            break
        h = x.get_id()
        if h in seen:
            continue
        seen.add(h)
        st.extend(x.children())
    _hq[i] = (res, f)
    return res


class Reading:
    """A way to read the counters of a loop annotation: off: counter + d; rev: bound - counter; perm: another
    assignment of the annotation's names to renamed variables; head: a do loop cut before its first iteration."""

    def __init__(self, kind=None, role=None, arg=0):
        self.kind, self.role, self.arg = kind, role, arg

    def __repr__(self):
        return "%s(%s,%s)" % (self.kind, self.role, self.arg)


READ0 = Reading()


class LoopView:
    """What a loop invariant may talk about: modified variables by role, their entry values, the operands."""

    def __init__(self, ex, spec, key, node):
        self.ex, self.spec, self.key, self.node = ex, spec, key, node
        self.entry = {}
        self.env = ex.env
        idx = ex.prog.loop_index(ex, key)
        self.idx = idx
        self.reading = ex.prog.readings.get((ex.fn["id"], idx), READ0)
        self.log = ex.prog.role_log.setdefault((ex.fn["id"], idx), [])
        self.cur = 0
        self.used = set()

    def objects(self):
        """All named leaves visible: name -> leaf"""
        res = {}

        def add(o):
            if isinstance(o, Struct):
                for l in o.fields.values():
                    add(l)
            elif isinstance(o, (Cell, Vec)):
                res[o.name] = o
        f = self.ex.frame
        frames = []
        seen = set()

        def fr(f):
            while f is not None and id(f) not in seen:
                seen.add(id(f))
                frames.append(f)
                f = f.parent
        fr(f)
        for g in self.ex.framestack():
            fr(g)
        for g in frames:
            for v in g.vars.values():
                add(v)
                if isinstance(v, Cell) and isinstance(v.val, Ptr):
                    add(v.val.lv)
                if isinstance(v, Cell) and isinstance(v.val, Iter):
                    add(v.val.vec)
                if isinstance(v, Cell) and isinstance(v.val, Lambda):
                    pass
                if isinstance(v, ElemRef):
                    add(v.vec)
            if g.this is not None:
                add(g.this)
        for o in self.ex.extra_objects:
            add(o)
        for o in (self.env.this, *self.env.args):
            if o is not None:
                add(o)
        return res

    def capture_entry(self, mods):
        obs = self.objects()
        self.leaves = obs
        self.mods = mods
        for nm, o in obs.items():
            self.entry[nm] = snap(o)

    def havoc(self, mods):
        ex = self.ex
        obs = self.leaves
        for nm in sorted(mods):
            o = obs.get(nm)
            if o is None:
                raise Unsupported("loop modifies an object the invariant cannot name: " + nm)
            short = nm.split("/")[-1]
            if isinstance(o, Cell):
                v = o.val
                if isinstance(v, Iter):
                    o.val = Iter(v.vec, ex.fresh(short), v.rev, v.ver)
                elif v is UNINIT:
                    o.val = ex.fresh_scalar(o.typ, short)
                elif z3.is_expr(v):
                    if v.sort() == IntSort() and strip(o.typ) in ITYPES:
                        o.val = ex.fresh_scalar(o.typ, short)
                    else:
                        o.val = ex.fresh(short, v.sort())
                elif isinstance(v, SV):
                    nv = SV(v.vec, ex.fresh(short + ".off"), ex.fresh(short + ".len"))
                    nv.arr = v.arr
                    ex.assume(nv.off >= 0, nv.len >= 0)
                    o.val = nv
                elif isinstance(v, Opaque):
                    pass
                else:
                    raise Unsupported("loop modifies " + type(v).__name__)
            elif isinstance(o, Vec):
                ex.prog.models.havoc_vec(ex, o, short, mods[nm])
        # iterators into structurally modified vectors
        for nm in mods:
            o = obs.get(nm)
            if isinstance(o, Vec) and mods[nm] == "len":
                o.ver += 1

    # roles -------------------------------------------------------
    @property
    def this(self):
        return self.env.this

    @property
    def args(self):
        return self.env.args

    @property
    def old(self):
        return self.env.old

    def pre(self, o):
        """Entry value of an object or cell."""
        return self.entry_of(o)

    def entry_of(self, o):
        if isinstance(o, Struct):
            return Snap(o.cls, {k: self.entry_of(f) for k, f in o.fields.items()})
        return self.entry[o.name]

    def mod_cells(self, pred=None):
        cs = [o for nm, o in self.leaves.items() if nm in self.mods and isinstance(o, Cell) and (pred is None or pred(o))]
        return sorted(cs, key=lambda o: o.birth)

    def _owned(self, o):
        """fields of this / parameters are not local counters"""
        for r in (self.env.this, *self.env.args):
            if isinstance(r, Struct) and any(l is o for l in r.leaves()):
                return True
        return "." in o.name.split("/")[-1]

    def cell(self, name):
        """local variable by name"""
        for nm, o in self.leaves.items():
            if nm.split("/")[-1] == name:
                return o
        return None

    def role(self, key):
        self.cur = key
        if key not in self.log:
            self.log.append(key)

    def renamed(self, name):
        """the variable that plays the role of `name` where no variable has that name"""
        known = [x for x in self.log if isinstance(x, str)]
        missing = [x for x in known if not isinstance(self.cell(x), Cell)]
        cs = self.mod_cells(lambda o: not self._owned(o) and o.name.split("/")[-1] not in known and (isinstance(o.val, Iter) or o.val is UNINIT or (z3.is_expr(o.val) and o.val.sort() == IntSort())))
        cs.sort(key=lambda o: isinstance(o.val, Iter))
        j = missing.index(name)
        import itertools
        ps = list(itertools.islice(itertools.permutations(range(len(cs)), min(len(missing), len(cs))), 24))
        self.ex.prog.perm_log[(self.ex.fn["id"], self.idx)] = len(ps)
        if self.reading.kind == "perm":
            if self.reading.arg < len(ps) and j < len(ps[self.reading.arg]):
                return cs[ps[self.reading.arg][j]]
        return cs[j] if j < len(cs) else None

    def ctr(self, k=0, name=None):
        """k-th modified integer (or iterator) local: the loop counter role."""
        self.role(name if name is not None else k)
        if name is not None:
            o = self.cell(name)
            if not isinstance(o, Cell):
                o = self.renamed(name)
            if o is not None:
                return self.cval(o)
        cs = self.mod_cells(lambda o: not self._owned(o) and (isinstance(o.val, Iter) or (z3.is_expr(o.val) and o.val.sort() == IntSort()) or o.val is UNINIT))
        if k >= len(cs):
            # a modified counter may be unknown on the first pass
            cs2 = [o for o in self.leaves.values() if isinstance(o, Cell) and not self._owned(o) and (isinstance(o.val, Iter) or (z3.is_expr(o.val) and o.val.sort() == IntSort()))]
            cs2 = sorted(cs2, key=lambda o: -o.birth)
            if not cs2:
                raise Unsupported("loop has no counter")
            return self.cval(cs2[0])
        return self.cval(cs[k])

    def ctr_cell(self, k=0):
        self.role(k)
        cs = self.mod_cells(lambda o: not self._owned(o) and (isinstance(o.val, Iter) or (z3.is_expr(o.val) and o.val.sort() == IntSort())))
        if k < len(cs):
            return cs[k]
        cs2 = [o for o in self.leaves.values() if isinstance(o, Cell) and not self._owned(o) and (isinstance(o.val, Iter) or (z3.is_expr(o.val) and o.val.sort() == IntSort()))]
        cs2 = sorted(cs2, key=lambda o: -o.birth)
        if not cs2:
            raise Unsupported("loop has no counter")
        return cs2[0]

    def ctr_named(self, name):
        """modified integer local called `name`, else the youngest one"""
        self.role(name)
        o = self.cell(name)
        if isinstance(o, Cell) and z3.is_expr(o.val):
            return self.cval(o)
        cs = self.mod_cells(lambda o: not self._owned(o) and z3.is_expr(o.val) and o.val.sort() == IntSort())
        if not cs:
            return self.ctr()
        return self.cval(cs[-1])

    def ctr_pos(self, k=0):
        """position of the k-th iterator local"""
        self.role(k)
        cs = sorted([o for o in self.leaves.values() if isinstance(o, Cell) and isinstance(o.val, Iter) and (o.name in self.mods or not self.mods)], key=lambda o: o.birth)
        if not cs:
            cs = sorted([o for o in self.leaves.values() if isinstance(o, Cell) and isinstance(o.val, Iter)], key=lambda o: o.birth)
        if k >= len(cs):
            return self.ctr(k)          # an index instead of an iterator
        return self.read(cs[k].val.pos, cs[k])

    def var_other(self, name, other):
        """the modified integer local called `name`, else one that is not `other`"""
        self.role(name)
        o = self.cell(name)
        if isinstance(o, Cell) and z3.is_expr(o.val):
            return self.cval(o)
        for o in self.leaves.values():
            if isinstance(o, Cell) and not self._owned(o) and z3.is_expr(o.val) and o.val.sort() == IntSort() and o.name not in self.used:
                return self.cval(o)
        raise Unsupported("no local variable in the role of " + name)

    def outer_ctr(self, k=0):
        if self.outer is None:
            raise Unsupported("loop is not nested")
        return self.outer.ctr(k)

    def read(self, v, o):
        r = self.reading
        if r.kind not in ("off", "rev") or r.role != self.cur or not z3.is_expr(v) or v.sort() != IntSort():
            return v
        if r.kind == "off":
            return simplify(v + r.arg)
        if r.arg == "entry":
            e = self.entry[o.name].val
            b = e.pos if isinstance(e, Iter) else e
            if not z3.is_expr(b):
                raise Unsupported("no entry value")
        else:
            b = vec_of(self.this).len + (0 if r.arg == "len" else -1)
        return simplify(b - v)

    def cval(self, o):
        self.used.add(o.name)
        v = o.val
        if isinstance(v, Iter):
            v = v.pos
        elif v is UNINIT:
            v = IntVal(0)
        return self.read(v, o)

    def centry(self, o):
        s = self.entry[o.name]
        v = s.val
        return self.read(v.pos if isinstance(v, Iter) else v, o)

    def local_struct(self, cls, k=0, name=None):
        """k-th local object of class cls (by age)"""
        res, names = [], {}
        seen = set()
        for g in [self.ex.frame] + self.ex.framestack():
            while g is not None:
                if id(g) not in seen:
                    seen.add(id(g))
                    for vid, v in g.vars.items():
                        if isinstance(v, Cell) and isinstance(v.val, Ptr):
                            v = v.val.lv
                        if isinstance(v, Struct) and v.cls.split("::")[-1] == cls and v is not self.env.this and v not in self.env.args:
                            names.setdefault((self.ex.prog.ast.byid.get(vid) or {}).get("name"), v)
                            if v not in res:
                                res.append(v)
                g = g.parent
        res.sort(key=lambda o: o.birth)
        if name is not None:
            if name in names:
                return names[name]
            for o in res:
                if o.name.split("/")[-1] == name:
                    return o
        if k >= len(res):
            raise Unsupported("loop state: no local %s #%d" % (cls, k))
        return res[k]

    def local_vec(self, k=0, name=None):
        res = [o for nm, o in self.leaves.items() if isinstance(o, Vec) and not self._owned(o)]
        res.sort(key=lambda o: o.birth)
        if name is not None:
            for o in res:
                if o.name.split("/")[-1] == name:
                    return o
        if k >= len(res):
            raise Unsupported("loop state: no local vector #%d" % k)
        return res[k]

    def mod_vecs(self):
        res = [o for nm, o in self.leaves.items() if isinstance(o, Vec) and nm in self.mods]
        res.sort(key=lambda o: o.birth)
        return res


class Env:
    """Operands of a function, for its contract."""

    def __init__(self, ex, this, args):
        self.ex, self.this, self.args = ex, this, args
        self.old = None
        self.ret = None
        self.ghost = {}

    def take_old(self):
        self.old = Env(self.ex, snap(self.this) if self.this is not None else None, [snap(a) for a in self.args])
        self.old.old = self.old

    def val(self, i):
        """Scalar value of argument i."""
        a = self.args[i]
        if isinstance(a, (Cell, ElemRef)):
            return self.ex.load(a)
        if isinstance(a, CSnap):
            return a.val
        if isinstance(a, (Struct, Snap)) and a.cls.split("::")[-1] == "Str":
            v = vec_of(a)
            return StrV.mkstr(v.arr, v.len)   # a string as an element
        return a


class CallEnv(Env):
    def __init__(self, ex, ct, d, this, vals, n, ctype):
        args = []
        for p, v in zip(Ast.params(d), vals):
            if not is_ref(qt(p)):
                v = ex.load(v)
                if not isinstance(v, (Struct, Vec)):
                    v = Cell(ex, ex.tmpname(n) + p.get("name", ""), v, qt(p))
            elif not isinstance(v, (Cell, ElemRef, Struct, Vec)):
                v = Cell(ex, ex.tmpname(n) + p.get("name", ""), v, qt(p))
            args.append(v)
        Env.__init__(self, ex, this, args)
        self.ct, self.d, self.n, self.ctype = ct, d, n, ctype

    def apply(self):
        ex, ct, n = self.ex, self.ct, self.n
        ex.prog.models.check_live(ex, self, n)
        for nm, f in ct.requires(self):
            ex.obl("call %s requires %s" % (ct.title, nm), f, n)
        m = ct.measure(self)
        if m is not None and ex.contract is not None and ex.contract.group == ct.group and ex.contract.group is not None:
            m0 = ex.measure0
            ex.obl("call %s decreases the recursion measure" % ct.title, And(m < m0, m0 >= 0), n)
        self.take_old()
        th = ct.throws(self)
        if th is not None and th is not False:
            if ex.branch(th):
                raise Thrown("std::runtime_error", n)
        for o in ct.modifies(self):
            ex.prog.models.havoc_object(ex, o, ct.title)
        if self.ctype is not None:   # constructor
            o = ex.new_object(self.ctype, ex.tmpname(n), init=False, symbolic=True)
            self.this = o
            self.ret = o
        else:
            r = ct.result(self)
            if r is None:
                rt = ret_type(self.d)
                if rt != "void":
                    r = ex.prog.models.symbolic(ex, rt, "ret_" + self.d.get("name", "f"))
            self.ret = r
        for nm, f in ct.ensures(self):
            ex.assume(f)
        ex.hints.extend(ct.call_hints(self))
        return self.ret


def ret_type(d):
    t = cppast.fsig(d)
    # return type = text before the parameter list
    depth = 0
    for i, ch in enumerate(t):
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= 1
        elif ch == "(" and depth == 0:
            return t[:i].strip()
    return t
