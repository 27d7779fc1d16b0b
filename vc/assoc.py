"""Trusted contracts of std::set and std::map.

The value of a set is the predicate `mem` of its members (a finite set); a map has in addition `vals`, the value of every
key.  Iteration order is the increasing order of the keys: ORD(mem) enumerates the members, RANK(mem, x) is the position of
x, CARD(mem) their number.  Keys are ordered by an uninterpreted strict total order (x < y) whose equivalence is ==.
"""
import z3
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, Int, Const, Function, IntSort, BoolSort, ArraySort, Select, Store, ForAll, simplify
from .engine import *
from .engine import _opaque
from . import theory as T
from .cppast import qt, strip
from .theory import lemma

I, B = IntSort(), BoolSort()
INT_MAX = 2147483647


def U(name, *sorts):
    from .stdmodels import U as u
    return u(name, *sorts)


def sn(s):
    return str(s).replace(" ", "")


def msort(k):
    return ArraySort(k, B)


def ORD(m):
    k = m.sort().domain()
    return U("ORD_" + sn(k), msort(k), ArraySort(I, k))(m)


def CARD(m):
    k = m.sort().domain()
    return U("CARD_" + sn(k), msort(k), I)(m)


def RANK(m, x):
    k = m.sort().domain()
    return U("RANK_" + sn(k), msort(k), k, I)(m, x)


def LT(x, y):
    if x.sort() == I:
        return x < y
    return U("LT_" + str(x.sort()), x.sort(), x.sort(), B)(x, y)


def EMPTY(k):
    return z3.K(k, BoolVal(False))


_pairs = {}


def pairsort(k, v):
    n = "Pair_%s_%s" % (sn(k), sn(v))
    if n not in _pairs:
        d = z3.Datatype(n)
        d.declare("mk_" + n, ("first", k), ("second", v))
        _pairs[n] = d.create()
    return _pairs[n]


def mkpair(x, y):
    return pairsort(x.sort(), y.sort()).constructor(0)(x, y)


def is_pair(s):
    return sn(s).startswith("Pair_")


def first(p):
    return simplify(p.sort().accessor(0, 0)(p))


def second(p):
    return simplify(p.sort().accessor(0, 1)(p))


# ---------------------------------------------------------------- definitions
@lemma
def ord_def(m, i):
    """[def] the i-th member in increasing order"""
    x = Select(ORD(m), i)
    return Implies(And(0 <= i, i < CARD(m)), And(Select(m, x), RANK(m, x) == i))


@lemma
def rank_def(m, x):
    """[def] the position of a member"""
    r = RANK(m, x)
    return Implies(Select(m, x), And(0 <= r, r < CARD(m), Select(ORD(m), r) == x))


@lemma
def sorted_def(m):
    """[def] ORD(m) enumerates exactly the members, in increasing order; < is a strict order"""
    k = m.sort().domain()
    x, y = Const("x!o", k), Const("y!o", k)
    i, j = Int("i!o"), Int("j!o")
    L = LT
    return And(ForAll([x], Implies(Select(m, x), And(0 <= RANK(m, x), RANK(m, x) < CARD(m), Select(ORD(m), RANK(m, x)) == x)), patterns=[Select(m, x)]),
               ForAll([i, j], Implies(And(0 <= i, i < j, j < CARD(m)), L(Select(ORD(m), i), Select(ORD(m), j))), patterns=[z3.MultiPattern(Select(ORD(m), i), Select(ORD(m), j))]),
               *([] if k == I else [ForAll([x, y], Implies(L(x, y), Not(L(y, x))), patterns=[L(x, y)])]))


@lemma
def card_empty(k):
    """[def] CARD of the empty set"""
    return CARD(EMPTY(k)) == 0


@lemma
def card_add(m, x):
    """[def] CARD after an insertion"""
    return CARD(Store(m, x, BoolVal(True))) == CARD(m) + If(Select(m, x), IntVal(0), IntVal(1))


@lemma
def card_del(m, x):
    """[lemma card_del] CARD after a removal"""
    return CARD(Store(m, x, BoolVal(False))) == CARD(m) - If(Select(m, x), IntVal(1), IntVal(0))


def SUB(a, b):
    k = a.sort().domain()
    return U("SUBSET_" + sn(k), msort(k), msort(k), B)(a, b)


def SUBW(a, b):
    k = a.sort().domain()
    return U("SUBW_" + sn(k), msort(k), msort(k), k)(a, b)


@lemma
def sub_def(a, b):
    """[def] SUBSET(a, b): every member of a is one of b"""
    k = a.sort().domain()
    x, w = Const("x!s", k), SUBW(a, b)
    return And(Implies(SUB(a, b), ForAll([x], Implies(Select(a, x), Select(b, x)), patterns=[Select(a, x)])),
               Implies(Not(SUB(a, b)), And(Select(a, w), Not(Select(b, w)))))


@lemma
def card_sub(a, b):
    """[lemma card_sub] a subset has at most as many members, and as many only if it is the whole set"""
    return Implies(SUB(a, b), And(CARD(a) <= CARD(b), Implies(CARD(a) == CARD(b), SUB(b, a))))


def RMEM(a, lo, hi, x):
    """RMEM(a, lo, hi, x): some element of a[lo..hi) is x"""
    s = a.sort().range()
    return U("RMEM_" + sn(s), a.sort(), I, I, s, B)(a, lo, hi, x)


@lemma
def rmem_def(a, lo, hi):
    """[def] RMEM"""
    s = a.sort().range()
    x, k = Const("x!r", s), Int("k!r")
    w = U("RMEMW_" + sn(s), a.sort(), I, I, s, I)(a, lo, hi, x)
    r = RMEM(a, lo, hi, x)
    return And(ForAll([k], Implies(And(lo <= k, k < hi), RMEM(a, lo, hi, Select(a, k))), patterns=[Select(a, k)]),
               ForAll([x], Implies(r, And(lo <= w, w < hi, Select(a, w) == x)), patterns=[r]))


# ---------------------------------------------------------------- objects
class AVec(Vec):
    """std::set or std::map"""
    assoc = True

    def __init__(self, ex, kind, ksort, vsort, kdesc, vdesc, name):
        self.ex, self.kind, self.name = ex, kind, name
        self.birth = ex.nextbirth()
        self.ksort, self.vsort, self.kdesc, self.vdesc = ksort, vsort, kdesc, vdesc
        self.mem = EMPTY(ksort)
        self.vals = None if vsort is None else Const("NOVALS_%s_%s" % (sn(ksort), sn(vsort)), ArraySort(ksort, vsort))
        self.ver = 0
        self.frozen = False
        self.cstr = False
        self.desc = kdesc if vsort is None else Desc("pair", pairsort(ksort, vsort))

    @property
    def arr(self):
        """the elements in iteration order"""
        return elements(self)

    @property
    def len(self):
        return CARD(self.mem)

    def put(self, mem, vals=None, structural=True):
        if self.frozen:
            raise Unsupported("write through a read-only view")
        self.ex.touch(self, "len" if structural else "arr")
        if structural:
            self.ver += 1
        self.mem = mem
        if vals is not None:
            self.vals = vals

    def set(self, **k):
        raise Unsupported("sequence operation on an associative container")


class AVSnap(VSnap):
    def __init__(self, v):
        self.mem, self.vals, self.kind, self.ksort, self.vsort, self.desc = v.mem, v.vals, v.kind, v.ksort, v.vsort, v.desc

    arr = property(lambda s: elements(s))
    len = property(lambda s: CARD(s.mem))


def elements(o):
    if o.vsort is None:
        return ORD(o.mem)
    ps = pairsort(o.ksort, o.vsort)
    return U("PORD_" + sn(ps), msort(o.ksort), ArraySort(o.ksort, o.vsort), ArraySort(I, ps))(o.mem, o.vals)


def at_pos(o, p):
    """element at position p"""
    x = Select(ORD(o.mem), p)
    return x if o.vsort is None else mkpair(x, Select(o.vals, x))


@lemma
def pord_def(o, p):
    """[def] iterating over a map visits (key, value) pairs in the order of the keys"""
    return Select(elements(o), p) == at_pos(o, p)


class KeyRef(ElemRef):
    """Reference to the element of a set, or to a pair of a map: it stays with its key."""

    def __init__(self, vec, key):
        self.vec, self.key, self.ver = vec, key, vec.ver
        self.idx = RANK(vec.mem, key)

    def check(self, node=None):
        if self.ver != self.vec.ver:
            self.vec.ex.obl("dangling-reference", Select(self.vec.mem, self.key), node)

    def get(self):
        self.check()
        return self.key if self.vec.vsort is None else mkpair(self.key, Select(self.vec.vals, self.key))

    def set(self, v):
        raise Unsupported("write to a key")


class ValRef(KeyRef):
    """Reference to the value stored for a key."""

    def get(self):
        self.check()
        return Select(self.vec.vals, self.key)

    def set(self, v):
        self.check()
        self.vec.put(self.vec.mem, Store(self.vec.vals, self.key, v), structural=False)


class Assoc:
    def __init__(self, prog):
        self.prog = prog

    def bound(self, ex, mem):
        # resource assumption: no container exceeds INT_MAX elements
        ex.assume(CARD(mem) >= 0, CARD(mem) <= INT_MAX)

    # ------------------------------------------------------------ objects
    def new(self, ex, k, targs, name):
        m = self.prog.models
        kd = m.desc(ex, targs[0])
        vd = m.desc(ex, targs[1]) if k == "map" else None
        if kd is None or (k == "map" and vd is None):
            raise Unsupported("associative container of " + ", ".join(targs))
        v = AVec(ex, k, kd.sort, vd.sort if vd else None, kd, vd, name)
        ex.assume(card_empty(kd.sort))
        return v

    def havoc(self, ex, o, short):
        o.mem = ex.fresh(short, msort(o.ksort))
        if o.vsort is not None:
            o.vals = ex.fresh(short + ".vals", ArraySort(o.ksort, o.vsort))
        o.ver += 1
        self.bound(ex, o.mem)

    def own_ref(self, ex, v):
        key = ex.fresh("own", v.ksort)
        ex.assume(Select(v.mem, key), rank_def(v.mem, key))
        return KeyRef(v, key)

    def deref(self, ex, it, p):
        v = it.vec
        key = Select(ORD(v.mem), p)
        ex.assume(ord_def(v.mem, p))
        if v.vsort is not None:
            ex.assume(pord_def(snap(v), p))
        return KeyRef(v, key)

    def eq(self, ex, a, b):
        ex.assume(sub_def(a.mem, b.mem), sub_def(b.mem, a.mem))
        e = And(SUB(a.mem, b.mem), SUB(b.mem, a.mem))
        if a.vsort is not None:
            ex.assume(valeq_def(a.mem, a.vals, b.vals))
            e = And(e, VALEQ(a.mem, a.vals, b.vals))
        return e

    def unchanged(self, ex, o, s):
        if o.mem.eq(s.mem) and (o.vals is None or o.vals.eq(s.vals)):
            return []
        x = Const("x!u", o.ksort)
        fs = [ForAll([x], Select(o.mem, x) == Select(s.mem, x))]
        if o.vsort is not None:
            fs.append(ForAll([x], Implies(Select(s.mem, x), Select(o.vals, x) == Select(s.vals, x))))
        return fs

    def assign(self, ex, dst, src, move=False):
        if dst is src:
            return
        if isinstance(src, Opaque) and src.kind == "init_list" and not src.items:
            dst.put(EMPTY(dst.ksort))
            return
        if not hasattr(src, "mem"):
            raise Unsupported("assignment to an associative container")
        dst.put(src.mem, src.vals)
        if move and isinstance(src, AVec) and not src.frozen:
            src.put(ex.fresh("movedfrom", msort(src.ksort)))
            self.bound(ex, src.mem)

    def construct(self, ex, t, args, ctor, n, name):
        v = self.prog.models.new_object(ex, t, name)
        a = [x for x in args if x["kind"] != "CXXDefaultArgExpr" and "allocator" not in qt(x) and "less<" not in strip(qt(x))[:12]]
        self.prog.models.use(ex, "std::%s constructor" % v.kind)
        if not a:
            return v
        if len(a) == 1:
            src = ex.loadptr(ex.ev(a[0]))
            if isinstance(src, AVec):
                self.assign(ex, v, src, move="&&" in ctor.replace("noexcept", ""))
                return v
            if isinstance(src, Vec):
                self.add_range(ex, v, src.arr, IntVal(0), src.len)
                return v
            if isinstance(src, Opaque) and src.kind == "init_list":
                for x in src.items:
                    self.add_one(ex, v, x)
                return v
        if len(a) == 2:
            x, y = ex.rv(a[0]), ex.rv(a[1])
            if isinstance(x, Iter) and isinstance(y, Iter):
                self.add_iters(ex, v, x, y, n)
                return v
        raise Unsupported("constructor of " + t)

    def make_pair(self, ex, t, args, n):
        vals = [ex.rv(a) for a in args]
        if len(vals) == 1 and is_pair(vals[0].sort()):
            return vals[0]
        if len(vals) == 2 and all(z3.is_expr(v) for v in vals):
            return mkpair(*vals)
        raise Unsupported("pair")

    # ------------------------------------------------------------ updates
    def add_one(self, ex, v, x):
        key = x if v.vsort is None else first(x)
        old = v.mem
        new = Store(old, key, BoolVal(True))
        ex.assume(card_add(old, key))
        vals = None
        if v.vsort is not None:
            vals = Store(v.vals, key, If(Select(old, key), Select(v.vals, key), second(x)))
        v.put(new, vals)
        self.bound(ex, new)
        return key, Select(old, key)

    def add_iters(self, ex, v, x, y, n):
        self.prog.models.range_ok(ex, x, y, n)
        if isinstance(x.vec, AVec) or x.rev:
            if x.vec is v:
                raise Unsupported("insertion of the container's own range")
            if not (ex.quick(x.pos == 0) and ex.quick(y.pos == x.vec.len)):
                raise Unsupported("insertion of a part of a container")
            w = x.vec
            if v.vsort is None and w.vsort is not None:
                if v.ksort != pairsort(w.ksort, w.vsort):
                    raise Unsupported("insertion of pairs")
                self.union(ex, v, lambda k: And(Select(w.mem, first(k)), Select(w.vals, first(k)) == second(k)), None)
                return
            self.union(ex, v, lambda k: Select(x.vec.mem, k), (lambda k: Select(x.vec.vals, k)) if v.vsort is not None else None)
            return
        self.add_range(ex, v, x.vec.arr, x.pos, y.pos)

    def add_range(self, ex, v, arr, lo, hi):
        if v.vsort is None:
            ex.assume(rmem_def(arr, lo, hi))
            self.union(ex, v, lambda k: RMEM(arr, lo, hi, k), None)
            return
        ex.assume(kfirst_def(arr, lo, hi))
        self.union(ex, v, lambda k: KFIRST(arr, lo, hi, k) < hi, lambda k: second(Select(arr, KFIRST(arr, lo, hi, k))))

    def union(self, ex, v, pred, val):
        N = ex.fresh("members", msort(v.ksort))
        x = Const("x!m", v.ksort)
        ex.assume(ForAll([x], Select(N, x) == Or(Select(v.mem, x), pred(x)), patterns=[Select(N, x)]))
        vals = None
        if v.vsort is not None:
            vals = ex.fresh("values", ArraySort(v.ksort, v.vsort))
            ex.assume(ForAll([x], Implies(Select(N, x), Select(vals, x) == If(Select(v.mem, x), Select(v.vals, x), val(x))), patterns=[Select(vals, x)]))
        self.bound(ex, N)
        v.put(N, vals)

    def keep(self, ex, v, pred):
        """erases what does not satisfy the predicate; the answer is how many those were"""
        N = ex.fresh("members", msort(v.ksort))
        x = Const("x!m", v.ksort)
        ex.assume(ForAll([x], Select(N, x) == And(Select(v.mem, x), pred(x)), patterns=[Select(N, x), Select(v.mem, x)]), CARD(N) <= CARD(v.mem), CARD(N) >= 0)
        gone = simplify(CARD(v.mem) - CARD(N))
        v.put(N)
        return gone

    def erase_key(self, ex, v, key):
        old = v.mem
        new = Store(old, key, BoolVal(False))
        ex.assume(card_del(old, key), CARD(new) >= 0)
        v.put(new)
        return Select(old, key)

    # ------------------------------------------------------------ members
    def method(self, ex, v, name, args, n):
        m = self.prog.models
        a = [x for x in args if x["kind"] != "CXXDefaultArgExpr"]
        m.use(ex, "std::%s::%s" % (v.kind, name))
        if name in ("size",):
            ex.assume(v.len >= 0)
            return v.len
        if name == "empty":
            ex.assume(v.len >= 0)
            return v.len == 0
        if name in ("begin", "cbegin"):
            return Iter(v, IntVal(0))
        if name in ("end", "cend"):
            return Iter(v, v.len)
        if name in ("rbegin", "crbegin"):
            return Iter(v, v.len, True)
        if name in ("rend", "crend"):
            return Iter(v, IntVal(0), True)
        if name == "clear":
            v.put(EMPTY(v.ksort))
            return None
        if name in ("find", "contains", "count") and len(a) == 1:
            key = self.key_of(ex, v, a[0])
            ex.assume(rank_def(v.mem, key))
            has = Select(v.mem, key)
            if name == "contains":
                return has
            if name == "count":
                return If(has, IntVal(1), IntVal(0))
            r = ex.fresh("found")
            ex.assume(r == If(has, RANK(v.mem, key), v.len), v.len >= 0)
            return Iter(v, r)
        if name in ("lower_bound", "upper_bound") and len(a) == 1:
            key = self.key_of(ex, v, a[0])
            m0, has = v.mem, Select(v.mem, key)
            r = ex.fresh("bound")
            ex.assume(v.len >= 0, rank_def(m0, key), sorted_def(m0), ord_def(m0, r), 0 <= r, r <= v.len,
                      Implies(has, r == RANK(m0, key) + (1 if name == "upper_bound" else 0)))
            i = Int("i!b")
            at = Select(ORD(m0), i)
            ex.assume(ForAll([i], Implies(And(Not(has), 0 <= i, i < CARD(m0)), If(i < r, LT(at, key), LT(key, at))), patterns=[at]))
            here = Select(ORD(m0), r)
            ex.assume(Implies(And(r < v.len, Not(has)), LT(key, here)), Not(LT(key, key)))
            return Iter(v, r)
        if name in ("emplace_hint", "try_emplace", "insert") and len(a) >= 2 and "iterator" in qt(a[0]) and not (name == "insert" and "iterator" in qt(a[1])):
            it = ex.rv(a[0])
            if not isinstance(it, Iter) or it.vec is not v or it.rev:
                raise Unsupported("insert with a hint")
            m.valid(ex, it, n)
            ex.obl("hint-in-range", And(it.pos >= 0, it.pos <= v.len), n)
            vs = [ex.rv(y) for y in a[1:]]
            if len(vs) == 1 and isinstance(vs[0], Opaque) and vs[0].kind == "init_list":
                vs = list(vs[0].items)
            if len(vs) > 2 or not all(z3.is_expr(y) for y in vs):
                raise Unsupported("insert with a hint")
            key, was = self.add_one(ex, v, vs[0] if len(vs) == 1 else mkpair(*vs))
            r = ex.fresh("inserted")
            ex.assume(rank_def(v.mem, key), r == RANK(v.mem, key))
            return Iter(v, r)
        if name == "at":
            key = self.key_of(ex, v, a[0])
            if not ex.branch(Select(v.mem, key)):
                raise Thrown("std::out_of_range", n)
            return ValRef(v, key)
        if name in ("insert", "emplace", "try_emplace", "insert_or_assign"):
            if name == "insert" and len(a) == 2:
                x, y = ex.rv(a[0]), ex.rv(a[1])
                if isinstance(x, Iter) and isinstance(y, Iter):
                    self.add_iters(ex, v, x, y, n)
                    return None
                raise Unsupported("insert with a hint")
            if name == "insert":
                x = ex.rv(a[0])
                if isinstance(x, Opaque) and x.kind == "init_list":
                    if v.vsort is not None and len(x.items) == 2 and all(z3.is_expr(i) and not is_pair(i.sort()) for i in x.items):
                        x = mkpair(*x.items)
                    elif v.vsort is None and len(x.items) == 1:
                        x = x.items[0]
                    else:
                        raise Unsupported("insert of a list")
            else:
                vs = [ex.rv(y) for y in a]
                x = vs[0] if len(vs) == 1 else mkpair(*vs)
            if not z3.is_expr(x):
                raise Unsupported("insert of " + type(x).__name__)
            key, was = self.add_one(ex, v, x)
            if name == "insert_or_assign":
                v.put(v.mem, Store(v.vals, key, second(x)), structural=False)
            return Opaque("inserted", vec=v, key=key, new=Not(was))
        if name == "erase":
            if len(a) == 1:
                x = ex.rv(a[0])
                if isinstance(x, Iter):
                    m.valid(ex, x, n)
                    ex.obl("erase-in-range", And(x.pos >= 0, x.pos < v.len, BoolVal(x.vec is v)), n)
                    ex.assume(ord_def(v.mem, x.pos))
                    self.erase_key(ex, v, Select(ORD(v.mem), x.pos))
                    return Iter(v, x.pos)
                return If(self.erase_key(ex, v, x), IntVal(1), IntVal(0))
            raise Unsupported("erase of a range")
        if name == "extract":
            x = ex.rv(a[0])
            if isinstance(x, Iter):
                m.valid(ex, x, n)
                ex.obl("extract-in-range", And(x.pos >= 0, x.pos < v.len, BoolVal(x.vec is v)), n)
                ex.assume(ord_def(v.mem, x.pos))
                key = Select(ORD(v.mem), x.pos)
                val = Select(v.vals, key) if v.vsort is not None else None
                self.erase_key(ex, v, key)
                return Opaque("node", key=key, val=val)
            if z3.is_expr(x) and x.sort() == v.ksort:
                val = Select(v.vals, x) if v.vsort is not None else None
                was = self.erase_key(ex, v, x)
                return Opaque("node", key=x, val=val, full=was)
            raise Unsupported("extract by key")
        if name in ("operator=",):
            self.assign(ex, v, ex.rv(a[0]), move=a[0].get("valueCategory") == "xvalue")
            return v
        if name == "swap":
            w = ex.loadptr(ex.ev(a[0]))
            x, y = (v.mem, v.vals), (w.mem, w.vals)
            v.put(*y)
            w.put(*x)
            return None
        raise Unsupported("%s::%s" % (v.kind, name))

    def key_of(self, ex, v, n):
        k = ex.rv(n)
        if not z3.is_expr(k) or k.sort() != v.ksort:
            raise Unsupported("key")
        return k

    def subscript(self, ex, v, key, n):
        """std::map::operator[]: inserts a default value for an absent key"""
        self.prog.models.use(ex, "std::map::operator[]")
        if not ex.branch(Select(v.mem, key)):
            self.add_one(ex, v, mkpair(key, v.vdesc.default(ex)))
        return ValRef(v, key)

    def opaque_method(self, ex, o, name, args, n):
        if o.kind == "node":
            full = getattr(o, "full", None)
            if full is not None and name in ("value", "key", "mapped"):
                ex.obl("empty-node", full, n)
            if name in ("value", "key"):
                return Cell(ex, ex.tmpname(n), o.key, "key")
            if name == "mapped":
                return Cell(ex, ex.tmpname(n), o.val, "value")
            if name == "empty":
                return BoolVal(False) if full is None else Not(full)
            if name == "operator bool":
                return BoolVal(True) if full is None else full
        raise Unsupported("method %s of %s" % (name, o.kind))

    def member(self, ex, b, nm, n):
        if isinstance(b, KeyRef) and b.vec.vsort is not None:
            if nm == "first":
                return KeyPart(b.vec, b.key)
            if nm == "second":
                return ValRef(b.vec, b.key)
        if isinstance(b, Opaque) and b.kind == "inserted":
            if nm == "second":
                return Cell(ex, ex.tmpname(n), b.new, "bool")
            if nm == "first":
                r = ex.fresh("found")
                ex.assume(r == RANK(b.vec.mem, b.key), rank_def(b.vec.mem, b.key))
                return Cell(ex, ex.tmpname(n), Iter(b.vec, r), "iterator")
        if z3.is_expr(b) and is_pair(b.sort()):
            if nm in ("first", "second"):
                return Cell(ex, ex.tmpname(n), first(b) if nm == "first" else second(b), nm)
        raise Unsupported("member " + str(nm))

    def for_each(self, ex, x, y, f, n):
        return NotImplemented

    # ------------------------------------------------------------ algorithms on sorted ranges
    def members(self, ex, x, y, n):
        """the predicate of a whole range of a set"""
        m = self.prog.models
        m.range_ok(ex, x, y, n)
        if not isinstance(x.vec, AVec) or x.vec.vsort is not None or x.rev:
            raise Unsupported("sorted range")
        v = x.vec
        if ex.quick(x.pos == 0) and ex.quick(y.pos == v.len):
            return v.mem
        M = ex.fresh("part", msort(v.ksort))
        k = Const("x!p", v.ksort)
        ex.assume(ForAll([k], Select(M, k) == And(Select(v.mem, k), x.pos <= RANK(v.mem, k), RANK(v.mem, k) < y.pos), patterns=[Select(M, k)]))
        return M

    def includes(self, ex, a, n):
        A = self.members(ex, ex.rv(a[0]), ex.rv(a[1]), n)
        Bm = self.members(ex, ex.rv(a[2]), ex.rv(a[3]), n)
        if len(a) > 4:
            raise Unsupported("comparator")
        ex.assume(sub_def(Bm, A))
        return SUB(Bm, A)

    def set_op(self, ex, a, n, f):
        A = self.members(ex, ex.rv(a[0]), ex.rv(a[1]), n)
        Bm = self.members(ex, ex.rv(a[2]), ex.rv(a[3]), n)
        if len(a) > 5:
            raise Unsupported("comparator")
        d = ex.rv(a[4])
        if not (isinstance(d, Opaque) and d.kind == "inserter") or d.vec.vsort is not None:
            raise Unsupported("destination of a set operation")
        self.union(ex, d.vec, lambda k: f(Select(A, k), Select(Bm, k)), None)
        return d

    def copy_to(self, ex, x, y, d, n):
        if isinstance(d, Opaque) and d.kind == "inserter":
            self.add_iters(ex, d.vec, x, y, n)
            return d
        raise Unsupported("copy to " + type(d).__name__)


class KeyPart(KeyRef):
    """Reference to the key of a pair of a map."""

    def get(self):
        self.check()
        return self.key


def VALEQ(m, a, b):
    k, v = a.sort().domain(), a.sort().range()
    return U("VALEQ_%s_%s" % (sn(k), sn(v)), msort(k), a.sort(), a.sort(), B)(m, a, b)


@lemma
def valeq_def(m, a, b):
    """[def] VALEQ(m, a, b): a and b agree on the keys in m"""
    k, v = a.sort().domain(), a.sort().range()
    x = Const("x!e", k)
    w = U("VALEQW_%s_%s" % (sn(k), sn(v)), msort(k), a.sort(), a.sort(), k)(m, a, b)
    e = VALEQ(m, a, b)
    return And(Implies(e, ForAll([x], Implies(Select(m, x), Select(a, x) == Select(b, x)), patterns=[Select(m, x)])),
               Implies(Not(e), And(Select(m, w), Select(a, w) != Select(b, w))))


def KFIRST(a, lo, hi, key):
    """KFIRST(a, lo, hi, key): the first position in [lo, hi) of a pair with that key, else hi"""
    s = a.sort().range()
    return U("KFIRST_" + sn(s), a.sort(), I, I, key.sort(), I)(a, lo, hi, key)


@lemma
def kfirst_def(a, lo, hi):
    """[def] KFIRST"""
    s = a.sort().range()
    x, k = Const("x!k", s.accessor(0, 0).range()), Int("k!k")
    r = KFIRST(a, lo, hi, x)
    return Implies(lo <= hi, And(ForAll([x], And(lo <= r, r <= hi, Implies(r < hi, first(Select(a, r)) == x)), patterns=[r]),
               ForAll([x, k], Implies(And(lo <= k, k < r), first(Select(a, k)) != x), patterns=[z3.MultiPattern(r, Select(a, k))])))
