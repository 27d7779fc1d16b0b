"""Specification functions and the ground instantiation of their definitions and lemmas.

Definitional axioms ([def]) fix the specification functions; everything else used here ([lemma]) is
proved from the definitions by lemmas.py on every run.
"""
import z3
from z3 import (And, Or, Not, Implies, If, IntVal, Int, Function, IntSort, BoolSort, RealSort, ArraySort, Select, Store, ForAll,
                simplify, is_int_value, Const)

AI = ArraySort(IntSort(), IntSort())
I, B, R = IntSort(), BoolSort(), RealSort()

P10 = Function("P10", I, I)                 # 10^n
P = Function("P", AI, I, I)                 # sum_{k<n} a[k]*10^k
Val = Function("Val", I, AI, I, I)          # sign * P(a, n)
CANON = Function("CANON", I, AI, I, B)      # representation invariant of Int
DIG = Function("DIG", AI, I, B)             # all a[k] in 0..9 for k < n
FILLI = Function("FILLI", AI, I, I, I, AI)  # a with [lo,hi) := v
ERASEI = Function("ERASEI", AI, I, I, AI)   # a without the c elements at i
INSI = Function("INSI", AI, I, I, AI, I, AI)  # a with c elements b[off..] inserted at i
EQA = Function("EQA", AI, AI, I, B)         # arrays equal on [0,n)
DIFF = Function("DIFF", AI, AI, I, I)       # skolem: where they differ
TDIV = Function("TDIV", I, I, I)
TMOD = Function("TMOD", I, I, I)
FACT = Function("FACT", I, I)
POW = Function("POW", I, I, I)
GCD = Function("GCD", I, I, I)
LCM = Function("LCM", I, I, I)
NODIV = Function("NODIV", I, I, B)          # no d in [2,k) divides n
WIT = Function("WIT", I, I, I)              # skolem: a divisor of n in [2,k)
ZEROS = z3.K(I, IntVal(0))
LIMI = 10 ** 9

_diffcache = {}


def cdiff(a, b):
    """Integer c with a == b + c syntactically, else None."""
    d = simplify(a - b, som=True)
    return d.as_long() if is_int_value(d) else None


_strs = {}


def strings_in(q):
    """ground string values mkstr(chars, length) inside a quantifier"""
    if q.get_id() in _strs:
        return _strs[q.get_id()][1]
    res, seen, st = [], set(), [q.body()]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR and x.num_args() == 2 and ground(x):
                res.append(x)
                continue
            st.extend(x.children())
        elif z3.is_quantifier(x):
            st.append(x.body())
    _strs[q.get_id()] = (q, res)
    return res


def ground(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x) or z3.is_quantifier(x):
            return False
        st.extend(x.children())
    return True


class Terms:
    def __init__(self):
        self.apps = {}
        self.seen = set()
        self.all = []
        self.selects = []
        self.stores = []
        self.muls = []
        self.mk = []

    def add(self, f):
        st = [f]
        while st:
            x = st.pop()
            h = x.get_id()
            if h in self.seen:
                continue
            self.seen.add(h)
            if z3.is_quantifier(x):
                self.mk += strings_in(x)
                continue       # only ground terms
            if z3.is_var(x):
                continue
            if z3.is_app(x):
                if x.num_args() == 0:
                    continue
                self.all.append(x)
                d = x.decl()
                k = d.kind()
                if k == z3.Z3_OP_UNINTERPRETED:
                    self.apps.setdefault(d.name(), []).append(x)
                elif k == z3.Z3_OP_SELECT:
                    self.selects.append(x)
                elif k == z3.Z3_OP_STORE:
                    self.stores.append(x)
                elif k == z3.Z3_OP_MUL:
                    self.muls.append(x)
                st.extend(x.children())

    def get(self, fn):
        return list(self.apps.get(fn.name() if hasattr(fn, "name") else fn, ()))


class Inst:
    """Ground instances for one verification condition."""

    def __init__(self, formulas, rules):
        self.t = Terms()
        self.keep = list(formulas)
        for f in formulas:
            self.t.add(f)
        self.out = []
        self.done = set()
        self.rules = rules

    def emit(self, key, f):
        if key in self.done:
            return
        self.done.add(key)
        f2 = f() if callable(f) else f
        self.keep.append(f2)
        self.out.append(f2)
        self.new.append(f2)

    def run(self, rounds=5):
        for _ in range(rounds):
            self.new = []
            for r in self.rules:
                r(self)
            if not self.new:
                break
            for f in self.new:
                self.t.add(f)
        return self.out


def ids(*ts):
    return tuple(t.get_id() if z3.is_expr(t) else t for t in ts)


# ---------------------------------------------------------------- rules
def r_select_store(ix):
    for x in ix.t.selects:
        a, i = x.arg(0), x.arg(1)
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
            b, j, v = a.children()
            ix.emit(("ss", x.get_id()), lambda: x == If(i == j, v, Select(b, i)))
        elif z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            c, p, q = a.children()
            ix.emit(("si", x.get_id()), lambda: x == If(c, Select(p, i), Select(q, i)))
        elif z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.num_args() > 0:
            n = a.decl().name()
            if n.startswith("FILL"):
                b, lo, hi, v = a.children()
                ix.emit(("sf", x.get_id()), lambda: x == If(And(lo <= i, i < hi), v, Select(b, i)))
            elif n.startswith("ERASE"):
                b, p, c = a.children()
                ix.emit(("se", x.get_id()), lambda: x == If(i < p, Select(b, i), Select(b, i + c)))
            elif n.startswith("INS"):
                b, p, c, s, off = a.children()
                ix.emit(("sn", x.get_id()), lambda: x == If(i < p, Select(b, i), If(i < p + c, Select(s, simplify(off + i - p)), Select(b, simplify(i - c)))))


def r_field_of_element(ix):
    """field(a[i])[k] for an updated array a of structures"""
    for x in ix.t.selects:
        f, k = x.arg(0), x.arg(1)
        if not (z3.is_app(f) and f.decl().kind() == z3.Z3_OP_DT_ACCESSOR):
            continue
        y = f.arg(0)
        acc = f.decl()
        of = lambda v: Select(simplify(acc(v)), k)
        if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_ITE:
            c, p, q = y.children()
            ix.emit(("fi", x.get_id()), lambda: x == If(c, of(p), of(q)))
            continue
        if not z3.is_select(y):
            continue
        a, i = y.arg(0), y.arg(1)
        if not z3.is_app(a):
            continue
        if a.decl().kind() == z3.Z3_OP_STORE:
            b, j, v = a.children()
            ix.emit(("fs", x.get_id()), lambda: x == If(i == j, of(v), of(Select(b, i))))
        elif a.decl().kind() == z3.Z3_OP_ITE:
            c, p, q = a.children()
            ix.emit(("fj", x.get_id()), lambda: x == If(c, of(Select(p, i)), of(Select(q, i))))


def r_string_value(ix):
    """the characters of a string value that is built from a cut or joined array, read through a field"""
    for x in ix.t.mk:
        a = x.arg(0)
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.num_args() > 0:
            k = Const("k!mk", I)
            n = a.decl().name()
            if n == "ERASEI":
                b, p, c = a.children()
                ix.emit(("mk", a.get_id()), lambda: z3.ForAll([k], Select(a, k) == If(k < p, Select(b, k), Select(b, k + c)), patterns=[Select(a, k)]))
            elif n == "INSI":
                b, p, c, s, off = a.children()
                ix.emit(("mk", a.get_id()), lambda: z3.ForAll([k], Select(a, k) == If(k < p, Select(b, k), If(k < p + c, Select(s, off + k - p), Select(b, k - c))), patterns=[Select(a, k)]))


def base_arrays(a, acc):
    acc.append(a)
    if z3.is_app(a):
        for c in a.children():
            if c.sort() == a.sort():
                base_arrays(c, acc)


def exposed(ix):
    """Arrays whose contents the condition talks about."""
    st = getattr(ix, "_exp", None)
    if st is None:
        st = ix._exp = [0, set()]
    al = ix.t.all
    e = st[1]
    for x in al[st[0]:]:
        if not z3.is_app(x):
            continue
        d = x.decl()
        k = d.kind()
        if k == z3.Z3_OP_SELECT or k == z3.Z3_OP_STORE or (k == z3.Z3_OP_UNINTERPRETED and d.name() in ("P", "FILLI", "ERASEI", "INSI", "EQA", "TXTV")):
            for c in x.children():
                if c.sort() == AI:
                    acc = []
                    base_arrays(c, acc)
                    for y in acc:
                        e.add(y.get_id())
            if x.sort() == AI:
                e.add(x.get_id())
    st[0] = len(al)
    return e


def r_p10(ix):
    ts = [x.arg(0) for x in ix.t.get(P10)]
    for n in ts:
        if is_int_value(n):
            v = n.as_long()
            if 0 <= v <= 60:
                ix.emit(("p10c", v), lambda: P10(n) == IntVal(10 ** v))
                continue
        ix.emit(("p10p", n.get_id()), lambda: And(P10(n) >= 1, Implies(n <= 0, P10(n) == 1)))      # [def] 10^n = 1 for n <= 0; [lemma] >= 1
    for i in range(len(ts)):
        for j in range(len(ts)):
            if i == j:
                continue
            a, b = ts[i], ts[j]
            c = cdiff(a, b)
            if c is not None:
                if 0 < c <= 6:
                    ix.emit(("p10d",) + ids(a, b), lambda: Implies(b >= 0, P10(a) == IntVal(10 ** c) * P10(b)))   # [def] unfolded
            elif len(ts) <= 14:
                ix.emit(("p10m",) + ids(a, b), lambda: And(Implies(a == b, P10(a) == P10(b)),
                                                   Implies(And(b >= 0, a > b), P10(a) >= 10 * P10(b))))   # [lemma] p10-mono


def r_mono(ix):
    """Monomials with a power of ten: m * 10^(n+c) = 10^c * m * 10^n."""
    ps = [x.arg(0) for x in ix.t.get(P10)]
    for x in ix.t.muls:
        cs = x.children()
        for k, c in enumerate(cs):
            if z3.is_app(c) and c.decl().name() == "P10":
                rest = [y for t, y in enumerate(cs) if t != k]
                if all(is_int_value(y) for y in rest):
                    continue
                a = c.arg(0)
                for b in ps:
                    d = cdiff(a, b)
                    if d is not None and 0 < d <= 3:
                        ix.emit(("mono",) + ids(x, b), lambda: Implies(And(b >= 0, c == IntVal(10 ** d) * P10(b)), x == IntVal(10 ** d) * mulall(rest + [P10(b)])))


def mulall(ts):
    r = ts[0]
    for t in ts[1:]:
        r = r * t
    return r


def r_P(ix):
    ps = ix.t.get(P)
    digs = ix.t.get(DIG)
    byarr = {}
    for x in ps:
        byarr.setdefault(x.arg(0).get_id(), []).append(x)
    zero = {}
    for y in ix.t.selects:
        if y.arg(0).sort() == AI and is_int_value(y.arg(1)) and y.arg(1).as_long() == 0:
            zero.setdefault(y.arg(0).get_id(), []).append(y)
    for x in ps:
        a, n = x.arg(0), x.arg(1)
        ix.emit(("p0", x.get_id()), lambda: Implies(n <= 0, x == 0))                                  # [def]
        if is_int_value(n) and 0 < n.as_long() <= 3:
            ix.emit(("pk", x.get_id()), lambda: x == P(a, IntVal(n.as_long() - 1)) + Select(a, IntVal(n.as_long() - 1)) * P10(IntVal(n.as_long() - 1)))
        if not is_int_value(n):
            for y in zero.get(a.get_id(), ()):
                ix.emit(("p1", x.get_id()), lambda: Implies(n == 1, x == y))                          # [def]
        for d in digs:
            if d.arg(0).eq(a):
                m = d.arg(1)
                ix.emit(("pb",) + ids(x, d), lambda: Implies(And(d, 0 <= n, n <= m), And(x >= 0, x <= P10(n) - 1)))   # [lemma] bounds
        k = a.decl().kind() if z3.is_app(a) else None
        if k == z3.Z3_OP_STORE:
            b, i, v = a.children()
            ix.emit(("pst", x.get_id()), lambda: And(Implies(And(0 <= i, i < n), x == P(b, n) + simplify((v - Select(b, i)) * P10(i), som=True)),
                                             Implies(Or(i >= n, i < 0), x == P(b, n))))        # [lemma] store
        elif k == z3.Z3_OP_UNINTERPRETED and a.num_args() > 0:
            nm = a.decl().name()
            if nm == "FILLI":
                b, lo, hi, v = a.children()
                ix.emit(("pf", x.get_id()), lambda: And(Implies(n <= lo, x == P(b, n)),                 # [lemma] ext
                                                Implies(And(v == 0, 0 <= lo, lo <= n, n <= hi), x == P(b, lo)),   # [lemma] zeros
                                                ))
            elif nm == "ERASEI":
                b, p, c = a.children()
                if is_int_value(p) and p.as_long() == 0 and is_int_value(c) and c.as_long() == 1:
                    ix.emit(("pe", x.get_id()), lambda: Implies(n >= 0, 10 * x + Select(b, IntVal(0)) == P(b, simplify(n + 1))))      # [lemma] shift
                ix.emit(("pe2", x.get_id()), lambda: Implies(n <= p, x == P(b, n)))                    # [lemma] ext
            elif nm == "INSI":
                b, p, c, s, off = a.children()
                ix.emit(("pi", x.get_id()), lambda: Implies(n <= p, x == P(b, n)))                     # [lemma] ext
                if is_int_value(off) and off.as_long() == 0:
                    ix.emit(("pi2", x.get_id()), lambda: Implies(And(p >= 0, c >= 0, n == p + c), x == P(b, p) + P10(p) * P(s, c)))  # [lemma] append
        elif k == z3.Z3_OP_CONST_ARRAY and is_int_value(a.arg(0)) and a.arg(0).as_long() == 0:
            ix.emit(("pz", x.get_id()), lambda: x == 0)                                              # [lemma] zeros
        elif k == z3.Z3_OP_ITE:
            c, p, q = a.children()
            ix.emit(("pite", x.get_id()), lambda: x == If(c, P(p, n), P(q, n)))
    for g in byarr.values():
        for x in g:
            for y in g:
                if x is y:
                    continue
                c = cdiff(x.arg(1), y.arg(1))
                if c == 1:
                    a, m = y.arg(0), y.arg(1)
                    ix.emit(("pu",) + ids(x, y), lambda: Implies(m >= 0, x == y + Select(a, m) * P10(m)))   # [def]
                elif c is None and len(g) <= 6 and x.get_id() < y.get_id():
                    ix.emit(("pe=",) + ids(x, y), lambda: Implies(x.arg(1) == y.arg(1), x == y))


def r_eqa(ix):
    for x in ix.t.get(EQA):
        a, b, n = x.children()
        d = DIFF(a, b, n)
        ix.emit(("eqw", x.get_id()), lambda: Implies(Not(x), And(0 <= d, d < n, Select(a, d) != Select(b, d))))   # [def] <=
        ix.emit(("eqp", x.get_id()), lambda: Implies(x, P(a, n) == P(b, n)))                          # [lemma] ext
        ex = [s for s in ix.t.selects if s.arg(0).eq(a) or s.arg(0).eq(b)]
        for s in ex:
            i = s.arg(1)
            ix.emit(("eqi",) + ids(x, i), lambda: Implies(And(x, 0 <= i, i < n), Select(a, i) == Select(b, i)))  # [def] =>


DIGW = Function("DIGW", AI, I, I)
DIGR = Function("DIGR", AI, I, I, B)        # all a[k] in 0..9 for lo <= k < hi
DIGRW = Function("DIGRW", AI, I, I, I)


def r_digr(ix):
    for x in ix.t.get(DIGR):
        a, lo, hi = x.children()
        w = DIGRW(a, lo, hi)
        ix.emit(("drw", x.get_id()), lambda: Or(x, And(lo <= w, w < hi, Or(Select(a, w) < 0, Select(a, w) > 9))))   # [def] <=
        for s in ix.t.selects:
            if s.arg(0).eq(a):
                i = s.arg(1)
                ix.emit(("dr",) + ids(x, i), lambda: Implies(And(x, lo <= i, i < hi), And(s >= 0, s <= 9)))        # [def]


def mention(*ts):
    """A vacuous hint that makes terms known to the instantiation rules."""
    one = lambda t: Function("MENTION_" + str(t.sort()).replace("(", "_").replace(",", "_").replace(" ", "").replace(")", ""), t.sort(), B)(t) == True
    return tag(And([one(t) for t in ts]), "mention")


def r_dig(ix):
    for x in ix.t.get(DIG):
        a, n = x.arg(0), x.arg(1)
        w = DIGW(a, n)
        ix.emit(("dgw", x.get_id()), lambda: Or(x, And(0 <= w, w < n, Or(Select(a, w) < 0, Select(a, w) > 9))))   # [def] <=
    for x in ix.t.get(DIG):
        a, n = x.arg(0), x.arg(1)
        for s in ix.t.selects:
            if s.arg(0).eq(a):
                i = s.arg(1)
                ix.emit(("dg",) + ids(x, i), lambda: Implies(And(x, 0 <= i, i < n), And(s >= 0, s <= 9)))        # [def]


def r_val(ix):
    e = exposed(ix)
    for x in ix.t.get(Val):
        s, a, n = x.children()
        if a.get_id() in e:
            p = P(a, n)
            ix.emit(("v", x.get_id()), lambda: x == If(s > 0, p, If(s < 0, -p, IntVal(0))))            # [def]
        elif is_int_value(s) and s.as_long() == 0:
            ix.emit(("v", x.get_id()), lambda: x == 0)
    # changing only the sign: relate values that share digits
    vs = ix.t.get(Val)
    for i in range(len(vs)):
        for j in range(i):
            x, y = vs[i], vs[j]
            if x.arg(1).eq(y.arg(1)) and x.arg(2).eq(y.arg(2)) and not x.arg(0).eq(y.arg(0)):
                p = P(x.arg(1), x.arg(2))
                for z in (x, y):
                    s = z.arg(0)
                    ix.emit(("v", z.get_id()), lambda: z == If(s > 0, p, If(s < 0, -p, IntVal(0))))


def r_canon(ix):
    e = exposed(ix)
    for x in ix.t.get(CANON):
        s, a, n = x.children()
        v = Val(s, a, n)
        ix.emit(("cs", x.get_id()), lambda: Implies(x, And(s >= -1, s <= 1, n >= 0, n <= LIMI, (s == 0) == (n == 0),
                                                   (v > 0) == (s == 1), (v < 0) == (s == -1), (v == 0) == (s == 0))))  # [def]+[lemma] sign
        if a.get_id() in e:
            ix.emit(("cd", x.get_id()), lambda: Implies(x, And(DIG(a, n), Implies(n > 0, Select(a, simplify(n - 1)) != 0))))     # [def]
            if any(True for _ in ix.t.get(P10)) or True:
                ix.emit(("cl", x.get_id()), lambda: Implies(And(x, n > 0), And(P(a, n) >= P10(simplify(n - 1)), P(a, n) < P10(n))))  # [lemma] lead


def r_div(ix):
    for f in (TDIV, TMOD):
        for x in ix.t.get(f):
            a, b = x.children()
            q, r = TDIV(a, b), TMOD(a, b)
            ix.emit(("td",) + ids(a, b), lambda: Implies(b != 0, And(a == q * b + r,
                    r < If(b >= 0, b, -b), -r < If(b >= 0, b, -b), Implies(a >= 0, r >= 0), Implies(a <= 0, r <= 0),
                    Implies(And(a >= 0, b > 0), And(q >= 0, q <= a)))))                          # [def]


def r_fact(ix):
    ts = ix.t.get(FACT)
    for x in ts:
        n = x.arg(0)
        ix.emit(("f0", x.get_id()), lambda: And(Implies(n <= 0, x == 1), Implies(n > 0, x == n * FACT(simplify(n - 1)))) if len(ts) < 6 else Implies(n <= 0, x == 1))


def r_pow(ix):
    ts = ix.t.get(POW)
    for x in ts:
        b, n = x.children()
        ix.emit(("w0", x.get_id()), lambda: Implies(n <= 0, x == 1))                                   # [def]
        for y in ts:
            if x is y or not x.arg(0).eq(y.arg(0)):
                continue
            c = cdiff(x.arg(1), y.arg(1))
            if c == 1:
                ix.emit(("w1",) + ids(x, y), lambda: Implies(y.arg(1) >= 0, x == x.arg(0) * y))          # [def]


def r_gcd(ix):
    for x in ix.t.get(GCD):
        a, b = x.children()
        ix.emit(("g0", x.get_id()), lambda: Implies(b == 0, x == If(a >= 0, a, -a)))                  # [def]
        if is_int_value(b) and b.as_long() == 1:
            ix.emit(("g1", x.get_id()), lambda: And(x == 1, GQ1(a, b) == a, GQ2(a, b) == 1))           # [lemma] gcd_one
    gs = ix.t.get(GCD)
    if 1 < len(gs) <= 8:
        for i in range(len(gs)):
            for j in range(i):
                (a, b), (c, d) = gs[i].children(), gs[j].children()
                g, h = gs[i], gs[j]
                pm = lambda u, w: Or(u == w, u == -w)
                ix.emit(("gs",) + ids(g, h), lambda: And(Implies(And(pm(a, c), pm(b, d)), g == h), Implies(And(pm(a, d), pm(b, c)), g == h)))   # [lemma] gcd_abs, gcd_comm
                for (u, fu) in ((a, GQ1(a, b)), (b, GQ2(a, b))):
                    for (w, fw) in ((c, GQ1(c, d)), (d, GQ2(c, d))):
                        ix.emit(("gt",) + ids(fu, fw), lambda: And(Implies(And(g == h, g > 0, u == w), fu == fw), Implies(And(g == h, g > 0, u == -w), fu == -fw)))   # [lemma] gq_same
    for x in ix.t.get(LCM):
        a, b = x.children()
        q = GQ1(a, b)
        ix.emit(("lcm", x.get_id()), lambda: x == If(Or(a == 0, b == 0), IntVal(0), If(q >= 0, q, -q) * If(b >= 0, b, -b)))   # [def]
    for x in ix.t.get(TDIV):
        a, b = x.children()
        if z3.is_app(b) and b.decl().name() == "GCD":
            u, w = b.children()
            ix.emit(("gq", x.get_id()), lambda: Implies(b != 0, And(TDIV(u, b) == GQ1(u, w), TDIV(w, b) == GQ2(u, w),
                                                                    u == b * GQ1(u, w), w == b * GQ2(u, w))))  # [lemma] gq_div, gcd_divides


TXTV = Function("TXTV", AI, I, I, I)        # decimal value of the characters a[lo..hi)
TXTD = Function("TXTD", AI, I, I, B)        # all of a[lo..hi) are '0'..'9'
TXTW = Function("TXTW", AI, I, I, I)
HX = Function("HX", I, AI, I, I)            # hash of a sign and digits (fold)


def r_txt(ix):
    ts = ix.t.get(TXTV)
    for x in ts:
        a, lo, hi = x.children()
        ix.emit(("t0", x.get_id()), lambda: Implies(hi <= lo, x == 0))                                # [def]
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
            b, i, v = a.children()
            ix.emit(("ts", x.get_id()), lambda: Implies(Or(i >= hi, i < lo), x == TXTV(b, lo, hi)))    # [lemma] txt_ext
            if cdiff(hi, i) == 1:
                ix.emit(("ts1", x.get_id()), lambda: Implies(i >= lo, x == 10 * TXTV(b, lo, i) + v - 48))   # [def]+[lemma] txt_ext
        elif z3.is_app(a) and a.decl().name() == "INSI":
            b, p, c, s, off = a.children()
            ix.emit(("ti", x.get_id()), lambda: Implies(And(hi <= p, lo >= 0), x == TXTV(b, lo, hi)))  # [lemma] txt_ext
        for y in ts:
            if x is y or not x.arg(0).eq(y.arg(0)) or not x.arg(1).eq(y.arg(1)):
                continue
            if cdiff(x.arg(2), y.arg(2)) == 1:
                m = y.arg(2)
                ix.emit(("tu",) + ids(x, y), lambda: Implies(m >= lo, x == 10 * y + Select(a, m) - 48))   # [def]
    for x in ix.t.get(TXTD):
        a, lo, hi = x.children()
        w = TXTW(a, lo, hi)
        ix.emit(("tdw", x.get_id()), lambda: Or(x, And(lo <= w, w < hi, Or(Select(a, w) < 48, Select(a, w) > 57))))   # [def] <=
        for s in ix.t.selects:
            if s.arg(0).eq(a):
                i = s.arg(1)
                ix.emit(("td2",) + ids(x, i), lambda: Implies(And(x, lo <= i, i < hi), And(s >= 48, s <= 57)))        # [def] =>


RULES = [r_txt, r_select_store, r_field_of_element, r_string_value, r_p10, r_mono, r_P, r_eqa, r_dig, r_digr, r_canon, r_val, r_div, r_fact, r_pow, r_gcd]


# ---------------------------------------------------------------- goals
_sk = [0]


def expand_goal(g):
    """Splits a goal into named sub-goals; defined predicates are unfolded, universal ones skolemised."""
    if z3.is_and(g):
        res = []
        for c in g.children():
            res += expand_goal(c)
        return res
    if z3.is_implies(g):
        return [(nm, Implies(g.arg(0), f)) for nm, f in expand_goal(g.arg(1))]
    if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_UNINTERPRETED and g.num_args() > 0:
        n = g.decl().name()
        if n == "CANON":
            s, a, l = g.children()
            return [("sign", And(s >= -1, s <= 1)), ("length", l >= 0), ("zero-iff-no-digits", (s == 0) == (l == 0)),
                    ("no-leading-zero", Implies(l > 0, Select(a, simplify(l - 1)) != 0))] + expand_goal(DIG(a, l))
        if n == "DIG":
            a, l = g.children()
            k = Const("k!dig", I)
            return [("digit-range", Implies(And(0 <= k, k < l), And(Select(a, k) >= 0, Select(a, k) <= 9)))]
        if n == "DIGR":
            a, lo, hi = g.children()
            k = Const("k!dig", I)
            return [("digit-range", Implies(And(lo <= k, k < hi), And(Select(a, k) >= 0, Select(a, k) <= 9)))]
        if n == "TXTD":
            a, lo, hi = g.children()
            k = Const("k!dig", I)
            return [("decimal-characters", Implies(And(lo <= k, k < hi), And(Select(a, k) >= 48, Select(a, k) <= 57)))]
        if n == "EQA":
            a, b, l = g.children()
            k = Const("k!eq", I)
            return [("equal-arrays", Implies(And(0 <= k, k < l), Select(a, k) == Select(b, k)))]
    if z3.is_quantifier(g) and g.is_forall():
        vs = [Const("sk!%s" % g.var_name(i), g.var_sort(i)) for i in range(g.num_vars())]
        body = z3.substitute_vars(g.body(), *reversed(vs))
        return expand_goal(body)
    return [("", g)]


# ---------------------------------------------------------------- lemma instances used as hints
TAGGED = {}


def tag(f, name):
    TAGGED[f.get_id()] = (f, name)
    return f


def lemma(fn):
    """Marks the instances produced by fn as instances of a proved lemma (or of a definition)."""
    def g(*a):
        return tag(fn(*a), fn.__name__)
    g.__name__ = fn.__name__
    g.__doc__ = fn.__doc__
    return g


def is_tagged(f):
    t = TAGGED.get(f.get_id())
    return t is not None and t[0].eq(f)


# (each is proved from the definitions by lemmas.py)
@lemma
def canon_unique(s, a, n, t, b, m):
    """[lemma canon_unique] equal values have equal representations"""
    return Implies(And(CANON(s, a, n), CANON(t, b, m), Val(s, a, n) == Val(t, b, m)), And(s == t, n == m, EQA(a, b, n)))


@lemma
def tdiv_unique(a, b, q, r):
    """[lemma tdiv_unique] truncating quotient and remainder are unique"""
    ab = If(b >= 0, b, -b)
    return Implies(And(b != 0, a == q * b + r, r < ab, -r < ab, Implies(a >= 0, r >= 0), Implies(a <= 0, r <= 0)),
                   And(TDIV(a, b) == q, TMOD(a, b) == r))


@lemma
def tmod_neg(k, n):
    """[lemma tmod_neg]"""
    return Implies(n > 0, TMOD(simplify(-k), n) == -TMOD(k, n))


@lemma
def tmod_small(k, n):
    """[lemma tmod_small]"""
    return Implies(And(k < n, -k < n), TMOD(k, n) == k)


@lemma
def tmod_range(k, n):
    """[lemma tmod_range]"""
    r = TMOD(k, n)
    return Implies(n > 0, And(r < n, -r < n, Implies(k >= 0, r >= 0), Implies(k <= 0, r <= 0)))


@lemma
def p10_add(m, n):
    """[lemma p10_add]"""
    return Implies(And(m >= 0, n >= 0), P10(simplify(m + n)) == P10(m) * P10(n))


@lemma
def pow_square(b, n, h):
    """[lemma pow_square] b^n = (b*b)^h for n = 2h, b*(b*b)^h for n = 2h+1"""
    return And(Implies(And(h >= 0, n == 2 * h), POW(b, n) == POW(b * b, h)),
               Implies(And(h >= 0, n == 2 * h + 1), POW(b, n) == b * POW(b * b, h)))


@lemma
def tmod_mul(x, y, m):
    """[lemma tmod_mul] (x mod m) * y = x * y (mod m)"""
    return Implies(m != 0, TMOD(TMOD(x, m) * y, m) == TMOD(x * y, m))


@lemma
def pow_tmod(b, n, m):
    """[lemma pow_tmod]  c*(b mod m)^n = c*b^n (mod m), stated for c in tmod_pow_c"""
    return Implies(And(m != 0, n >= 0), TMOD(POW(TMOD(b, m), n), m) == TMOD(POW(b, n), m))


@lemma
def gcd_step(a, b):
    """[lemma gcd_step] Euclid: gcd(a, b) = gcd(b, a mod b), and gcd ignores signs"""
    return Implies(b != 0, GCD(a, b) == GCD(b, TMOD(a, b)))


@lemma
def gcd_sub(a, b):
    """[lemma gcd_sub]"""
    return GCD(a, simplify(a - b)) == GCD(a, b)


@lemma
def gcd_abs(a, b):
    """[lemma gcd_abs]"""
    aa, bb = If(a >= 0, a, -a), If(b >= 0, b, -b)
    return GCD(a, b) == GCD(aa, bb)


@lemma
def gcd_divides(a, b):
    """[lemma gcd_divides] the gcd is positive unless both are zero, and divides both"""
    g = GCD(a, b)
    return And(g >= 0, (g == 0) == And(a == 0, b == 0), a == g * GQ1(a, b), b == g * GQ2(a, b))


GQ1 = Function("GQ1", I, I, I)      # a / gcd(a, b)
GQ2 = Function("GQ2", I, I, I)


@lemma
def gcd_reduced(a, b):
    """[lemma gcd_reduced] a/gcd and b/gcd are coprime"""
    return Implies(Or(a != 0, b != 0), GCD(GQ1(a, b), GQ2(a, b)) == 1)


@lemma
def reduced_unique(a, b, c, d):
    """[lemma reduced_unique] equal fractions in lowest terms have equal components"""
    return Implies(And(b > 0, d > 0, GCD(a, b) == 1, GCD(c, d) == 1, a * d == c * b), And(a == c, b == d))


@lemma
def nodiv_prime(n, k):
    """[lemma nodiv_prime] no divisor below k and k*k > n: no proper divisor at all"""
    return Implies(And(n >= 2, k >= 2, NODIV(n, k), k * k > n), NODIV(n, n))


@lemma
def nodiv_step(n, k):
    """[lemma nodiv_step] (k >= 2)"""
    return Implies(k >= 2, NODIV(n, simplify(k + 1)) == And(NODIV(n, k), TMOD(n, k) != 0))


@lemma
def nodiv_even(n, m):
    """[lemma nodiv_even] an even number above 2 is not prime"""
    return Implies(And(n == 2 * m, n > 2), Not(NODIV(n, n)))


@lemma
def odd_no_even_divisor(n, d):
    """[lemma odd_no_even_divisor]"""
    return Implies(And(n % 2 == 1, d % 2 == 0, d > 0), TMOD(n, d) != 0)


@lemma
def nodiv_found(n, k):
    """[lemma nodiv_found] a divisor below n"""
    return Implies(And(2 <= k, k < n, TMOD(n, k) == 0), Not(NODIV(n, n)))


def isprime(n):
    return And(n >= 2, NODIV(n, n))


NOPRIME = Function("NOPRIME", I, I, B)      # no prime p with lo < p <= hi


@lemma
def noprime_step(lo, hi):
    """[def] NOPRIME(lo, hi)"""
    return And(Implies(hi <= lo, NOPRIME(lo, hi)), Implies(hi > lo, NOPRIME(lo, hi) == And(NOPRIME(lo, simplify(hi - 1)), Not(isprime(hi)))))


NEXTP = Function("NEXTP", I, I)             # a prime above n (there is one: Euclid, trusted)


@lemma
def nextp(n, p):
    """[axiom Euclid] NEXTP(n) is a prime > n;  [def] NOPRIME excludes it"""
    q = NEXTP(n)
    return And(q > n, isprime(q), Implies(NOPRIME(n, p), q > p))


@lemma
def noprime_low(lo):
    """[lemma noprime_low] there is no prime <= 1"""
    return NOPRIME(lo, IntVal(1))


@lemma
def pow_one(n):
    """[lemma pow_one] (n >= 0)"""
    return Implies(n >= 0, And(POW(IntVal(1), n) == 1, POW(IntVal(-1), n) == If(n % 2 == 0, IntVal(1), IntVal(-1))))


@lemma
def pow_zero(n):
    """[lemma pow_zero]"""
    return Implies(n > 0, POW(IntVal(0), n) == 0)


@lemma
def pow_tmod_c(c, x, h, m):
    """[lemma pow_tmod_c] c * (x mod m)^h = c * x^h (mod m)"""
    return Implies(And(m != 0, h >= 0), TMOD(c * POW(TMOD(x, m), h), m) == TMOD(c * POW(x, h), m))


@lemma
def p10_pow(n):
    """[lemma p10_pow]"""
    return Implies(n >= 0, P10(n) == POW(IntVal(10), n))


@lemma
def hx_eq(s, a, b, n):
    """[lemma hx_ext]"""
    return Implies(EQA(a, b, n), HX(s, a, n) == HX(s, b, n))


@lemma
def nodiv_base(n):
    """[def] there is no d in [2,2)"""
    return NODIV(n, IntVal(2))


HALF = Function("HALF", I, I)


@lemma
def half_def(x):
    """[def] HALF(x) = floor(x / 2)"""
    return And(2 * HALF(x) <= x, x <= 2 * HALF(x) + 1)
