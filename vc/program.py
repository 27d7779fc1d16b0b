"""The program under verification: clang's AST of the current headers, the contracts attached to its
functions, and the look-ups the symbolic executor needs."""
import re
import z3
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal
from . import cppast, engine, theory
from .cppast import qt, strip, is_ref, Ast, fname, fsig
from .engine import Exec, Env, Frame, Cell, Struct, Vec, Unsupported, Thrown, Ret, PathEnd, Ptr, snap, Snap, VSnap, CSnap, norm_sig
from .stdmodels import Models


def ptypes(f):
    return [tnorm(qt0(p)) for p in Ast.params(f)]


def qt0(p):
    t = p.get("type") or {}
    return t.get("desugaredQualType") or t.get("qualType") or ""


def tnorm(t):
    return t.replace("pyincpp_probe::", "").replace("pyincpp::", "").replace("std::__cxx11::", "std::").replace(" ", "")


def targs(c):
    """The type arguments of a class template specialisation, packs expanded."""
    res = []
    for x in c["inner"]:
        if x and x["kind"] == "TemplateArgument":
            if x.get("isPack") or ("type" not in x and x.get("value") is None):
                res += [(y.get("type") or {}).get("qualType", "?") for y in x.get("inner") or [] if y and y["kind"] == "TemplateArgument"]
            else:
                res.append((x.get("type") or {}).get("qualType", "?"))
    return res


class LoopSpec:
    """Invariant of one loop.  inv(L) -> [(name, formula)]; variant(L) -> term or tuple."""

    def __init__(self, inv, variant=None, hints=None, exit_hints=None, step_hints=None, entry_hints=None):
        self._inv, self._variant, self._hints, self._eh, self._sh, self._nh = inv, variant, hints, exit_hints, step_hints, entry_hints

    def entry_hints(self, L):
        return self._nh(L) if self._nh else []

    def inv(self, L):
        return self._inv(L)

    def variant(self, L):
        return self._variant(L) if self._variant else None

    def hints(self, L):
        return self._hints(L) if self._hints else []

    def exit_hints(self, L):
        return self._eh(L) if self._eh else []

    def step_hints(self, L):
        return self._sh(L) if self._sh else []


class Contract:
    """Contract of one function.

    cls, name   class (None: free function in internal::) and function name
    params      normalised parameter types (list) or None to match by count `nparams`
    requires/ensures(e) -> [(name, formula)], throws(e) -> formula (exact condition) or None,
    modifies(e) -> objects, result(e) -> value, measure(e) -> term
    props       property ids this function's obligations decide
    """
    cls = None
    name = None
    params = None
    nparams = None
    const = None
    group = None
    props = ()
    loops = ()
    alts = ()            # alternative lists of loop annotations (see readings.py)
    aliases = (None,)
    trusted = False
    determined = None    # e -> terms: the result is a function of these (two-run obligation)
    inline = False       # verified, but executed in place at call sites
    reals = False        # idealise: double arithmetic is exact real arithmetic

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)
        if getattr(self, "title", None) is None:
            self.title = (self.cls + "::" if self.cls else "") + self.name + (self.suffix if hasattr(self, "suffix") else "")

    def requires(self, e):
        f = getattr(self, "pre", None)
        return f(e) if f else []

    def ensures(self, e):
        f = getattr(self, "post", None)
        return f(e) if f else []

    def throws(self, e):
        f = getattr(self, "raises", None)
        return f(e) if f else False

    def may_throw(self, e):
        """only-when condition of a throw (throws() is exact: if and only if)"""
        f = getattr(self, "may_raise", None)
        return f(e) if f else None

    def modifies_thrown(self, e):
        """objects a throwing call may leave modified (everything else is unchanged)"""
        f = getattr(self, "throw_frame", None)
        return f(e) if f else []

    def modifies(self, e):
        f = getattr(self, "frame", None)
        return f(e) if f else []

    def result(self, e):
        f = getattr(self, "ret", None)
        return f(e) if f else None

    def measure(self, e):
        f = getattr(self, "decreases", None)
        return f(e) if f else None

    def call_hints(self, e):
        f = getattr(self, "lemmas", None)
        return f(e) if f else []

    def proof_hints(self, e):
        f = getattr(self, "proof", None)
        return f(e) if f else []

    def annotations(self, sel=None):
        """the loop annotations: the contract's own, or alternative `sel` (the same function with its loops written otherwise)"""
        return self.loops if sel is None else self.alts[sel]

    def matches(self, d):
        if d.get("name") != self.name:
            return False
        c = d.get("_cls")
        cn = c.get("name") if c else None
        if cn != self.cls:
            return False
        ps = Ast.params(d)
        if self.nparams is not None and len(ps) != self.nparams:
            return False
        if self.params is not None and ptypes(d) != [p.replace(" ", "") for p in self.params]:
            return False
        if self.const is not None:
            sig = fsig(d)
            if sig.rstrip().endswith("const") != self.const:
                return False
        if getattr(self, "pred", None) is not None and not self.pred(d):
            return False
        return True


class Program:
    def __init__(self, ast, contracts, assoc=None):
        self.ast = ast
        self.contracts = contracts
        self.models = Models(self)
        from .assoc import Assoc
        self.assoc = assoc or Assoc(self)
        self.quickcache = {}
        self.elem = "Elem"          # the element type at which the templates are instantiated
        self.opaque_types = {"Elem", "T1", "T2", "T3", "Val", "Tail"}
        self.functor_types = {"Pred", "Act", "Cmp"}
        self._ct = {}
        self._globals = {}
        self._cn = {}
        self._loops = {}
        self.readings = {}     # (function, loop) -> engine.Reading
        self.perm_log = {}     # (function, loop) -> number of ways to give its named roles to its variables
        self.altsel = {}       # function -> index into its contract's alternative annotations
        self.align = {}        # function -> {loop: annotation}, where their numbers differ
        self.role_log = {}     # (function, loop) -> the counters its annotation speaks of
        self.enums = {}
        self.specs = {}
        self.functors = {}
        for key, cls in list(ast.classes.items()):
            for c in cls:
                if c["kind"] == "ClassTemplateSpecializationDecl":
                    ta = [tnorm(x) for x in targs(c)]
                    self.specs["%s<%s>" % (key, ",".join(ta))] = c

    # ------------------------------------------------------------ types
    def classnode(self, typ):
        t = tnorm(strip(typ))
        if t in self._cn:
            return self._cn[t]
        r = None
        if "<" in t:
            r = self.specs.get(t)
        else:
            for c in self.ast.classes.get(t, ()):
                if c["kind"] == "CXXRecordDecl" and t not in self.opaque_types and t in ("Int", "Fraction", "Complex", "Str"):
                    r = c
        self._cn[t] = r
        return r

    def classkey(self, typ):
        return tnorm(strip(typ))

    def desc(self, ex, typ):
        return self.models.desc(ex, typ)

    def is_enum(self, t):
        t = t.replace("pyincpp::", "")
        if t in self.enums:
            return self.enums[t] is not None
        node = None
        for d in self.ast.byid.values():
            if d["kind"] == "EnumDecl" and d.get("name") and d["name"] == t.split("::")[-1]:
                node = d
        self.enums[t] = node
        return node is not None

    def enum_values(self, t):
        node = self.enums.get(t.replace("pyincpp::", ""))
        return [self.enum_const(c) for c in node.get("inner") or [] if c["kind"] == "EnumConstantDecl"]

    def enum_const(self, d):
        did = d["id"]
        for node in self.ast.byid.values():
            if node["kind"] != "EnumDecl":
                continue
            v = -1
            for c in node.get("inner") or []:
                if c.get("kind") != "EnumConstantDecl":
                    continue
                v += 1
                x = c
                while x.get("inner"):
                    x = x["inner"][0]
                    if x.get("kind") == "ConstantExpr" and "value" in x:
                        v = int(x["value"])
                if c["id"] == did:
                    return v
        raise Unsupported("enumerator " + d.get("name", "?"))

    def global_var(self, ex, d):
        did = d["id"]
        if did in self._globals:
            return self._globals[did]
        node = self.ast.byid.get(did)
        nm = d.get("name") or (node or {}).get("name")
        if node is None:
            if nm == "npos":
                return Cell(ex, "npos", IntVal((1 << 64) - 1), "unsigned long")
            if "_ordering" in qt(d) and nm in ("less", "equal", "equivalent", "greater"):
                return Cell(ex, nm, IntVal({"less": -1, "greater": 1}.get(nm, 0)), qt(d))
            raise Unsupported("global " + str(nm))
        init = [c for c in node.get("inner") or [] if c and not c["kind"].endswith("Attr") and not c["kind"].endswith("Comment")]
        t = qt(node)
        if not init:
            raise Unsupported("global without a value: " + str(nm))
        if not (node.get("constexpr") or t.startswith("const ")):
            raise Unsupported("mutable global " + str(nm))
        old = ex.frame
        ex.frame = Frame(chain="g%s/" % did)
        try:
            v = ex.rv(init[0])
        finally:
            ex.frame = old
        c = Cell(ex, "g/" + str(nm), v, t)
        c.birth = 0
        if z3.is_expr(v) and z3.is_int_value(z3.simplify(v)):
            c.val = z3.simplify(v)
            self._globals[did] = c
        return c

    def default_of(self, ex, p):
        init = [c for c in p.get("inner") or [] if c and not c["kind"].endswith("Comment")]
        if not init:
            raise Unsupported("default argument of " + str(p.get("name")))
        old = ex.frame
        ex.frame = Frame(chain=(old.chain if old else "") + "d/")
        try:
            return ex.ev(init[0])
        finally:
            ex.frame = old

    def default_arg(self, ex, n):
        raise Unsupported("default argument")

    # ------------------------------------------------------------ contracts
    def contract_for(self, d):
        i = d["id"]
        if i in self._ct:
            return self._ct[i]
        r = None
        for c in self.contracts:
            if c.matches(d):
                r = c
                break
        self._ct[i] = r
        return r

    def call_contract(self, d):
        c = self.contract_for(d)
        return None if c is not None and c.inline else c

    def find_function(self, ct):
        seen = set()
        res = []
        for f in self.ast.funcs:
            if f.get("_dependent") or f["id"] in seen:
                continue
            if ct.matches(f) and self.contract_for(f) is ct:
                seen.add(f["id"])
                res.append(f)
        # a template's contract is decided on the instantiation with the uninterpreted element type
        if self.elem == "Elem":
            gen = [f for f in res if "Elem" in str(self.class_typename(f) or "") + fsig(f)]
        else:
            gen = [f for f in res if re.search(r"<(.*\W)?%s\b" % self.elem, self.class_typename(f) or fsig(f))]
        gen.sort(key=lambda f: "pair<" in str(self.class_typename(f) or ""))
        return gen or res

    # ------------------------------------------------------------ loops
    def loop_index(self, ex, key):
        k = ex.fn["id"]
        if k not in self._loops:
            self._loops[k] = {x: i for i, x in enumerate(self.scan_loops(ex.fn))}
        return self._loops[k].get(key)

    def scan_loops(self, fn):
        out = []

        def walk(n, chain, stack):
            k = n.get("kind")
            if k in ("WhileStmt", "ForStmt", "DoStmt", "CXXForRangeStmt"):
                out.append(chain + str(n["id"]))
            if k == "LambdaExpr":
                return
            d = None
            if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
                c = (n.get("inner") or [{}])[0]
                while c.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
                    c = c["inner"][0]
                if c.get("kind") == "DeclRefExpr":
                    rd = c["referencedDecl"]
                    d = self.ast.byid.get(rd["id"])
                    if d is None and rd.get("name") == "for_each":
                        out.append(chain + str(n["id"]))
                        for a in n["inner"][1:]:
                            lam = find_lambda(a)
                            if lam is not None:
                                op = self.lambda_op(lam)
                                if op is not None:
                                    walk_children(op, chain + str(n["id"]) + "/", stack)
                elif c.get("kind") == "MemberExpr":
                    d = self.ast.byid.get(c.get("referencedMemberDecl"))
            elif k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                pass
            for c in n.get("inner") or []:
                if c:
                    walk(c, chain, stack)
            if d is not None and d["kind"] in ("FunctionDecl", "CXXMethodDecl", "CXXConversionDecl") and Ast._hasbody(d) \
                    and self.call_contract(d) is None and d["id"] not in stack and len(stack) < 12:
                walk_children(d, chain + str(n["id"]) + "/", stack + [d["id"]])

        def walk_children(d, chain, stack):
            for c in d.get("inner") or []:
                if c:
                    walk(c, chain, stack)

        def find_lambda(n):
            if n.get("kind") == "LambdaExpr":
                return n
            for c in n.get("inner") or []:
                if c:
                    r = find_lambda(c)
                    if r is not None:
                        return r
            return None
        walk_children(fn, "", [fn["id"]])
        return out

    def lambda_op(self, lam):
        for rec in lam.get("inner") or []:
            if rec.get("kind") != "CXXRecordDecl":
                continue
            op = None
            for c in rec.get("inner") or []:
                if c["kind"] == "CXXMethodDecl" and c.get("name") == "operator()":
                    op = c
                if c["kind"] == "FunctionTemplateDecl" and c.get("name") == "operator()":
                    for x in (c.get("inner") or [])[1:]:
                        if x["kind"] == "CXXMethodDecl" and Ast._hasbody(x):
                            op = x
            return op
        return None

    def pack_size(self, fn, name):
        """sizeof...(name) inside the template instance fn."""
        c = fn.get("_cls")
        if c is not None and c["kind"] == "ClassTemplateSpecializationDecl":
            n = len(targs(c))
            for x in self.ast.classes.get(c.get("name"), ()):
                if x["kind"] == "ClassTemplatePartialSpecializationDecl":
                    ps = [y for y in x.get("inner") or [] if y and y["kind"] == "TemplateTypeParmDecl"]
                    if ps and ps[-1].get("isParameterPack") and ps[-1].get("name") == name and n >= len(ps) - 1:
                        return n - (len(ps) - 1)
        packs = [x for x in fn.get("inner") or [] if x and x["kind"] == "TemplateArgument" and "type" not in x and "value" not in x]
        if len(packs) == 1:
            return len([y for y in packs[0].get("inner") or [] if y and y["kind"] == "TemplateArgument"])
        return None

    # ------------------------------------------------------------ misc hooks
    def gcd_facts(self, ex, x, y, g):
        from . import theory as T
        return T.igcd_facts(ex, x, y, g) if hasattr(T, "igcd_facts") else []

    def hash_string(self, ex, v):
        pass

    def loop_spec(self, ct, fn, idx):
        if ct is None or idx is None:
            return None
        ann = ct.annotations(self.altsel.get(fn["id"]))
        k = self.align.get(fn["id"], {}).get(idx, idx)
        return ann[k] if 0 <= k < len(ann) else None

    def override(self, ex, d, this, vals, n):
        return NotImplemented

    # ------------------------------------------------------------ verification of one function
    def verify(self, ct, fn, alias=None):
        ex = Exec(self, fn, ct, alias)
        is_ctor = fn["kind"] == "CXXConstructorDecl"
        static = fn["kind"] == "FunctionDecl" or fn.get("storageClass") == "static"

        def run():
            ex.extra_objects = []
            cn = fn.get("_cls")
            clsname = self.class_typename(fn)
            fr = Frame(chain="")
            this = None
            if not static and cn is not None:
                this = ex.new_object(clsname, "this", init=not is_ctor and True, symbolic=not is_ctor)
            args = []
            for i, p in enumerate(Ast.params(fn)):
                t = qt(p)
                nm = p.get("name") or ("arg%d" % i)
                if alias is not None and alias.get(i) == "this":
                    args.append(this)
                    continue
                if alias is not None and alias.get(i) == "elem":
                    # one of the object's own elements
                    vv = engine.vec_of(this)
                    if hasattr(vv, "assoc"):
                        args.append(self.assoc.own_ref(ex, vv))
                        continue
                    ix = ex.fresh("own")
                    ex.assume(ix >= 0, ix < vv.len)
                    args.append(engine.ElemRef(vv, ix))
                    continue
                if alias is not None and isinstance(alias.get(i), int):
                    args.append(args[alias[i]])
                    continue
                mk = getattr(ct, "make_arg", None)
                v = mk(ex, i, p) if mk else None
                if v is None:
                    v = self.models.symbolic(ex, t, nm)
                if isinstance(v, (Struct, Vec)):
                    args.append(v)
                elif isinstance(v, (Cell, engine.ElemRef)):
                    args.append(v)
                else:
                    args.append(Cell(ex, nm, v, t))
            env = Env(ex, this, args)
            ex.env = env
            env.fn = fn
            for nm, f in ct.requires(env):
                ex.assume(f)
            env.take_old()
            ex.measure0 = ct.measure(env)
            ex.hints.extend(ct.proof_hints(env))
            if is_ctor:
                env.old_this_missing = True
            pre = {}
            roots = ([this] if this is not None else []) + [a for a in args]
            seen = set()
            fr.this = this
            fr.fn = fn
            for p, a in zip(Ast.params(fn), args):
                # by-value parameters are the callee's own objects
                if not is_ref(qt(p)) and isinstance(a, (Struct,)):
                    fr.vars[p["id"]] = a
                else:
                    fr.vars[p["id"]] = a
            ex.frame = fr
            ex.callstack = [fn]
            thrown = None
            ret = None
            try:
                if is_ctor:
                    ex.ctor_inits(fn, this)
                b = Ast.body(fn)
                try:
                    ex.st(b)
                except Ret as r:
                    ret = r.v
            except Thrown as t:
                thrown = t
            ex.cur_line = fn.get("_line")
            ex.cur_file = fn.get("_file")
            env.ret = ret
            old = env.old
            oldenv = OldEnv(env)
            if thrown is not None:
                th = ct.may_throw(oldenv)
                if th is None:
                    th = ct.throws(oldenv)
                loose = ct.modifies_thrown(env)
                if thrown.typ.split("::")[-1] != "runtime_error" and not getattr(ct, "any_exception", False):
                    ex.obl("throws-runtime_error", BoolVal(False), thrown.node)
                ex.obl("throws-only-when-specified", th if th is not False and th is not None else BoolVal(False), thrown.node)
                for r in roots:
                    if r is this and is_ctor:
                        continue
                    if any(m is r for m in loose):
                        continue
                    self.unchanged(ex, r, self.old_of(env, r), "unchanged-when-thrown")
                return
            th = ct.throws(oldenv)
            if th is not None and th is not False:
                ex.obl("throws-whenever-specified", Not(th) if z3.is_expr(th) else BoolVal(not th))
            if is_ctor:
                env.ret = this
            for nm, f in ct.ensures(env):
                ex.obl("ensures(%s)" % nm, f, assume=False)
            if ct.determined is not None:
                ends.append((list(ex.pc), list(ct.determined(oldenv)), ret, list(ex.trace)))
            rr = ct.result(env)
            if isinstance(rr, (Struct, Vec)):
                ex.obl("returns(the object itself)", BoolVal(ret is rr), assume=False)
            mods = ct.modifies(env)
            for i, r in enumerate(roots):
                if r is this and is_ctor:
                    continue
                if any(m is r for m in mods):
                    continue
                if r is not this:
                    k = i - (1 if this is not None else 0)
                    if not is_ref(qt(Ast.params(fn)[k])):
                        continue
                part = [m for m in mods if isinstance(r, Struct) and any(l is m for l in r.leaves())]
                if part:
                    continue
                self.unchanged(ex, r, self.old_of(env, r), "frame")
        ex.framestack_ = []
        ends = []

        def fresh_run():
            if not ex.prefix:
                del ends[:]
            run()
        ex.explore(fresh_run)
        if ends:
            self.self_composition(ex, ct, ends)
        return ex

    def self_composition(self, ex, ct, ends):
        """The result depends on nothing but ct.determined: two runs that agree on it give the same result."""
        def prime(fs):
            seen, sub, todo, done = {}, [], list(fs), set()
            while todo:
                f = todo.pop()
                if f.get_id() in done:
                    continue
                done.add(f.get_id())
                if z3.is_quantifier(f):
                    todo.append(f.body())
                elif z3.is_const(f) and f.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    sub.append((f, z3.Const(f.decl().name() + "'", f.sort())))
                else:
                    todo += f.children()
            return [z3.substitute(f, *sub) for f in fs] if sub else list(fs)
        for i, (h, d, r, tr) in enumerate(ends):
            for (h2, d2, r2, tr2) in ends[i:]:
                q = prime(h2 + d2 + [r2])
                hp, dp, rp = q[:len(h2)], q[len(h2):-1], q[-1]
                ex.obligations.append(engine.Obligation(ct.title, "ensures(result-depends-only-on-the-value)", ex.fn.get("_line"), ex.fn.get("_file"),
                                                        h + hp + [x == y for x, y in zip(d, dp)], r == rp, [], ex.alias, tr + tr2))

    def old_of(self, env, r):
        if r is env.this:
            return env.old.this
        for a, o in zip(env.args, env.old.args):
            if a is r:
                return o
        return None

    def unchanged(self, ex, o, s, kind):
        ex.nframes += 1       # most are settled without a solver: the state is untouched
        if isinstance(o, Struct):
            if isinstance(s, Snap):
                for k, f in o.fields.items():
                    self.unchanged(ex, f, s.fields[k], kind)
        elif isinstance(o, Vec):
            if o.frozen:
                return
            if hasattr(o, "assoc"):
                for f in self.assoc.unchanged(ex, o, s):
                    ex.obl("%s(%s)" % (kind, o.name.split("/")[-1]), f, assume=False)
                return
            if o.arr.eq(s.arr) and z3.simplify(o.len).eq(z3.simplify(s.len)):
                return
            from .stdmodels import sfn
            ex.obl("%s(%s)" % (kind, o.name.split("/")[-1]), And(o.len == s.len, sfn("EQA", o.desc.sort)(o.arr, s.arr, s.len)), assume=False)
        elif isinstance(o, Cell):
            v = o.val
            if z3.is_expr(v) and z3.is_expr(s.val):
                if v.eq(s.val):
                    return
                ex.obl("%s(%s)" % (kind, o.name.split("/")[-1]), v == s.val, assume=False)

    def class_typename(self, fn):
        c = fn.get("_cls")
        if c is None:
            return None
        if c["kind"] == "ClassTemplateSpecializationDecl":
            ta = targs(c)
            return "%s<%s>" % (c["name"], ", ".join(ta))
        return c["name"]


class OldEnv:
    """The operands as they were on entry (for throws conditions)."""

    def __init__(self, env):
        self.ex = env.ex
        self.this = env.old.this
        self.args = env.old.args
        self.old = env.old
        self.ghost = env.ghost

    val = Env.val
