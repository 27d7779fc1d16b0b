#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [--thorough]: decides one property of /repo's current sources.

1. Deductive stage: the contracts of the functions the property depends on (and of every function they call)
   are turned into proof obligations from clang's AST of /repo/sources, and discharged by z3 / cvc5.
2. Concrete stage: the same property is executed on the real code under ASan + UBSan against an independent
   oracle.  It replays failed obligations (values of the solver's models and the literals of the sources go
   into its dictionary), and it is the bounded stand-in for functions outside the verifier's reach.
"""
import sys, os, json, time, re, subprocess, tempfile, shutil, signal, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(10000)
REPO = os.environ.get("VP_REPO", "/repo")
T0 = time.time()
HARD = 700.0          # seconds for the whole check (a run is cut at 900)
CXX = "g++-14"
CXXFLAGS = ["-std=c++20", "-O1", "-g1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
NSH = 8


def left():
    return HARD - (time.time() - T0)


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ concrete stage
class Harness:
    def __init__(self, pid, work):
        self.pid, self.work = pid, work
        self.src = os.path.join(HERE, "harness", pid + ".cpp")
        self.exists = os.path.exists(self.src)
        self.bin = os.path.join(work, "harness")
        self.cmd = [CXX] + CXXFLAGS + ["-I", os.path.join(HERE, "harness"), "-I", os.path.join(REPO, "sources"), "-o", self.bin, self.src]
        m = re.match(r"// variants: (\d+)", open(self.src).read()) if self.exists else None
        self.variants = int(m.group(1)) if m else 1
        self.procs = []
        self.err = os.path.join(work, "compile.err")
        self.runs = []
        self.total = {"evals": 0, "distinct": 0, "throws": 0}
        self.samples = []
        self.wall = 0.0

    def start_build(self):
        if self.exists:
            for v in range(self.variants):
                cmd = [c + ".%d" % v if c == self.bin else c for c in self.cmd] + ["-DVARIANT=%d" % v]
                self.procs.append(subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(self.err, "w")))

    def shards(self):
        """(variant, shard i of n): half of the processes share the whole of the first variant, the others take a part of one"""
        if self.variants == 1:
            return [(0, s, NSH) for s in range(NSH)]
        first = max(1, NSH - (self.variants - 1))
        return [(0, s, first) for s in range(first)] + [(v, v, NSH) for v in range(1, self.variants)]

    def wait_build(self):
        if not self.exists:
            return False
        ok = True
        for p in self.procs:
            try:
                ok &= p.wait(timeout=max(10, min(300, left()))) == 0
            except subprocess.TimeoutExpired:
                p.kill()
                ok = False
        return ok

    def run(self, secs, seed, dictfile, limit):
        """-> (list of failures, list of findings)"""
        t = time.time()
        ps = []
        shards = self.shards()
        for s, (v, i, n) in enumerate(shards):
            env = dict(os.environ, H_SHARD="%d/%d" % (i, n), H_SECS=str(secs), H_SEED=str(seed), H_DICT=dictfile,
                       ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:hard_rss_limit_mb=3500:allocator_may_return_null=1:exitcode=77:detect_stack_use_after_return=1:max_free_fill_size=1024:free_fill_byte=187",
                       UBSAN_OPTIONS="print_stacktrace=1:exitcode=77")
            o = open(os.path.join(self.work, "out%d" % s), "w+")
            e = open(os.path.join(self.work, "err%d" % s), "w+")
            ps.append((s, subprocess.Popen([self.bin + ".%d" % v], stdout=o, stderr=e, stdin=subprocess.DEVNULL, env=env, cwd=self.work, start_new_session=True), o, e))
        fails, finds = [], []
        end = time.time() + limit
        for s, p, o, e in ps:
            try:
                rc = p.wait(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = "timeout"
            o.seek(0)
            e.seek(0)
            out = o.read()
            err = e.read()
            got = False
            for line in out.split("\n"):
                if line.startswith("FAIL "):
                    if got:
                        continue
                    got = True
                    fails.append({"shard": s, "what": line[5:3000], "stderr": err[:4000], "seed": seed, "secs": secs})
                elif line.startswith("FINDING "):
                    finds.append(line[8:])
                elif line.startswith("STATS "):
                    for k, v in re.findall(r"(\w+)=(\d+)", line):
                        if k in self.total:
                            self.total[k] += int(v)
                elif line.startswith("SAMPLE ") and len(self.samples) < 24:
                    self.samples.append(line[7:])
            if not got and rc not in (0,):
                if rc == "timeout":
                    self.runs.append("shard %d was stopped after %ds" % (s, int(limit)))
                else:
                    fails.append({"shard": s, "what": "the process ended with status %s: %s" % (rc, err[:300].replace("\n", " ")), "stderr": err[:4000], "seed": seed, "secs": secs})
            o.close()
            e.close()
        self.wall += time.time() - t
        return fails, finds


def dictionary(path, extra_ints=()):
    """Literals of the sources (and of the solver's models): values a change may have made special."""
    ints, strs = set(), set()
    d = os.path.join(REPO, "sources")
    for f in sorted(os.listdir(d)):
        try:
            t = open(os.path.join(d, f), errors="replace").read()
        except OSError:
            continue
        t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
        t = re.sub(r"//[^\n]*", " ", t)
        t = re.sub(r"^\s*#.*$", " ", t, flags=re.M)
        for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', t):
            try:
                s = m.group(1).encode().decode("unicode_escape")
                if len(s) <= 40 and " " not in s.strip():
                    strs.add(s.encode("latin-1", "replace"))
            except Exception:
                pass
        t2 = re.sub(r'"(?:[^"\\\n]|\\.)*"', " ", t)
        for m in re.finditer(r"'((?:[^'\\\n]|\\.)+)'", t2):
            try:
                s = m.group(1).encode().decode("unicode_escape")
                strs.add(s.encode("latin-1", "replace"))
            except Exception:
                pass
        t2 = re.sub(r"'(?:[^'\\\n]|\\.)+'", " ", t2)
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F']+|\d[\d']*)", t2):
            try:
                v = int(m.group(1).replace("'", ""), 0 if m.group(1)[:2] in ("0x", "0X") else 10)
                if v < 1 << 62:
                    ints.add(v)
            except ValueError:
                pass
    for v in extra_ints:
        if abs(v) < 1 << 62:
            ints.add(v)
    with open(path, "w") as f:
        for v in sorted(ints):
            f.write("i %d\n" % v)
        for s in sorted(strs):
            f.write("s %s\n" % s.hex())
    return len(ints), len(strs)


# ------------------------------------------------------------------ deductive stage
def load_contracts():
    import importlib
    cts, seen = [], set()
    d = os.path.join(HERE, "vc", "contracts")
    for f in sorted(os.listdir(d)):
        if not f.endswith(".py") or f in ("__init__.py", "common.py"):
            continue
        m = importlib.import_module("vc.contracts." + f[:-3])
        for v in vars(m).values():
            if isinstance(v, list):
                for c in v:
                    if hasattr(c, "matches") and id(c) not in seen:
                        seen.add(id(c))
                        cts.append(c)
    return cts


FUNCTIONAL = ("ensures", "returns", "frame", "unchanged", "throws-only", "throws-whenever", "loop", "hint")


def safety(it):
    """U01: obligations about completing without undefined behaviour (a functional failure is another property's)"""
    k = it.ob.kind
    return "terminates" in k or not k.startswith(FUNCTIONAL)


class Deduct:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.funcs = []          # {"title","alias","at","paths","obligations"}
        self.breaks = []         # extraction breaks
        self.items = []
        self.lemma_items = []
        self.failed = []
        self.models = set()
        self.inlined = set()
        self.vacuous = []
        self.gen_s = self.solve_s = 0.0
        self.solvers = {}
        self.trusted = set()
        self.crosschecked = None
        self.notfound = []
        self.only_frames = set()
        self.owner = {}
        self.nframes = 0
        self.elsewhere = []

    def run(self):
        from vc import cppast, solver, lemmas, theory
        from vc.program import Program
        from vc.engine import Unsupported
        t = time.time()
        cts = load_contracts()
        mine = [c for c in cts if self.pid in c.props]
        if self.pid == "A01":
            # and the operands of every other operation
            frames = [c for c in cts if "A01" not in c.props and not getattr(c, "hypothesis", False) and (self.tier == "thorough" or c.name != "to_decimal")]
            self.only_frames = {id(c) for c in frames}
            mine += frames
        if not mine:
            return False
        try:
            prog = Program(cppast.Ast(cppast.dump(REPO, os.path.join(HERE, "vc", "probe.cpp"))), cts)
        except cppast.AstError as e:
            self.breaks.append({"function": "*", "why": "clang does not accept the sources with the instantiations of probe.cpp: " + str(e)[:1500]})
            self.gen_s = time.time() - t
            return True
        todo, done, sats = list(mine), set(), []
        bytitle = {}
        for c in cts:
            bytitle.setdefault(c.title, c)
        while todo:
            ct = todo.pop(0)
            if id(ct) in done:
                continue
            done.add(id(ct))
            fs = prog.find_function(ct)
            if not fs:
                if not getattr(ct, "optional", False):
                    self.notfound.append(ct.title)
                    self.breaks.append({"function": ct.title, "why": "no such function in the sources"})
                continue
            for f in fs[:1]:
                for al in ct.aliases:
                    self.owner[(ct.title, str(al))] = (ct, f, al)
                    try:
                        ex = prog.verify(ct, f, al)
                    except (Unsupported, RecursionError, KeyError, AttributeError, TypeError, IndexError, AssertionError, ValueError) as u:
                        self.breaks.append({"function": ct.title, "alias": al and str(al), "why": "%s: %s" % (type(u).__name__, str(u)[:300])})
                        continue
                    except Exception as u:       # z3 sort errors of a changed source
                        self.breaks.append({"function": ct.title, "alias": al and str(al), "why": "%s: %s" % (type(u).__name__, str(u)[:300])})
                        continue
                    self.nframes += ex.nframes
                    obs = self.obligations(ct, ex)
                    its = solver.items_of(obs) + solver.hint_items(obs)
                    self.items += its
                    self.models |= set(ex.models)
                    self.inlined |= set(ex.inlined)
                    self.funcs.append({"function": ct.title, "alias": al and str(al), "at": "%s:%s" % (os.path.basename(f.get("_file") or "?"), f.get("_line")), "paths": ex.npaths, "obligations": len(its)})
                    if not its and id(ct) not in self.only_frames:
                        self.vacuous.append("%s has no obligations" % ct.title)
                    # a path end whose hypotheses must not be contradictory
                    ends = [o for o in obs if o.kind.startswith(("ensures", "throws", "returns", "frame", "unchanged"))]
                    if ends and id(ct) not in self.only_frames:
                        sats.append((ct.title, al, ends))
                    if id(ct) in self.only_frames:
                        continue
                    for x in sorted(ex.called):
                        if x in bytitle and id(bytitle[x]) not in done:
                            todo.append(bytitle[x])
        self.at_other_types(cts, [c for c in cts if id(c) in done])
        self.lemma_items = lemmas.items()
        self.gen_s = time.time() - t
        t = time.time()
        allit = self.items + self.lemma_items
        # vacuity: "false" must not be provable at the ends of every function's paths
        vac = []
        import z3
        from vc.engine import Obligation
        from vc.solver import Item

        def probes(title, ends):
            for e in ends:
                it = Item(Obligation(title, "vacuity", e.line, e.file, e.hyps, z3.BoolVal(False), e.hints, e.alias, e.path), "", z3.BoolVal(False))
                it.pure = "vacuity"
                yield it

        rest = {}
        for title, al, ends in sats:
            pick = ends if len(ends) <= 3 else [ends[0], ends[len(ends) // 2], ends[-1]]
            vac += probes(title, pick)
            rest[title + str(al)] = [e for e in ends if not any(e is p for p in pick)]
        solver.discharge(allit + vac, deadline=T0 + HARD * 0.6)
        bad = [i for i in allit if i.result != "proved"]
        if bad and left() > 60:
            # a slow machine must not look like a failed proof: once more, with more time
            retry = bad[:24]
            solver.discharge(retry, budget=5.0, deadline=T0 + HARD * 0.65)
        self.prog = prog
        self.failed = [i for i in allit if i.result != "proved"]
        self.split_failed()
        byt = {}
        for it in vac:
            byt.setdefault(it.ob.fn + str(it.ob.alias), []).append(it.result)
        for k, rs in byt.items():
            if all(r == "proved" for r in rs):
                # the three sampled path ends may all be infeasible paths: look at the others before complaining
                seen, more = set(), []
                for e in rest.get(k, []):
                    if e.path not in seen and len(more) < 60:
                        seen.add(e.path)
                        more.append(e)
                more = list(probes(k, more))
                solver.discharge(more, deadline=T0 + HARD * 0.65)
                vac += more
                if all(i.result == "proved" for i in more):
                    self.vacuous.append("contradictory hypotheses at every path end of " + k)
        self.nvac = len(vac)
        for i in allit:
            if i.result == "proved":
                self.solvers[i.solver] = self.solvers.get(i.solver, 0) + 1
        if self.tier == "thorough" and not self.failed:
            self.crosschecked = solver.crosscheck(allit, deadline=time.time() + 240) if hasattr(solver, "crosscheck") else None
        self.solve_s = time.time() - t
        self.solver_time = sum(i.time for i in allit)
        return True

    def at_other_types(self, cts, todo):
        """The containers once more at int and at an owning element class.  The sources treat every element type alike
        unless they ask about it; so in the quick tier only if they do."""
        from vc import cppast
        from vc.program import Program
        why = asks_about_types()
        if not why and self.tier != "thorough":
            return
        self.element_types = []
        for label, elem, defs in (("int", "int", ["-DElem=int"]), ("an owning class", "Elem", ["-DOWNING"])):
            try:
                prog = Program(cppast.Ast(cppast.dump(REPO, os.path.join(HERE, "vc", "probe.cpp"), defs)), cts)
            except cppast.AstError as e:
                self.breaks.append({"function": "* at " + label, "why": "clang does not accept the instantiation: " + str(e)[:800]})
                continue
            prog.elem = elem
            n = 0
            for ct in todo:
                for f in prog.find_function(ct)[:1]:
                    where = (prog.class_typename(f) or cppast.fsig(f)).replace("pyincpp_probe::", "")
                    if os.path.basename(f.get("_file") or "") not in CONTAINERS or not re.search(r"<(.*\W)?%s\b" % elem, where) or "Tuple<" in where:
                        continue
                    for al in ct.aliases:
                        try:
                            ex = prog.verify(ct, f, al)
                        except Exception as u:
                            self.breaks.append({"function": "%s at %s" % (ct.title, label), "why": "%s: %s" % (type(u).__name__, str(u)[:300])})
                            continue
                        n += 1
                        obs = self.obligations(ct, ex)
                        for o in obs:
                            o.fn += " at " + label
                        from vc import solver
                        its = solver.items_of(obs) + solver.hint_items(obs)
                        self.items += its
                        self.funcs.append({"function": "%s at %s" % (ct.title, label), "alias": al and str(al), "at": "%s:%s" % (os.path.basename(f.get("_file") or "?"), f.get("_line")), "paths": ex.npaths, "obligations": len(its)})
            self.element_types.append("%s: %d functions x alias modes%s" % (label, n, " (the sources ask: %s)" % why if why else ""))

    def obligations(self, ct, ex):
        if id(ct) in self.only_frames:
            return [o for o in ex.obligations if o.kind.startswith(("frame", "unchanged"))]
        return ex.obligations

    def split_failed(self):
        self.breaks = [b for b in self.breaks if not b.get("functional")]
        self.elsewhere = []
        if self.pid == "U01":
            # the safety of a caller rests on its callees' contracts: a functional failure makes that argument
            # incomplete (reported as such), it is not itself undefined behaviour
            self.elsewhere = [i for i in self.failed if not safety(i)]
            self.failed = [i for i in self.failed if safety(i)]
            for fn in sorted({i.ob.fn for i in self.elsewhere}):
                self.breaks.append({"function": fn, "functional": True, "why": "its functional contract is not established: " + [i.name for i in self.elsewhere if i.ob.fn == fn][0]})

    def reread(self, deadline):
        """Failed functions with loops: the loop annotations under their other readings (vc/readings.py)."""
        from vc import readings, solver
        bad = self.failed + self.elsewhere
        groups = {}
        for i in bad:
            groups.setdefault((i.ob.fn, str(i.ob.alias)), []).append(i)
        for key, its in groups.items():
            if key not in self.owner or time.time() > deadline:
                continue
            ct, f, al = self.owner[key]

            def gen():
                obs = self.obligations(ct, self.prog.verify(ct, f, al))
                return solver.items_of(obs) + solver.hint_items(obs)
            new, note = readings.reattempt(self.prog, ct, f, gen, its, deadline)
            if new is None and note:
                bad = [i for i in bad if (i.ob.fn, str(i.ob.alias)) != key]
                self.items = [i for i in self.items if (i.ob.fn, str(i.ob.alias)) != key]
                self.breaks.append({"function": key[0], "alias": key[1], "why": note[0]})
            if new:
                old = [i for i in self.items if (i.ob.fn, str(i.ob.alias)) == key]
                for i in old:
                    if i.result == "proved":
                        self.solvers[i.solver] -= 1
                for i in new:
                    self.solvers[i.solver] = self.solvers.get(i.solver, 0) + 1
                gone = {id(i) for i in old}
                self.items = [i for i in self.items if id(i) not in gone] + new
                bad = [i for i in bad if id(i) not in gone]
                for x in self.funcs:
                    if (x["function"], str(x["alias"])) == key:
                        x["obligations"] = len(new)
                        x["reading"] = note
        for b in [b for b in self.breaks if loop_break(b)]:
            key = (b["function"], str(b.get("alias")))
            if key not in self.owner or time.time() > deadline:
                continue
            ct, f, al = self.owner[key]

            def gen():
                obs = self.obligations(ct, self.prog.verify(ct, f, al))
                return solver.items_of(obs) + solver.hint_items(obs)
            try:
                new, note = readings.reattempt(self.prog, ct, f, gen, None, deadline)
            except Exception:
                new = None
            if new:
                for i in new:
                    self.solvers[i.solver] = self.solvers.get(i.solver, 0) + 1
                self.items += new
                self.funcs.append({"function": ct.title, "alias": al and str(al), "at": "%s:%s" % (os.path.basename(f.get("_file") or "?"), f.get("_line")), "obligations": len(new), "reading": note})
                self.breaks = [x for x in self.breaks if x is not b]
        self.failed = bad
        self.split_failed()


CONTAINERS = ("list.hpp", "deque.hpp", "set.hpp", "dict.hpp", "utility.hpp")
ASKS = r"\b(if\s+constexpr|requires|is_[a-z_]+(_v|<)|enable_if\w*|conditional_t|same_as|integral|floating_point|typeid|mem(cpy|move|cmp|set)|bit_cast|template\s*<\s*>)|sizeof\s*\(\s*T\b"


def asks_about_types():
    """a phrase of the container headers by which they could treat element types differently"""
    for f in CONTAINERS:
        try:
            t = open(os.path.join(REPO, "sources", f), errors="replace").read()
        except OSError:
            continue
        t = re.sub(r"/\*.*?\*/|//[^\n]*", " ", t, flags=re.S)
        m = re.search(ASKS, t)
        if m:
            return "%s: %s" % (f, " ".join(m.group(0).split()))
    return None


def loop_break(b):
    return "loop" in b.get("why", "") and "alias" in b


TRUST = [
    "clang 18's typed AST of the current sources (templates read at the instantiations of vc/probe.cpp)",
    "the VC generator /verif/vc (symbolic execution rules for C++; guarded by vacuity checks and planted bugs)",
    "the solvers z3 (python module), z3-new and cvc5",
]
ASSUME = [
    "the C++ standard library behaves as its models in vc/stdmodels.py state (the ones used are listed in trusted_base)",
    "container sizes are at most INT_MAX and an Int has at most 10^9 digits; memory allocation succeeds",
    "operator<, operator== and copying of user element types are total, deterministic and do not throw",
]


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    meta = json.load(open(os.path.join(HERE, "checks.json")))[pid]
    work = tempfile.mkdtemp(prefix="vp_%s_" % pid)
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, "replay_%s.json" % pid)
    if os.path.exists(replay):
        os.unlink(replay)
    rc = 2
    try:
        rc = run(pid, tier, seed, meta, work, evdir, replay)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def known_findings(pid):
    res = {}
    p = os.path.join(HERE, "known-findings.txt")
    for line in open(p):
        m = re.match(r"KNOWN-FINDING: property=(\w+) key=(\S+) (.*)", line.strip())
        if m and m.group(1) == pid:
            res[m.group(2)] = m.group(3)
    return res


def run(pid, tier, seed, meta, work, evdir, replay):
    h = Harness(pid, work)
    h.start_build()
    d = Deduct(pid, tier)
    has_contracts = d.run()
    built = h.wait_build()
    dictfile = os.path.join(work, "dict")
    extra = set()
    for it in d.failed:
        for v in re.findall(r"= (-?\d+)", it.extra or "")[:60]:
            extra.add(int(v))
    nd = dictionary(dictfile, extra)
    fails, finds = [], []
    bounded_s = meta.get("secs", 6)
    if h.exists and built:
        secs = 150 if tier == "thorough" else bounded_s
        fails, finds = h.run(secs, seed, dictfile, min(left() - 20, secs * 3 + 60))
        if (d.failed or d.elsewhere or any(map(loop_break, d.breaks))) and not fails and not d.vacuous:
            d.reread(min(T0 + HARD * 0.7, time.time() + 200))
        suspicious = bool(d.failed or d.breaks or d.vacuous)
        if suspicious and not fails:
            more = max(10, min(90 if not d.failed and not d.vacuous else 150, left() - 100))
            fails, finds2 = h.run(more, seed + 1000, dictfile, more * 2 + 40)
            finds += finds2
    known = known_findings(pid)
    unknown_finds = []
    seen = set()
    for f in finds:
        key = f.split(" ")[0]
        if key in seen:
            continue
        seen.add(key)
        if key in known:
            log("KNOWN-FINDING: property=%s %s: %s" % (pid, key, known[key]))
        else:
            unknown_finds.append(f)
    viol = []
    if fails:
        f = fails[0]
        viol.append({"kind": "failing input", "case": f["what"], "sanitizer": f["stderr"], "others": [x["what"] for x in fails[1:4]]})
        write_replay(replay, pid, h, f, d)
    elif unknown_finds:
        viol.append({"kind": "failing input", "case": unknown_finds[0]})
        write_replay(replay, pid, h, {"what": unknown_finds[0], "shard": 0, "seed": seed, "secs": bounded_s, "stderr": ""}, d)
    elif h.exists and not built:
        # the real headers no longer offer the interface the property speaks of (or do not compile)
        viol.append({"kind": "harness does not compile", "case": open(h.err).read()[:1500]})
        write_replay(replay, pid, h, None, d, note="the property's harness does not compile against the current sources: " + open(h.err).read()[:3000])
    elif d.failed or d.vacuous:
        viol.append({"kind": "failed obligation", "case": [i.name for i in d.failed[:20]] + d.vacuous})
        write_replay(replay, pid, h, None, d)
    # evidence
    nob = len(d.items) + len(d.lemma_items)
    ndis = nob - len(d.failed) - len(d.elsewhere)
    level = meta["level"]
    cov = {}
    if has_contracts:
        cov.update({
            "obligations": nob, "discharged": ndis,
            "checker_cmd": "/verif/check.py %s (obligations generated from %s/sources by vc/, discharged by z3 and cvc5)" % (pid, REPO),
            "trusted_base": TRUST + ["standard library model: " + m for m in sorted(d.models)],
            "functions_under_contract": d.funcs, "functions_executed_in_place": sorted(d.inlined),
            "obligations_of_functions": len(d.items), "obligations_of_lemmas": len(d.lemma_items),
            "discharged_by": d.solvers, "solver_seconds": round(getattr(d, "solver_time", 0), 1),
            "frame_conditions_checked": d.nframes,
            "generation_seconds": round(d.gen_s, 1), "vacuity_probes": getattr(d, "nvac", 0),
            "outside_the_verifier": d.breaks,
            "undischarged": [i.name for i in d.failed[:50]],
        })
        if getattr(d, "element_types", None):
            cov["further_element_types"] = d.element_types
        if d.crosschecked is not None:
            cov["independently_confirmed"] = d.crosschecked
    b = {"bound": "executed cases only: exhaustive small enumeration plus random cases, see harness/%s.cpp" % pid, "evaluations": h.total["evals"], "distinct": h.total["distinct"],
         "expected_throws": h.total["throws"], "seconds": round(h.wall, 1), "samples": h.samples[:8], "notes": h.runs, "dictionary": {"ints": nd[0], "strings": nd[1]}}
    if level == "proof":
        cov["bounded"] = b
    else:
        cov.update({"evaluations": h.total["evals"], "distinct_nontrivial": h.total["distinct"],
                    "rule": "cases of harness/%s.cpp (bounded); distinct by their full written form; every one calls the code under test" % pid,
                    "samples": h.samples[:12] or ["(none)"], "explanation": meta.get("note", "")})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": ASSUME + meta.get("assumptions", []),
          "wall_s": round(time.time() - T0, 2), "violations": len(viol)}
    tmp = os.path.join(evdir, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(evdir, pid + ".json"))
    for b in d.breaks:
        log("BOUNDED property=%s %s is outside the verifier's reach on these sources (%s); decided by the bounded stand-in only" % (pid, b["function"], b["why"][:160]))
    log("%s: %d/%d obligations discharged (%d functions x alias modes, %d lemma steps), %d cases executed, %.1fs" % (pid, ndis, nob, len(d.funcs), len(d.lemma_items), h.total["evals"], time.time() - T0))
    if viol:
        v = viol[0]
        rel = os.path.relpath(replay, HERE)
        if v["kind"] == "failing input":
            log("failing input: " + str(v["case"])[:1500])
            log("VIOLATION property=%s replay=%s" % (pid, rel))
        else:
            log("%s: %s" % (v["kind"], json.dumps(v["case"])[:2500]))
            log("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rel))
        return 1
    return 0


def write_replay(path, pid, h, f, d, note=None):
    r = {"property": pid}
    if f:
        r["failing_case"] = f["what"]
        r["sanitizer_output"] = f.get("stderr", "")
        v, i, n = h.shards()[f["shard"]]
        r["how_to_replay"] = "cd /verif && %s -DVARIANT=%d && H_SHARD=%d/%d H_SEED=%d H_SECS=%s ./harness_bin" % (
            " ".join(h.cmd).replace(h.bin, "./harness_bin"), v, i, n, f["seed"], f["secs"])
    if note:
        r["note"] = note
    r["failed_obligations"] = [{"obligation": i.name, "path": str(i.ob.path), "status": i.result, "solver": i.solver, "goal": str(i.goal)[:1500],
                                "solver_model": (i.extra or "")[:2000]} for i in d.failed[:20]]
    r["vacuous"] = d.vacuous
    r["outside_the_verifier"] = d.breaks
    with open(path, "w") as g:
        json.dump(r, g, indent=1)


if __name__ == "__main__":
    main()
