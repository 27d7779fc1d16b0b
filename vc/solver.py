"""Discharging: every obligation is split, instantiated and given to the solvers (z3, cvc5, z3-new)."""
import os, sys, time, json, subprocess, tempfile, multiprocessing, signal, selectors
import z3
from z3 import And, Or, Not, Implies, simplify
from . import theory

NPROC = min(8, os.cpu_count() or 4)


class Item:
    __slots__ = ("ob", "sub", "goal", "result", "solver", "time", "extra", "pure")

    def __init__(self, ob, sub, goal):
        self.ob, self.sub, self.goal = ob, sub, goal
        self.pure = False
        self.result = None
        self.solver = None
        self.time = 0.0

    @property
    def name(self):
        return self.ob.name + ("/" + self.sub if self.sub else "")


def items_of(obs):
    res = []
    for ob in obs:
        subs = theory.expand_goal(ob.goal)
        for nm, g in subs:
            res.append(Item(ob, nm, g))
    return res


def hint_items(obs):
    """The hints that are not instances of a lemma are proved by themselves: from the definitions and the lemmas only."""
    from .engine import Obligation
    from z3 import simplify, is_true
    seen, res = set(), []
    for ob in obs:
        plain = [h for h in ob.hints if not theory.is_tagged(h)]
        new = [h for h in plain if h.get_id() not in seen]
        if not new:
            continue
        tagged = [h for h in ob.hints if theory.is_tagged(h)]
        for h in new:
            seen.add(h.get_id())
            if is_true(simplify(h)):
                continue
            res.append(Item(Obligation(ob.fn, "hint", ob.line, ob.file, [], h, tagged, ob.alias, ob.path), "", h))
    return res


def vc_formulas(it, rounds=4, rules=None):
    ob = it.ob
    base = list(ob.hyps) + list(ob.hints) + [Not(it.goal)]
    ix = theory.Inst(base, rules or theory.RULES)
    inst = ix.run(rounds)
    return base + inst


def z3_try(fs, ms, tactic=None):
    s = z3.Solver()
    s.set("timeout", ms)
    for f in fs:
        s.add(f)
    if HARD[0]:
        # z3 does not always obey its timeout: the worker is killed then and the item given to the other solvers
        signal.setitimer(signal.ITIMER_REAL, ms / 1000.0 + 6)
    r = s.check()
    if HARD[0]:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return r, s


HARD = [False]


def smt2(fs):
    s = z3.Solver()
    for f in fs:
        s.add(f)
    return s.to_smt2()


def cli(cmd, text, secs):
    fd, p = tempfile.mkstemp(suffix=".smt2")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(text)
        r = subprocess.run(cmd + [p], capture_output=True, text=True, timeout=secs + 5)
        o = r.stdout.strip().split("\n")[0] if r.stdout else ""
        return o
    except subprocess.TimeoutExpired:
        return "timeout"
    finally:
        os.unlink(p)


def prove(it, budget=1.0, only_cli=False):
    """-> (status, solver, seconds, model-or-None)"""
    t0 = time.time()
    if it.pure == "vacuity":
        # is "false" provable here? (it must not be)
        if only_cli:
            return "not-proved", "z3-py", 0, None
        r, s = z3_try(vc_formulas(it), 1200)
        return ("proved" if r == z3.unsat else "not-proved"), "z3-py", time.time() - t0, None
    base = list(it.ob.hyps) + list(it.ob.hints) + [Not(it.goal)]
    if not only_cli:
        r, s = z3_try(base, 300)
        if r == z3.unsat:
            return "proved", "z3-py", time.time() - t0, None
    try:
        fs = base if it.pure else vc_formulas(it)     # a lemma is proved from its stated hypotheses alone
    except z3.Z3Exception as e:
        return "error", str(e)[:200], time.time() - t0, None
    model = None
    r = None
    if not only_cli:
        r, s = z3_try(fs, int(2500 * budget))
        if r == z3.unsat:
            return "proved", "z3-py", time.time() - t0, None
        if r == z3.sat and not it.pure:
            # the rules had not been applied often enough
            f2 = vc_formulas(it, rounds=12)
            if len(f2) > len(fs):
                fs = f2
                r, s = z3_try(fs, int(4000 * budget))
                if r == z3.unsat:
                    return "proved", "z3-py", time.time() - t0, None
        if r == z3.sat:
            model = model_text(s)
    txt = "(set-logic ALL)\n" + smt2(fs)
    if r != z3.sat:
        if only_cli and cli(["z3", "-T:%d" % max(3, int(4 * budget))], txt, 4 * budget) == "unsat":
            return "proved", "z3", time.time() - t0, None
        o = cli(["cvc5", "--tlimit=%d" % int(5000 * budget)], txt, 5 * budget)
        if o == "unsat":
            return "proved", "cvc5", time.time() - t0, None
        o = cli(["z3-new", "-T:%d" % max(1, int(5 * budget))], txt, 5 * budget)
        if o == "unsat":
            return "proved", "z3-new", time.time() - t0, None
        o = cli(["cvc5", "--nl-ext-tplanes", "--tlimit=%d" % int(6000 * budget)], txt, 6 * budget)
        if o == "unsat":
            return "proved", "cvc5-tplanes", time.time() - t0, None
    return ("failed" if r == z3.sat else "unknown"), "z3-py", time.time() - t0, model


def model_text(s):
    try:
        m = s.model()
        out = []
        for d in m.decls():
            if d.arity() == 0:
                v = str(m[d])
                if len(v) < 120:
                    out.append("%s = %s" % (d.name(), v))
        return "; ".join(sorted(out))[:3000]
    except Exception:
        return None


def discharge(items, nproc=NPROC, budget=1.0, deadline=None):
    """Proves all items in parallel (fork): sets item.result/solver/time/extra."""
    if not items:
        return
    lost = _round(items, list(range(len(items))), nproc, budget, deadline, False)
    if lost:
        _round(items, sorted(lost), nproc, budget, deadline, True)
    for it in items:
        if it.result is None:
            it.result, it.solver, it.time, it.extra = "unknown", "worker-lost", 0, None


def _round(items, todo, nproc, budget, deadline, only_cli):
    """Items whose worker was lost (killed or hung) are returned."""
    ctr = multiprocessing.Value("i", 0)
    sel = selectors.DefaultSelector()
    sys.stdout.flush()

    def spawn():
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            HARD[0] = True
            try:
                while True:
                    with ctr.get_lock():
                        k = ctr.value
                        ctr.value += 1
                    if k >= len(todo):
                        break
                    i = todo[k]
                    os.write(wr, (json.dumps([i]) + "\n").encode())
                    if deadline and time.time() > deadline:
                        st, sv, tm, md = "unknown", "deadline", 0, None
                    else:
                        st, sv, tm, md = prove(items[i], budget, only_cli)
                    data = (json.dumps([i, st, sv, tm, md]) + "\n").encode()
                    while data:
                        data = data[os.write(wr, data):]
            except BaseException as e:
                sys.stderr.write("worker: %r\n" % e)
            os._exit(0)
        os.close(wr)
        sel.register(r, selectors.EVENT_READ, {"pid": pid, "buf": b"", "cur": None})
    lost = []
    for _ in range(max(1, min(nproc, len(todo)))):
        spawn()
    while sel.get_map():
        for key, _ in sel.select():
            d = key.data
            data = os.read(key.fd, 1 << 16)
            if data:
                d["buf"] += data
                while b"\n" in d["buf"]:
                    line, d["buf"] = d["buf"].split(b"\n", 1)
                    m = json.loads(line)
                    if len(m) == 1:
                        d["cur"] = m[0]
                        continue
                    i, st, sv, tm, md = m
                    items[i].result, items[i].solver, items[i].time, items[i].extra = st, sv, tm, md
                    d["cur"] = None
                continue
            sel.unregister(key.fd)
            os.close(key.fd)
            os.waitpid(d["pid"], 0)
            if d["cur"] is not None:
                lost.append(d["cur"])
                spawn()
    return lost


def confirm(it, secs=20):
    """A second, independent back end on an already proved item."""
    if it.pure == "vacuity":
        return False
    base = list(it.ob.hyps) + list(it.ob.hints) + [Not(it.goal)]
    fs = base if it.pure else vc_formulas(it)
    txt = "(set-logic ALL)\n" + smt2(fs)
    if it.solver == "cvc5" or it.solver == "cvc5-tplanes":
        return cli(["z3-new", "-T:%d" % secs], txt, secs) == "unsat"
    return cli(["cvc5", "--tlimit=%d" % (1000 * secs)], txt, secs) == "unsat" or cli(["z3-new", "-T:%d" % secs], txt, secs) == "unsat"


def crosscheck(items, deadline):
    """Re-proves the items with another solver than the one that proved them; -> counts."""
    from concurrent.futures import ThreadPoolExecutor
    n = len(items)
    ctr = multiprocessing.Value("i", 0)
    okc = multiprocessing.Value("i", 0)
    tried = multiprocessing.Value("i", 0)
    pids = []
    sys.stdout.flush()
    for w in range(NPROC):
        pid = os.fork()
        if pid == 0:
            HARD[0] = False
            try:
                while time.time() < deadline:
                    with ctr.get_lock():
                        i = ctr.value
                        ctr.value += 1
                    if i >= n:
                        break
                    r = confirm(items[i])
                    with tried.get_lock():
                        tried.value += 1
                        okc.value += 1 if r else 0
            finally:
                os._exit(0)
        pids.append(pid)
    for p in pids:
        os.waitpid(p, 0)
    return {"tried": tried.value, "confirmed": okc.value, "of": n}
