import os, sys, time
sys.path.insert(0, "/verif")
from vc import cppast, solver, readings
from vc.program import Program
from vc.engine import Unsupported


def load(contracts, repo=None, probe=os.path.join(os.path.dirname(os.path.abspath(__file__)), "probe.cpp")):
    defs = os.environ.get("PROBE_DEFS", "").split()
    p = Program(cppast.Ast(cppast.dump(repo or os.environ.get("VP_REPO", "/repo"), probe, defs)), contracts)
    if "-DElem=int" in defs:
        p.elem = "int"
    return p


def items(ex):
    return solver.items_of(ex.obligations) + solver.hint_items(ex.obligations)


def check(prog, cts, verbose=True, budget=1.0, only=None):
    tot = bad = 0
    for ct in cts:
        fs = prog.find_function(ct)
        if not fs:
            print("NOT FOUND", ct.title)
            continue
        for f in fs[:1]:
            for al in ct.aliases:
                t = time.time()
                try:
                    ex = prog.verify(ct, f, al)
                except Unsupported as u:
                    if not __import__("os").environ.get("NOREAD") and "loop" in str(u):
                        its2, note = readings.reattempt(prog, ct, f, lambda: items(prog.verify(ct, f, al)), None, time.time() + 150, budget)
                        if its2:
                            print("    other reading:", note)
                            continue
                    print("UNSUPPORTED", ct.title, al, u)
                    bad += 1
                    continue
                t1 = time.time()
                its = items(ex)
                solver.discharge(its, budget=budget)
                fails = [i for i in its if i.result != "proved"]
                if fails and not __import__("os").environ.get("NOREAD"):
                    its2, note = readings.reattempt(prog, ct, f, lambda: items(prog.verify(ct, f, al)), fails, time.time() + 150, budget)
                    if its2:
                        its, fails = its2, []
                    elif note:
                        fails = []
                    if note:
                        print("    other reading:", note)
                tot += len(its)
                bad += len(fails)
                print("%-30s %-6s paths %d obls %d failed %d gen %.1fs solve %.1fs  slow %s" % (ct.title, "alias" if al else "", ex.npaths, len(its), len(fails), t1 - t, time.time() - t1, max([(round(i.time, 1), i.name) for i in its] or [0])))
                for i in fails if verbose else []:
                    print("    ", i.result, i.name, i.ob.path, "%.1f" % i.time, str(i.goal).replace("\n"," ")[:400] if i.ob.kind=="hint" else "", (i.extra or "")[:int(__import__('os').environ.get('VX','0'))])
    print("total", tot, "failed", bad)


if __name__ == "__main__":
    import importlib
    import os
    of = lambda nm: [c for v in vars(importlib.import_module("vc.contracts." + nm)).values() if isinstance(v, list) for c in v if hasattr(c, "matches")]
    cts = of(sys.argv[1])
    prog = load([c for f in sorted(os.listdir("/verif/vc/contracts")) if f.endswith(".py") and f[0] != "_" for c in of(f[:-3])])
    sel = sys.argv[2:]
    check(prog, [c for c in cts if not sel or c.title.split("::")[-1] in sel or c.title in sel or c.name in sel])
