"""Other readings of a loop's annotation.

A loop invariant speaks of the loop's counter.  Where a loop counts differently from the annotation (one further, or
backwards), or its variables have other names, the annotation is read accordingly: the invariant of loop k is applied
to `counter + d` or `bound - counter` instead of `counter`.  Every reading is a different set of obligations of the same
function; a function is verified if one reading's obligations are all discharged.  An invariant is only ever a proof
device: no reading can change what a contract states."""
import time
from . import engine, solver


def candidates(prog, fn, idx, isdo):
    res = [engine.Reading("head")] if isdo else []
    roles = list(prog.role_log.get((fn["id"], idx), [0]))
    for r in roles:
        res += [engine.Reading("off", r, d) for d in (-1, 1)]
        res += [engine.Reading("rev", r, b) for b in ("entry", "len-1", "len")]
    res += [engine.Reading("perm", None, k) for k in range(1, min(6, prog.perm_log.get((fn["id"], idx), 1)))]
    return res


def loops_of(its):
    s = set()
    for i in its:
        k = i.ob.kind
        if k.startswith("loop"):
            s.add(int(k[4:k.index("-")]))
    return sorted(s)


def reattempt(prog, ct, fn, gen, failed, deadline, budget=1.0):
    """-> (items, note) of a reading whose items are all proved; (None, note) where the annotations do not fit the
    function's loops at all (their number differs); (None, None) where the obligations stay open.
    failed is None for a function whose obligations could not be generated."""
    n, m = len(prog.scan_loops(fn)), len(ct.loops)
    fid = fn["id"]

    def forget():
        for k in [k for k in prog.readings if k[0] == fid]:
            del prog.readings[k]
        for k in [k for k in prog.role_log if k[0] == fid]:
            del prog.role_log[k]
    if n == m and n and failed:
        its, note = reread(prog, fn, gen, failed, deadline, budget)
        if its:
            return its, note
    for sel, alt in enumerate(ct.alts):
        if len(alt) != n or time.time() > deadline:
            continue
        prog.altsel[fid] = sel
        forget()
        its, note = attempt(prog, fn, gen, deadline, budget)
        if its:
            return its, ["loops annotated by alternative %d" % sel] + note
        forget()
        del prog.altsel[fid]
    if n == m or m == 0:
        return None, None
    if n == 0:
        return None, ["the function has no loops, its annotations are for %d" % m]
    import itertools
    al = [dict(zip(range(n), c)) for c in itertools.combinations(range(m), n)] if n < m else \
         [{i: (c.index(i) if i in c else -1) for i in range(n)} for c in itertools.combinations(range(n), m)]
    al = al[:6]
    if n > m:
        # a loop written as several (one per case): each of them as annotated for the one
        al = [{i: sum(i >= c for c in cut) for i in range(n)} for cut in itertools.combinations(range(1, n), m - 1)][:4] + al
    for a in al:
        prog.align[fid] = a
        forget()
        its, note = attempt(prog, fn, gen, deadline, budget)
        if its:
            return its, ["loops and annotations paired as %r" % (a,)] + note
        if time.time() > deadline:
            break
    prog.align.pop(fid, None)
    return None, ["the function has %d loops, its annotations are for %d" % (n, m)]


def attempt(prog, fn, gen, deadline, budget):
    try:
        its = gen()
        solver.discharge(its, budget=budget, deadline=deadline)
    except Exception:
        return None, None
    bad = [i for i in its if i.result != "proved"]
    if not bad:
        return its, []
    if len(bad) <= 12 and loops_of(bad):
        return reread(prog, fn, gen, bad, deadline, budget)
    return None, None


def reread(prog, fn, gen, failed, deadline, budget=1.0):
    """gen() -> items of the function under prog.readings."""
    keys = prog.scan_loops(fn)
    kinds = {}

    def walk(n):
        if n.get("kind") in ("DoStmt",):
            kinds[str(n["id"])] = True
        for c in n.get("inner") or []:
            if c:
                walk(c)
    walk(fn)
    chosen = []
    for _ in range(3):
        best = None
        for idx in loops_of(failed):
            isdo = idx < len(keys) and kinds.get(keys[idx].split("/")[-1], False)
            key = (fn["id"], idx)
            if key in prog.readings:
                continue
            for r in candidates(prog, fn, idx, isdo):
                if time.time() > deadline:
                    break
                prog.readings[key] = r
                try:
                    its = gen()
                    entry = [i for i in its if i.ob.kind.startswith("loop%d-invariant-entry" % idx)]
                    solver.discharge(entry, budget=0.4 * budget, deadline=deadline)
                    if all(i.result == "proved" for i in entry):
                        solver.discharge([i for i in its if i not in entry], budget=budget, deadline=deadline)
                        bad = [i for i in its if i.result != "proved"]
                        if best is None or len(bad) < len(best[1]):
                            best = (r, bad, its, idx)
                except Exception:
                    pass
                del prog.readings[key]
                if best is not None and not best[1]:
                    break
            if best is not None and not best[1]:
                break
        if best is None:
            break
        r, bad, its, idx = best
        if bad and len(bad) >= len(failed):
            break
        prog.readings[(fn["id"], idx)] = r
        chosen.append("loop %d read as %r" % (idx, r))
        failed = bad
        if not bad:
            return its, chosen
    for k in [k for k in prog.readings if k[0] == fn["id"]]:
        del prog.readings[k]
    return None, None
