"""Contracts of Deque<T> (deque.hpp), for an uninterpreted element type T."""
from .common import *
from .lists import isref, isiter, seq, wrap, outside, inserted, push, range_args, rng, rng_seq, rotated, rot_hints, cppsig, ptype0, extended, OWN, swap_loop, emod, one_by_one, built_backwards

DEQUE = []


def C(**kw):
    kw.setdefault("cls", "Deque")
    kw["props"] = tuple(kw["props"]) + ("U01",)
    c = Contract(**kw)
    DEQUE.append(c)
    return c


room = lambda e: [("room", ln(e.this) < e_max)]
e_max = 2 ** 31 - 1
nothing = lambda e: ln(e.this) == 0

C(name="Deque", nparams=0, props=("A01",), optional=True, post=lambda e: [("empty", ln(e.this) == 0)])
C(name="Deque", nparams=1, pred=lambda d: "initializer_list" in cppsig(d), suffix="(initializer_list)", props=("D01",), post=lambda e: seq(e.this, ln(e.old.args[0]), lambda k: at(e.old.args[0], k)))
C(name="Deque", nparams=1, pred=lambda d: "std::deque<" in cppsig(d) and "Deque" not in ptype0(d).replace("pyincpp::Deque", "Deque").split("<")[0], suffix="(std::deque)", props=("D01",), post=lambda e: seq(e.this, ln(e.old.args[0]), lambda k: at(e.old.args[0], k)))
C(name="Deque", nparams=2, suffix="(range)", pred=lambda d: "Elem" in ptype0(d), props=("D01",), make_arg=range_args(), inline=True, post=lambda e: rng_seq(e.this, e))

C(name="begin", nparams=0, props=("D01", "P01"), inline=True, post=lambda e: [("first", isiter(e.ret, e.this, 0))])
C(name="end", nparams=0, props=("D01", "P01"), inline=True, post=lambda e: [("past-last", isiter(e.ret, e.this, ln(e.this)))])
C(name="rbegin", nparams=0, props=("D01",), inline=True, optional=True, post=lambda e: [("last", isiter(e.ret, e.this, ln(e.this), True))])
C(name="rend", nparams=0, props=("D01",), inline=True, optional=True, post=lambda e: [("before-first", isiter(e.ret, e.this, 0, True))])
for cst in (False, True):
    sfx = " const" if cst else ""
    C(name="operator[]", nparams=1, const=cst, suffix=sfx, props=("L01",), inline=True, raises=lambda e: outside(e.val(0), -ln(e.this), ln(e.this)),
      post=lambda e: [("element", isref(e, wrap(e.old.val(0), ln(e.old.this))))])
    C(name="back", nparams=0, const=cst, suffix=sfx, props=("D01",), inline=True, raises=nothing, post=lambda e: [("last-element", isref(e, ln(e.old.this) - 1))])
    C(name="front", nparams=0, const=cst, suffix=sfx, props=("D01",), inline=True, raises=nothing, post=lambda e: [("first-element", isref(e, IntVal(0)))])
C(name="size", nparams=0, props=("D01", "L01"), inline=True, post=lambda e: [("value", e.ret == ln(e.old.this))])
C(name="is_empty", nparams=0, props=("D01",), inline=True, post=lambda e: [("value", e.ret == (ln(e.old.this) == 0))])
C(name="push_back", nparams=1, props=("D01",), aliases=OWN, pre=room, frame=lambda e: [e.this], post=lambda e: push(e.this, e.old.this, e.old.val(0)))
C(name="push_front", nparams=1, props=("D01",), aliases=OWN, pre=room, frame=lambda e: [e.this], post=lambda e: inserted(e.this, e.old.this, 0, e.old.val(0)))
C(name="pop_back", nparams=0, props=("D01",), frame=lambda e: [e.this], raises=nothing,
  post=lambda e: seq(e.this, ln(e.old.this) - 1, lambda k: at(e.old.this, k)) + [("returned", e.ret == at(e.old.this, ln(e.old.this) - 1))])
C(name="pop_front", nparams=0, props=("D01",), frame=lambda e: [e.this], raises=nothing,
  post=lambda e: seq(e.this, ln(e.old.this) - 1, lambda k: at(e.old.this, k + 1)) + [("returned", e.ret == at(e.old.this, 0))])


def prepended(o, s, e):
    a, f, l = rng(e)
    return seq(o, ln(s) + (l - f), lambda k: If(k < l - f, Select(a, f + k), at(s, k - (l - f))))


def one_step(left, asked, down):
    """after i of the steps the sequence is rotated by i places; the loop counts up to the number of steps, or down from it.
    left: the direction of the steps; asked: the direction the function's argument counts in"""
    def total(L):
        k = L.old.val(0)
        return emod(k if left == asked else -k, ln(L.old.this))

    def done(L):
        return total(L) - L.ctr() if down else L.ctr()

    def inv(L):
        i, s = done(L), L.old.this
        n = ln(s)
        here = (lambda k: If(k + i < n, at(s, k + i), at(s, k + i - n))) if left else (lambda k: If(k - i >= 0, at(s, k - i), at(s, k - i + n)))
        return [("steps", And(0 <= i, i <= total(L)))] + seq(L.this, n, here)
    return [LoopSpec(inv, lambda L: total(L) - done(L))]


def by_steps(asked):
    return [one_step(left, asked, down) for left in (asked, not asked) for down in (False, True)]


two = lambda e: [("room", ln(e.this) + (rng(e)[2] - rng(e)[1]) <= e_max)]
C(name="extend_back", nparams=2, pred=lambda d: "Elem" in ptype0(d), props=("D01",), make_arg=range_args(), inline=True, pre=two, frame=lambda e: [e.this], post=lambda e: extended(e.this, e.old.this, e), alts=[one_by_one(False)])
C(name="extend_front", nparams=2, pred=lambda d: "Elem" in ptype0(d), props=("D01",), make_arg=range_args(), inline=True, pre=two, frame=lambda e: [e.this], post=lambda e: prepended(e.this, e.old.this, e), alts=[one_by_one(True)])
C(name="clear", nparams=0, props=("D01",), frame=lambda e: [e.this], post=lambda e: [("empty", ln(e.this) == 0)])
C(name="operator<<=", nparams=1, props=("L05",), frame=lambda e: [e.this], ret=lambda e: e.this, post=lambda e: rotated(e.this, e.old.this, e.old.val(0)), proof=rot_hints, alts=by_steps(True))
C(name="operator>>=", nparams=1, props=("L05",), frame=lambda e: [e.this], ret=lambda e: e.this, post=lambda e: rotated(e.this, e.old.this, e.old.val(0), False), proof=rot_hints, alts=by_steps(False))
C(name="reverse", nparams=0, props=("L05",), frame=lambda e: [e.this], ret=lambda e: e.this,
  post=lambda e: seq(e.this, ln(e.old.this), lambda k: at(e.old.this, ln(e.old.this) - 1 - k)), alts=[[swap_loop()], built_backwards()])
C(name="operator<<", nparams=2, pred=lambda d: "const Deque<Elem>" in cppsig(d).replace("pyincpp_probe::", ""), title="operator<<(ostream&, Deque)", props=("P01",), frame=lambda e: [e.args[0]], ret=lambda e: e.args[0],
  post=lambda e: printed(e.old.args[0], "<", ar(e.old.args[1]), ln(e.old.args[1]), ">").equals(e.args[0]), proof=lambda e: [joined_def(ar(e.args[1]), IntVal(0))],
  **print_loops(lambda L: Text().add(ar(L.old.args[0]), ln(L.old.args[0])).lit("<"), lambda L: ar(L.args[1]), lambda L: ln(L.args[1])))
