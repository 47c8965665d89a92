"""Obligation generation shared by the properties."""
import sys
import time
import z3

from . import smt, loops, specs, wf
from .interp import Interp, State, Out
from .values import *
from . import builtin_models as bm


class Obl:
    __slots__ = ("name", "ok", "status", "secs", "detail")

    def __init__(self, name, ok, status="", secs=0.0, detail=""):
        self.name, self.ok, self.status, self.secs, self.detail = name, bool(ok), status, secs, detail


def make_interp(world, **cfg):
    from func_args.api import OPT, REQ

    Interp.OPT, Interp.REQ = OPT, REQ
    I = Interp(cfg)
    I.world = world
    I.obligations = []
    I.models = {specs.child_fails: lambda I, st, a, k: world.fails(I, st, I.resolve(st, a[0]))}
    return I


def fresh_state(I):
    st = State()
    return st


def loops_of(outs):
    L = []
    for o in outs:
        for l in o.st.loops:
            if not any(l is x for x in L):
                L.append(l)
    return L


def eq_str(I, st, v, t):
    """formula: value v is the string t"""
    if isinstance(v, SUnion):
        return bor(*[band(c, eq_str(I, st, w, t)) for c, w in v.alts])
    if is_strlike(v):
        return st_(v) == t
    if isinstance(v, SVal) and v.tag not in ("node", "mark"):
        return z3.And(smt.kind(v.t) == smt.K["str"], smt.sv(v.t) == t)
    return z3.BoolVal(False)


def str_term(v):
    if isinstance(v, SUnion):
        t = str_term(v.alts[-1][1])
        for c, w in reversed(v.alts[:-1]):
            t = z3.If(c, str_term(w), t)
        return t
    if is_strlike(v):
        return st_(v)
    return smt.uf("not_a_string", smt.S)()


def run(I, side, st, thunk):
    I.side = side
    try:
        return I.explore(st.copy(), thunk)
    finally:
        I.side = "code"


def term_obligations(I, where):
    return [Obl("%s: loop %s terminates" % (where, w), ok, "" if ok else "unproved") for w, side, ok in I.term_obls if side != "spec"]


def seps_used(outs):
    """separators of every join the two executions speak of"""
    fs, loops_ = [], list(loops_of(outs))
    for L in loops_:
        loops_ += [x for x in L.inner if not any(x is y for y in loops_)]
        fs += [c.next for c in L.comps if c.next is not None] + [c.init for c in L.comps if c.init is not None]
        fs += [e.cond for e in L.exits] + list(L.entry_pc)
    for o in outs:
        fs += o.st.pc
        if o.kind == "ok":
            fs.append(str_term(o.val))
    seen, terms = set(), []
    for f in fs:
        smt.subterms(f, seen, terms)
    out = [""]
    for t in terms:
        if z3.is_app(t) and t.decl().name() == "join" and smt.is_str_const(t.arg(0)):
            s = smt.str_const(t.arg(0))
            if s not in out:
                out.append(s)
    return out


def compare(I, st0, name, spec, code, exc_only=False, spec_side="spec", timeout=8000):
    """code's outcome equals spec's outcome on every input described by st0"""
    so = run(I, spec_side, st0, spec)
    co = run(I, "code", st0, code)
    if not so or not co:
        return [Obl(name + ": paths", False, "no feasible path")], so, co
    seps = seps_used(so + co)
    done = {}
    for level in (1, 2):
        R = loops.Relator(I, seps, level)
        F = R.run(loops_of(so), loops_of(co))
        for i, s in enumerate(so):
            for j, c in enumerate(co):
                if (i, j) in done and done[i, j].ok:
                    continue
                P = I.global_facts + s.st.pc + [p for p in c.st.pc if not any(p.eq(q) for q in s.st.pc)] + F
                tag = "%s: path %s%d/%s%d" % (name, s.kind, i, c.kind, j)
                if s.kind != c.kind:
                    g, what = z3.BoolVal(False), "raises exactly when specified"
                elif s.kind == "raise":
                    g, what = s.val.t == c.val.t, "raises the specified error"
                    if s.val.cls is not None and c.val.cls is not None:
                        g = z3.BoolVal(s.val.cls is c.val.cls)
                elif exc_only:
                    continue
                else:
                    g, what = eq_str(I, c.st, c.val, str_term(I.prune(s.st, s.val))), "result"
                t = time.time()
                r = smt.prove(P, g, timeout if level == 2 else timeout // 4)
                done[i, j] = Obl(tag + ": " + what, r.ok, r.status, time.time() - t, "" if r.ok else "goal: %s" % g)
        if all(o.ok for o in done.values()):
            break
    obls = list(done.values())
    obls += term_obligations(I, name)
    return obls, so, co


def frame_obligations(name, outs, allowed=()):
    ev = []
    for o in outs:
        for e in o.st.events:
            if e[0] in ("frame", "global") and e not in ev and not any(e[1].startswith(a) for a in allowed):
                ev.append(e)
    return Obl(name + ": modifies nothing that existed before the call", not ev, "", 0, "; ".join(map(str, ev)))
