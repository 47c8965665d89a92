"""Loop invariants: unary facts at loop exit, relational invariants between two
loops (Houdini over a fixed candidate grammar), and termination measures.

Every fact returned is guarded by the entry conditions of the loops it is about
and is a consequence of proved initiation and consecution obligations.
"""
import z3

from . import smt
from .smt import Val, SeqV, S, I as Int, B, sval, prove, check
from .values import band, bor, bnot

CAND_MS = 1500
SEPS = ["", "\n", "\n\n", " | ", "<br>", " "]


def sort_of(c):
    return c.cur.sort()


def live_comps(L):
    return [c for c in L.comps if c.kind != "poison" and c.cur is not None and c.next is not None]


def subst(f, pairs):
    return z3.substitute(f, *pairs) if pairs else f


def at_init(f, comps):
    return subst(f, [(c.cur, c.init) for c in comps])


def at_next(f, comps, succ=()):
    """simultaneous: the next terms themselves speak of the current k"""
    return subst(f, [(c.cur, c.next) for c in comps] + list(succ))


def at_fin(f, comps):
    return subst(f, [(c.cur, c.fin) for c in comps if c.fin is not None])


def noexit(L):
    return [bnot(e.cond) for e in L.exits]


def noflag(L):
    return [bnot(e.flag) for e in L.exits]


# ---------------------------------------------------------------------------
def unary(I, L):
    """establish unary invariants of L (stored in L.inv) and return facts at exit"""
    comps = live_comps(L)
    inv = []
    facts = []
    n = L.n
    k = L.k
    pre = list(I.global_facts) + list(L.entry_pc)
    if L.slave_of is None or I.ext is not None or I.cfg.get("allfree"):
        cands = []
        for c in comps:
            s = sort_of(c)
            if L.slave_of is not None:
                # as many iterations as the list has elements: only what does not speak of their number
                if s == SeqV:
                    cands += [smt.allfree(sval(ch), c.cur) for ch in I.cfg.get("allfree") or ()]
                continue
            if s == Int:
                d = z3.simplify(c.next - c.cur)
                if z3.is_int_value(d):
                    cands.append(c.cur == c.init + k * d)
                else:
                    cands += [c.cur >= c.init, c.cur == c.init, c.cur <= c.init + k]
                if n is None and z3.is_int_value(d) and d.as_long() == 1:
                    cands.append(c.cur >= c.init)
                    for x, ch in counted_runs(L, c, comps):
                        cands += [c.cur <= z3.Length(x), z3.PrefixOf(smt.repeat(sval(ch), c.cur), x)]
            elif s == SeqV:
                ps = smt.seq_parts(c.next)
                if ps and ps[0].eq(c.cur) and all(smt.is_unit(p) for p in ps[1:]):
                    m = len(ps) - 1
                    cands.append(z3.Length(c.cur) == z3.Length(c.init) + k * m)
                else:
                    cands.append(z3.Length(c.cur) >= z3.Length(c.init))
                if I.cfg.get("allfree"):
                    for ch in I.cfg["allfree"]:
                        cands.append(smt.allfree(sval(ch), c.cur))
            elif s == S:
                cands += [z3.Not(z3.Contains(c.cur, sval(ch))) for ch in I.cfg.get("allfree") or ()]
                if n is None:
                    cands.append(smt.collapse(c.cur) == smt.collapse(c.init))
                    for i in comps:
                        if sort_of(i) == Int:
                            cands.append(i.cur - i.init == z3.Length(c.init) - z3.Length(c.cur))
                    for ch in tested_chars(L):
                        for f in (smt.clstrip, smt.crstrip):
                            cands.append(f(c.cur, sval(ch)) == f(c.init, sval(ch)))
                ps = smt.seq_parts(c.next)
                if len(ps) == 2 and (ps[0].eq(c.cur) or ps[1].eq(c.cur)):
                    x = ps[1] if ps[0].eq(c.cur) else ps[0]
                    if smt.is_str_const(x) and len(set(smt.str_const(x))) == 1:
                        x = smt.repeat_of(smt.str_const(x), k)
                        cands.append(c.cur == (smt.sconcat(c.init, x) if ps[0].eq(c.cur) else smt.sconcat(x, c.init)))
            elif s == B:
                cands += [c.cur == c.init, c.cur == (k == 0), c.cur == (k > 0)]
            elif s == Val:
                cands += [c.cur == c.init]
        if I.ext is not None:
            cands += I.ext.candidates(I, L, comps)
        elif L.slave_of is None:
            for l in comps:
                if sort_of(l) == SeqV:
                    for i in comps:
                        if sort_of(i) == Int:
                            d, e = i.cur - i.init, z3.Length(l.cur) - z3.Length(l.init)
                            cands += [d <= e, e <= d]
        cands = smt.filter_provable(pre, cands, lambda f: at_init(subst(f, [(k, z3.IntVal(0))]), comps), CAND_MS)
        cur = cands
        while cur:
            P = pre + L.facts + cur + noexit(L) + ([L.alive] if L.alive is not None else []) + [L.k >= 0]
            keep = smt.filter_provable(P, cur, lambda f: at_next(f, comps, [(k, k + 1)]), CAND_MS)
            if len(keep) == len(cur):
                break
            cur = keep
        inv = cur
    L.inv = inv
    # a while loop that is a counted loop in disguise: `v < N` with v growing by one
    if n is None and L.slave_of is None and L.alive is not None:
        for c in comps:
            if c.fin is None:
                continue
            if sort_of(c) == Int:
                ok = any(f.eq(c.cur == c.init + k * z3.simplify(c.next - c.cur)) for f in inv) and one(c.next - c.cur)
                v, v0 = c.cur, c.init
            elif sort_of(c) in (S, SeqV):
                ps = smt.seq_parts(c.next)
                ok = len(ps) == 2 and (ps[0].eq(c.cur) or ps[1].eq(c.cur)) and one(z3.Length(ps[1] if ps[0].eq(c.cur) else ps[0]))
                v, v0 = z3.Length(c.cur), z3.Length(c.init)
            else:
                continue
            N = upper_bound(L, v) if ok else None
            if N is not None and all(not mentions(N, x.cur) for x in comps):
                m = N - v0
                n = L.n = z3.If(m < 0, z3.IntVal(0), m)
                L.facts = [k >= 0, k < n]
                L.counted = True
                break
    done = noflag(L)
    if n is None and L.slave_of is None:
        for c in comps:
            if c.fin is not None and sort_of(c) == Int and one(c.next - c.cur):
                facts += [smt.counted_run(x, ch, c.fin) for x, ch in counted_runs(L, c, comps)]
    for f in inv:
        if n is not None:
            g = at_fin(subst(f, [(k, n)]), comps)
        else:
            if mentions(f, k):
                continue
            g = at_fin(f, comps)
        facts.append(z3.Implies(band(*done), g))
    if n is not None:
        for c in comps:
            if c.fin is not None and not c.fin.eq(c.init):
                facts.append(z3.Implies(band(n <= 0, *done), c.fin == c.init))
        for e in L.exits:
            facts.append(z3.Implies(e.flag, n > 0))
            # invariants hold at the exiting iteration
            if e.comps:
                pass
        # a list that receives the elements as they are, except for the first
        for c in comps:
            t = copied_tail(L, c, comps) if c.fin is not None and not L.exits and L.slave_of is None and I.ext is None else None
            if t is not None:
                P = pre + L.facts + inv + ([L.alive] if L.alive is not None else []) + [k > 0]
                if prove(P, t[1] == smt.at(L.base, k), CAND_MS):
                    whole = smt.vconcat(c.init, z3.simplify(t[0]), z3.SubSeq(L.base, 1, n - 1))
                    facts.append(z3.Implies(n > 0, z3.And(c.fin == whole, *[smt.join(sval(x), c.fin) == smt.join(sval(x), whole) for x in SEPS[:2]])))
        # a list that receives the same constant element on every iteration
        for c in comps:
            if sort_of(c) == SeqV and c.fin is not None and not L.exits:
                ps = smt.seq_parts(c.next)
                if len(ps) == 2 and ps[0].eq(c.cur) and smt.is_unit(ps[1]) and I.const_term(ps[1].arg(0)):
                    r = smt.lrep(ps[1], n)
                    facts.append(c.fin == smt.vconcat(c.init, r))
                    if smt.is_empty(c.init) and smt.boxed_const(ps[1].arg(0)) is not None:
                        facts += [smt.join(sval(x), c.fin) == smt.join(sval(x), r) for x in SEPS]
    return [f for f in facts if not z3.is_true(z3.simplify(f))]


def copied_tail(L, c, comps):
    """(first, rest) when c receives one element each time: `first` in the first
    iteration and `rest` (to be shown equal to the element of the list) later"""
    ps = smt.seq_parts(c.next) if sort_of(c) == SeqV else []
    if len(ps) != 2 or not ps[0].eq(c.cur) or not smt.is_unit(ps[1]) or L.base is None or L.base.sort() != SeqV:
        return None
    x = ps[1].arg(0)
    y = x.arg(0) if x.decl().name() == "box_str" else x
    if not (z3.is_app(y) and y.decl().kind() == z3.Z3_OP_ITE) or not any(mentions(y.arg(0), t) for t in [L.k] + [d.cur for d in comps]):
        return None
    if not mentions(y, smt.at(L.base, L.k)):
        return None
    return at_init(subst(ps[1], [(L.k, z3.IntVal(0))]), comps), x


def one(t):
    t = z3.simplify(t)
    return z3.is_int_value(t) and t.as_long() == 1


def char_tests(L):
    """(X, character) for the comparisons `X == character` in the condition of a while loop"""
    if L.alive is None:
        return
    terms = []
    smt.subterms(L.alive, set(), terms)
    for t in terms:
        if z3.is_eq(t) and t.arg(0).sort() == S:
            for x, y in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
                if smt.is_str_const(y) and len(smt.str_const(y)) == 1 and z3.is_app(x):
                    for z in cases(x):
                        yield z, smt.str_const(y)


def cases(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return cases(t.arg(1)) + cases(t.arg(2))
    return [t]


def counted_runs(L, c, comps):
    """(string, character) when the condition compares the character at position c with a constant"""
    out = []
    for x, ch in char_tests(L):
        if x.decl().kind() in (z3.Z3_OP_SEQ_EXTRACT, z3.Z3_OP_SEQ_AT) and mentions(x.arg(1), c.cur):
            s = x.arg(0)
            if not any(mentions(s, d.cur) for d in comps) and not any(s.eq(y) and ch == z for y, z in out):
                out.append((s, ch))
    return out


def tested_chars(L):
    out = []
    terms = []
    if L.alive is not None:
        smt.subterms(L.alive, set(), terms)
    for t in terms:
        if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_SEQ_PREFIX, z3.Z3_OP_SEQ_SUFFIX) and smt.is_str_const(t.arg(0)) and len(smt.str_const(t.arg(0))) == 1:
            out.append(smt.str_const(t.arg(0)))
    return list(dict.fromkeys(out + [ch for _, ch in char_tests(L)]))


def upper_bound(L, v, part=False):
    """N when the loop goes on exactly while v < N (part: at least that is needed)"""
    if L.alive is None:
        return None
    a = z3.simplify(L.alive)
    for a in a.children() if part and z3.is_and(a) else [a]:
        if z3.is_not(a):
            b = a.arg(0)
            if z3.is_le(b) and b.arg(1).eq(v):
                return b.arg(0)
            if z3.is_ge(b) and b.arg(0).eq(v):
                return b.arg(1)
        if z3.is_lt(a) and a.arg(0).eq(v):
            return a.arg(1)
        if z3.is_gt(a) and a.arg(1).eq(v):
            return a.arg(0)
    return None


def mentions(f, x):
    seen, out = set(), []
    smt.subterms(f, seen, out)
    return x.get_id() in seen


def terminates(I, L):
    """prove that a while loop terminates (a measure decreases)"""
    if getattr(L, "counted", False):
        return True
    comps = live_comps(L)
    P = list(I.global_facts) + list(L.entry_pc) + L.facts + list(L.inv) + ([L.alive] if L.alive is not None else []) + noexit(L)
    if check(P, 1500).status == "unsat":
        return True  # never iterates (or always leaves in its first iteration)
    for c in comps:
        s = sort_of(c)
        if s in (S, SeqV):
            if prove(P, z3.Length(c.next) < z3.Length(c.cur), 3000):
                return True
            N = upper_bound(L, z3.Length(c.cur), True)
            if N is not None and prove(P, z3.And(at_next(N, comps) - z3.Length(c.next) < N - z3.Length(c.cur), N - z3.Length(c.cur) >= 0), 2000):
                return True
        if s == Int:
            if prove(P, z3.And(c.next < c.cur, c.cur >= 0), 2000):
                return True
            N = upper_bound(L, c.cur, True)
            if N is not None and prove(P, z3.And(at_next(N, comps) - c.next < N - c.cur, N - c.cur >= 0), 2000):
                return True
    return False


# ---------------------------------------------------------------------------
class Relator:
    def __init__(self, I, seps=(), level=2):
        self.I = I
        self.level = level
        self.seps = list(dict.fromkeys(list(seps) + [""]))
        self.inv = {}  # (La.id, Lb.id) -> invariants over cur
        self.proved = 0
        self.facts = []
        self.log = []

    def run(self, LS, LC):
        """relate every spec loop with every code loop (and same-side pairs)"""
        base = list(self.I.global_facts)
        for a in LS:
            for b in LC:
                if a is b:
                    continue
                self.facts += self.relate(a, b, base + self.facts)
        for side in (LC, LS):
            for i, a in enumerate(side):
                for b in side[i + 1 :]:
                    if len(side) > 6:
                        break
                    if a.slave_of is b or b.slave_of is a:
                        pass
                    self.facts += self.relate(a, b, base + self.facts)
        return self.facts

    def chain(self, L):
        out = []
        while L is not None:
            out.append(L)
            L = L.slave_of
        return out

    def ahead(self, La, Lb, prem):
        """Lb starts one element later: La's first iteration has no counterpart in Lb"""
        for L in (La, Lb):
            if L.n is None or L.exits or L.inner or L.slave_of is not None:
                return []
        k0 = number(La.k)
        ca, cb = live_comps(La), live_comps(Lb)
        own = {c.cur.get_id() for c in ca} | {La.k.get_id()}
        for c in ca:
            terms = []
            smt.subterms(c.next, set(), terms)
            if any(t.num_args() == 0 and number(t) > k0 and t.get_id() not in own for t in terms if z3.is_const(t)):
                return []
        entry = list(La.entry_pc) + [p for p in Lb.entry_pc if not any(p.eq(q) for q in La.entry_pc)]
        some = La.n >= 1
        base = list(prem) + entry + [some]
        if not prove(base, La.n == Lb.n + 1, 1500) or check(base, 1000).status == "unsat":
            return []
        first = [(c.cur, at_init(subst(c.next, [(La.k, z3.IntVal(0))]), ca)) for c in ca]
        start = first + [(c.cur, c.init) for c in cb] + [(La.k, z3.IntVal(1)), (Lb.k, z3.IntVal(0))]
        cands = smt.filter_provable(base, self.candidates(La, Lb, ca, cb), lambda f: subst(f, start), CAND_MS)
        P = base + [La.k == Lb.k + 1] + list(La.facts) + list(Lb.facts) + list(La.inv) + list(Lb.inv)
        succ = [(La.k, La.k + 1), (Lb.k, Lb.k + 1)]
        while cands:
            keep = smt.filter_provable(P + cands, cands, lambda f: at_next(f, ca + cb, succ), CAND_MS)
            if len(keep) == len(cands):
                break
            cands = keep
        self.proved += 2 * len(cands)
        fin = [at_fin(subst(f, [(La.k, La.n), (Lb.k, Lb.n)]), ca + cb) for f in cands]
        return [z3.Implies(band(*(entry + [some])), band(*fin))] if fin else []

    def relate(self, La, Lb, prem, depth=0):
        if (La.n is None) != (Lb.n is None):
            return []
        entry = list(La.entry_pc) + [p for p in Lb.entry_pc if not any(p.eq(q) for q in La.entry_pc)]
        base = list(prem) + entry
        if La.n is not None:
            if not La.n.eq(Lb.n):
                if not quick_same(La, Lb) and not prove(base, La.n == Lb.n, 1500):
                    if self.level == 1:
                        return []
                    return self.ahead(La, Lb, prem) or self.ahead(Lb, La, prem)
        # contradictory entry conditions: nothing to relate
        if depth == 0 and check(base, 1000).status == "unsat":
            return []
        ca, cb = live_comps(La), live_comps(Lb)
        comps = ca + [c for c in cb if not any(c.cur.eq(d.cur) for d in ca)]
        eqk = [] if La.k.eq(Lb.k) else [La.k == Lb.k]
        basefact = []
        if La.base is not None and Lb.base is not None and not La.base.eq(Lb.base) and La.base.sort() == Lb.base.sort():
            if prove(base, La.base == Lb.base, 1500):
                basefact = [La.base == Lb.base]
        cands = self.candidates(La, Lb, ca, cb)
        zero = [(La.k, z3.IntVal(0)), (Lb.k, z3.IntVal(0))]
        cands = smt.filter_provable(base + basefact, cands, lambda f: at_init(subst(f, zero), comps), CAND_MS)
        P0 = base + eqk + basefact + list(La.facts) + list(Lb.facts) + list(La.inv) + list(Lb.inv)
        if La.alive is not None and La.n is None:
            pass
        else:
            P0 += [x.alive for x in (La, Lb) if x.alive is not None]
        for x in self.chain(La):
            for y in self.chain(Lb):
                if (x.id, y.id) != (La.id, Lb.id):
                    P0 += self.inv.get((x.id, y.id), self.inv.get((y.id, x.id), []))
        for x in self.chain(La)[1:] + self.chain(Lb)[1:]:
            P0 += list(getattr(x, "inv", []))
        succ = [(La.k, La.k + 1)] + ([] if La.k.eq(Lb.k) else [(Lb.k, Lb.k + 1)])
        while True:
            P = P0 + cands
            inner = self.inner_facts(La, Lb, P, depth)
            Q = P + inner + noexit(La) + noexit(Lb)
            if La.n is None:
                Q = Q + [La.alive, Lb.alive]
            keep = smt.filter_provable(Q, cands, lambda f: at_next(f, comps, succ), CAND_MS)
            if len(keep) == len(cands):
                break
            cands = keep
        self.inv[(La.id, Lb.id)] = cands
        self.proved += 2 * len(cands)
        P = P0 + cands
        inner = self.inner_facts(La, Lb, P, depth)
        R = P + inner
        guard = [p for p in entry]
        facts = []
        alive_equiv = True
        if La.n is None:
            alive_equiv = bool(prove(R, La.alive == Lb.alive, 2500))
        if not alive_equiv:
            return []
        # simultaneous exits
        anya, anyb = bor(*[e.cond for e in La.exits]), bor(*[e.cond for e in Lb.exits])
        anyeq = True
        if La.exits or Lb.exits:
            anyeq = bool(prove(R, anya == anyb, 2500))
        done = noflag(La) + noflag(Lb)
        fin = []
        for f in cands:
            g = subst(f, [(La.k, La.n), (Lb.k, Lb.n)]) if La.n is not None else f
            if La.n is None and (mentions(f, La.k) or mentions(f, Lb.k)):
                continue
            fin.append(at_fin(g, comps))
        if fin:
            facts.append(z3.Implies(band(*(guard + done)), band(*fin)))
        if anyeq and (La.exits or Lb.exits):
            facts.append(z3.Implies(band(*guard), La.anyexit() == Lb.anyexit()))
            for ea in La.exits:
                for eb in Lb.exits:
                    single = len(La.exits) == 1 and len(Lb.exits) == 1
                    if not single and not prove(R, ea.cond == eb.cond, 2500):
                        continue
                    facts.append(z3.Implies(band(*guard), ea.flag == eb.flag))
                    ta, tb = exit_terms(La, ea), exit_terms(Lb, eb)
                    for t, kt in ta:
                        for u, ku in tb:
                            if t.sort() != u.sort():
                                continue
                            if self.I.const_term(t) and self.I.const_term(u):
                                continue
                            if prove(R + [ea.cond, eb.cond], t == u, 2500):
                                facts.append(z3.Implies(band(*(guard + [ea.flag, eb.flag])), kt == ku))
                            elif t.sort() == SeqV:
                                for sep in self.seps:
                                    if prove(R + [ea.cond, eb.cond], smt.join(sval(sep), t) == smt.join(sval(sep), u), 2500):
                                        facts.append(
                                            z3.Implies(
                                                band(*(guard + [ea.flag, eb.flag])), smt.join(sval(sep), kt) == smt.join(sval(sep), ku)
                                            )
                                        )
        # an exit of one loop against a monotone flag of the other
        for X, Y in ((La, Lb), (Lb, La)):
            if Y.exits or not X.exits:
                continue
            anyx = bor(*[e.cond for e in X.exits])
            for c in live_comps(Y):
                for fl in flag_exprs(c):
                    f0 = at_init(fl, live_comps(Y))
                    f1 = at_next(fl, live_comps(Y))
                    if not prove(base, bnot(f0), 1000):
                        continue
                    PY = base + list(Y.facts) + list(Y.inv)
                    if not prove(PY + [fl], f1, 1000):
                        continue
                    if prove(R + [bnot(fl)], f1 == anyx, 2000):
                        facts.append(z3.Implies(band(*guard), X.anyexit() == at_fin(fl, live_comps(Y))))
        return facts

    def inner_facts(self, La, Lb, P, depth):
        if depth > 3 or not La.inner and not Lb.inner:
            return []
        facts = []
        for a in La.inner:
            for b in Lb.inner:
                if a is b:
                    continue
                facts += self.relate(a, b, P + facts, depth + 1)
        for side in (La.inner, Lb.inner):
            if La is Lb:
                break
            for i, a in enumerate(side):
                for b in side[i + 1 :]:
                    if not (a.slave_of is b or b.slave_of is a) and len(side) <= 4:
                        facts += self.relate(a, b, P + facts, depth + 1)
        return facts

    def framed(self, p, q):
        """q collects the text of the list p with something around each element:
        q == q0 + a + sep.join(p) + b once p has elements"""
        ks = constant_parts(q.next)
        if not 1 <= len(ks) <= 4 or not is_empty(p.init):
            return []
        seps = [x for x in self.seps if x]
        out = []
        if sort_of(q) == S:
            if not is_empty(q.init):
                out += [q.cur == smt.sconcat(q.init, smt.join(sval(sep), p.cur)) for sep in seps if sep in ks]
        elif smt.seq_parts(q.next)[0].eq(q.cur):
            # two elements each time, one of them constant, joined by t in the end
            for t in seps:
                start = smt.join(sval(t), q.init)
                for c in ks:
                    for a, b in ((t, t + c), (t + c + t, "")):
                        if t + c + t in seps:
                            a = a if not is_empty(q.init) else a[len(t):]
                            around = smt.sconcat(start, sval(a), smt.join(sval(t + c + t), p.cur), sval(b))
                            out.append(smt.join(sval(t), q.cur) == z3.If(z3.Length(p.cur) == 0, start, around))
        text = (lambda t: t) if sort_of(q) == S else (lambda t: smt.join(smt.ES, t))
        for a in [""] + ks:
            for b in [""] + ks:
                for sep in seps:
                    if a and (b + a == sep or b == "" and sep in ks and a != sep):
                        around = smt.sconcat(sval(a), smt.join(sval(sep), p.cur), sval(b))
                        out.append(text(q.cur) == smt.sconcat(text(q.init), z3.If(z3.Length(p.cur) == 0, smt.ES, around)))
        return out

    def candidates(self, La, Lb, ca, cb):
        out = []

        def add(f):
            f2 = z3.simplify(f)
            if z3.is_true(f2) or z3.is_false(f2):
                return
            if not any(f.eq(g) for g in out):
                out.append(f)

        if self.level > 1:
            for x, y in ((ca, cb), (cb, ca)):
                for f in state_relations(x, y):
                    add(f)
        allc = [(c, 0) for c in ca] + [(c, 1) for c in cb if not any(c.cur.eq(d.cur) for d in ca)]
        for i, (x, sx) in enumerate(allc):
            for y, sy in allc[i + 1 :]:
                cross = sx != sy
                s, t = sort_of(x), sort_of(y)
                if s == t:
                    if not cross and s not in (Int, SeqV):
                        continue
                    if s == Int:
                        if self.level == 1:
                            if cross:
                                add(x.cur == y.cur)
                            continue
                        add(x.cur - y.cur == x.init - y.init)
                        if cross:
                            add(x.cur == y.cur)
                    elif s == SeqV:
                        if cross:
                            add(x.cur == y.cur)
                            for p, q in ((x, y), (y, x)):
                                if p.init is not None and q.init is not None and is_empty(p.init) and not is_empty(q.init):
                                    add(q.cur == smt.vconcat(q.init, p.cur))
                            for sep in self.seps:
                                add(smt.join(sval(sep), x.cur) == smt.join(sval(sep), y.cur))
                        if self.level == 1:
                            continue
                        if cross:
                            for p, q in ((x, y), (y, x)):
                                for f in self.framed(p, q):
                                    add(f)
                        add(z3.Length(x.cur) == z3.Length(y.cur))
                        add((z3.Length(x.cur) == 0) == (z3.Length(y.cur) == 0))
                    elif s == B:
                        add(x.cur == y.cur)
                        if self.level > 1:
                            add(x.cur != y.cur)
                    else:
                        add(x.cur == y.cur)
                        if s == S and cross:
                            for p, q in ((x, y), (y, x)):
                                if p.init is not None and q.init is not None and is_empty(p.init) and not is_empty(q.init):
                                    add(q.cur == smt.sconcat(q.init, p.cur))
                    continue
                if self.level == 1:
                    continue
                if cross and {s, t} <= {S, SeqV}:
                    for p, q in ((x, y), (y, x)):
                        if sort_of(p) == SeqV:
                            for f in self.framed(p, q):
                                add(f)
                for (p, ps), (q, qs) in (((x, s), (y, t)), ((y, t), (x, s))):
                    if ps == SeqV and qs == S:
                        for sep in self.seps:
                            add(smt.join(sval(sep), p.cur) == q.cur)
                    elif ps == SeqV and qs == Int:
                        add(z3.Length(p.cur) == q.cur)
                        add(z3.Length(p.cur) - z3.Length(p.init) == q.cur - q.init)
                        add((z3.Length(p.cur) == 0) == (q.cur == q.init))
                    elif ps == SeqV and qs == B:
                        add(q.cur == (z3.Length(p.cur) > 0))
                        add(q.cur == (z3.Length(p.cur) == 0))
                        for u in constant_units(p.next):
                            n = z3.Length(p.cur)
                            add(q.cur == z3.And(n > 0, smt.sv(smt.at(p.cur, n - 1)) == u))
                    elif ps == Int and qs == B:
                        add(q.cur == (p.cur == p.init))
                        add(q.cur == (p.cur > p.init))
                    elif ps == S and qs == B:
                        add(q.cur == (p.cur == smt.ES))
                        add(q.cur == (p.cur != smt.ES))
                    elif ps == Val and qs == S:
                        add(p.cur == smt.bs(q.cur))
                    elif ps == Val and qs == Int:
                        add(p.cur == smt.bi(q.cur))
                    elif ps == Val and qs == B:
                        add(q.cur == (smt.kind(p.cur) == smt.K["none"]))
                        add(q.cur == (smt.kind(p.cur) != smt.K["none"]))
                    elif ps == Val and qs == SeqV:
                        add((smt.kind(p.cur) == smt.K["none"]) == (z3.Length(q.cur) == 0))
        return out


def number(t):
    """constants made later have higher numbers"""
    n = t.decl().name().rpartition("!")[2]
    return int(n) if n.isdigit() and "!" in t.decl().name() else 0


def constant_parts(t):
    """constant strings among the pieces appended in t"""
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if not z3.is_app(x):
            continue
        if smt.is_str_const(x):
            out.append(smt.str_const(x))
        elif x.decl().kind() == z3.Z3_OP_ITE:
            todo += x.children()[1:]
        elif x.decl().kind() in (z3.Z3_OP_SEQ_CONCAT, z3.Z3_OP_SEQ_UNIT) or x.decl().name() == "box_str":
            todo += x.children()
    return [c for c in dict.fromkeys(out) if c]


def leaves(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return leaves(t.arg(1)) + leaves(t.arg(2))
    return [t]


def state_relations(ca, cb):
    """each state of a variable that takes a few constant values only, against the conditions
    on the variables of the other loop (single ones, and two together)"""
    out = []
    states = []
    for c in ca:
        if sort_of(c) == Int:
            vs = [v for v in leaves(z3.simplify(c.next)) if not v.eq(c.cur)]
            vs = {v.as_long() for v in vs if z3.is_int_value(v)} if all(z3.is_int_value(v) for v in vs) else set()
            if z3.is_int_value(c.init) and len(vs) > 1:
                states += [c.cur == v for v in sorted(vs | {c.init.as_long()})]
    if not 1 < len(states) <= 6:
        return out
    atoms, curs = [], {c.cur.get_id(): c for c in cb}
    for c in cb:
        terms = []
        smt.subterms(c.next, set(), terms)
        if sort_of(c) == B:
            atoms.append(c.cur)
        elif sort_of(c) == Int:
            atoms.append(c.cur == c.init)
        for t in terms:
            if z3.is_bool(t) and (z3.is_le(t) or z3.is_ge(t) or z3.is_lt(t) or z3.is_gt(t) or z3.is_eq(t)):
                if t.arg(0).sort() == Int and all(x.get_id() in curs or z3.is_int_value(x) for x in t.children()) and not any(t.eq(a) for a in atoms):
                    atoms.append(t)
    atoms = atoms[:4]
    lits = [(i, l) for i, a in enumerate(atoms) for l in (a, z3.Not(a))]
    for s in states:
        out += [s == l for _, l in lits]
        out += [s == z3.And(l, m) for i, l in lits for j, m in lits if i < j]
    return out


def constant_units(t):
    """constant strings that t appends to a list"""
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if z3.is_app(x) and (x.decl().kind() == z3.Z3_OP_ITE or x.sort() == SeqV and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT):
            todo += x.children()[1 if x.decl().kind() == z3.Z3_OP_ITE else 0:]
        elif smt.is_unit(x):
            todo.append(x.arg(0))
        elif z3.is_app(x) and x.decl().name() == "box_str":
            todo.append(x.arg(0))
        elif x.sort() == S and smt.is_str_const(x) and not any(x.eq(o) for o in out):
            out.append(x)
    return out[:3]


def flag_exprs(c):
    s = c.cur.sort()
    if s == B:
        return [c.cur, z3.Not(c.cur)]
    if s == SeqV:
        return [z3.Length(c.cur) > 0]
    if s == Int:
        return [c.cur > c.init]
    if s == Val:
        return [smt.kind(c.cur) != smt.K["none"]]
    return []


def exit_terms(L, e):
    out = []
    if e.payload is not None:
        out.append((e.payload, e.pconst))
    for t, k in (e.comps or {}).values():
        out.append((t, k))
    return out


def quick_same(La, Lb):
    return La.base is not None and Lb.base is not None and La.base.eq(Lb.base)


def is_empty(t):
    t = z3.simplify(t)
    return t.eq(z3.simplify(smt.E_)) if t.sort() == SeqV else t.eq(smt.ES)
