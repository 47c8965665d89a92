"""Symbolic interpreter for the real runtime functions of the package.

The AST executed is that of the function object found at run time (source file
and first line number of its code object); names, classes, MRO, defaults and
dataclass fields are those of the imported package.
"""
import ast
import builtins
import copy
import contextlib
import dataclasses
import enum
import functools
import importlib
import inspect
import itertools
import re
import types
import z3

from . import memo, smt
from .smt import sval, fresh, sconcat, vconcat
from .values import *

PKG = ("atlas_doc_parser", "func_args", "dv.specs", "dv.memo", "dv.prelude", "dv.cases")
MAX_DEPTH = 40


CONTEXT_HELPER = contextlib.contextmanager(lambda: None).__code__


class Out:
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


class State:
    __slots__ = ("frames", "heap", "pc", "loops", "events", "glob", "frozen")

    def __init__(self):
        self.frames, self.heap, self.pc, self.loops, self.events, self.glob = {}, {}, [], [], [], {}
        self.frozen = frozenset()  # lists whose contents are known under a second name (box): not to be changed

    def copy(self):
        n = State()
        n.frames = {k: dict(v) for k, v in self.frames.items()}
        n.heap = dict(self.heap)
        n.pc = list(self.pc)
        n.loops = list(self.loops)
        n.events = list(self.events)
        n.glob = dict(self.glob)
        n.frozen = self.frozen
        return n

    def become(self, o):
        self.frames, self.heap, self.pc, self.loops, self.events, self.glob, self.frozen = (
            o.frames, o.heap, o.pc, o.loops, o.events, o.glob, o.frozen)


class Ctx:
    def __init__(self, prefix, memo):
        self.prefix, self.memo, self.taken, self.pending = prefix, memo, [], []

    def choose(self, n):
        i = len(self.taken)
        if i < len(self.prefix):
            j = self.prefix[i]
        else:
            j = 0
            for a in range(1, n):
                self.pending.append(self.taken + [a])
        self.taken.append(j)
        return j


@dataclasses.dataclass
class Comp:
    key: tuple
    kind: str
    init: object = None  # z3 term
    cur: object = None
    next: object = None
    fin: object = None
    init_val: object = None
    gsegs: object = None  # appended segments for list comps
    wrap: str = "val"
    hot: bool = False


@dataclasses.dataclass
class Exit:
    kind: str
    cond: object
    flag: object
    payload: object = None  # value term at the generic index (z3) or None
    pconst: object = None  # constant after the loop
    pkind: str = None
    comps: dict = None  # key -> (term at exit, const)


class Loop:
    _n = 0

    def __init__(self):
        Loop._n += 1
        self.id = Loop._n
        self.k = None
        self.base = None
        self.n = None
        self.alive = None
        self.comps = []
        self.exits = []
        self.inner = []
        self.entry_pc = []
        self.slave_of = None
        self.facts = []
        self.where = ""
        self.side = ""

    def flags(self):
        return [e.flag for e in self.exits]

    def anyexit(self):
        return bor(*self.flags())


_ast_cache = {}


def find_ast(fn):
    code = fn.__code__
    path = code.co_filename
    if path not in _ast_cache:
        src = open(path, encoding="utf-8").read()
        idx = {}
        for n in ast.walk(ast.parse(src)):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                ln = n.lineno
                if isinstance(n, ast.FunctionDef) and n.decorator_list:
                    ln = min(ln, min(d.lineno for d in n.decorator_list))
                idx.setdefault(ln, []).append(n)
        _ast_cache[path] = idx
    cands = _ast_cache[path].get(code.co_firstlineno, [])
    if code.co_name == "<lambda>":
        cands = [c for c in cands if isinstance(c, ast.Lambda)]
        if len(cands) != 1:
            raise Unsupported("ambiguous lambda at %s:%s" % (path, code.co_firstlineno))
        return cands[0]
    cands = [c for c in cands if isinstance(c, ast.FunctionDef) and c.name == code.co_name]
    if len(cands) != 1:
        raise Unsupported("no source for %s" % fn.__qualname__)
    return cands[0]


_rewritten = {}


def rewrite_elements(s):
    """(list, statements) for `for i, x in enumerate(xs)` / `for i in range(len(xs))` whose body
    assigns to xs[i] and uses xs in no other way"""
    it = s.iter
    if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and not it.keywords and len(it.args) == 1):
        return None
    arg, item = it.args[0], None
    if it.func.id == "enumerate" and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2:
        index, item = s.target.elts
    elif it.func.id == "range" and isinstance(arg, ast.Call) and isinstance(arg.func, ast.Name) and arg.func.id == "len" and len(arg.args) == 1:
        index, arg = s.target, arg.args[0]
    else:
        return None
    if not (isinstance(arg, ast.Name) and isinstance(index, ast.Name)) or arg.id == index.id:
        return None
    if item is not None and not (isinstance(item, ast.Name) and item.id not in (arg.id, index.id)):
        return None
    xs, i, y, new = arg.id, index.id, "$x" + arg.id, "$new" + arg.id
    ok, stores = [True], [0]

    def name(n, ctx):
        return ast.copy_location(ast.Name(n, ctx), s)

    def push():
        call = ast.Call(ast.Attribute(name(new, ast.Load()), "append", ast.Load()), [name(y, ast.Load())], [])
        return ast.fix_missing_locations(ast.copy_location(ast.Expr(call), s))

    class R(ast.NodeTransformer):
        depth = 0

        def visit_Subscript(self, n):
            if isinstance(n.value, ast.Name) and n.value.id == xs and isinstance(n.slice, ast.Name) and n.slice.id == i:
                if isinstance(n.ctx, ast.Del):
                    ok[0] = False
                stores[0] += isinstance(n.ctx, ast.Store)
                return name(y, n.ctx)
            return self.generic_visit(n)

        def visit_Name(self, n):
            if n.id == xs or n.id == i and not isinstance(n.ctx, ast.Load):
                ok[0] = False
            return n

        def inner(self, n):
            self.depth += 1
            n = self.generic_visit(n)
            self.depth -= 1
            return n

        visit_For = visit_While = inner

        def closed(self, n):
            for m in ast.walk(n):
                if isinstance(m, ast.Name) and m.id == xs:
                    ok[0] = False
            return n

        visit_Lambda = visit_FunctionDef = visit_GeneratorExp = closed

        def visit_Break(self, n):
            if not self.depth:
                ok[0] = False
            return n

        def visit_Return(self, n):
            return self.generic_visit(n)

        def visit_Continue(self, n):
            return n if self.depth else [push(), n]

    body = []
    for b in copy.deepcopy(s.body):
        r = R().visit(b)
        body += r if isinstance(r, list) else [r]
    if not ok[0] or not stores[0]:
        return None
    if item is not None:
        body.insert(0, ast.copy_location(ast.Assign([name(item.id, ast.Store())], name(y, ast.Load())), s))
    loop = ast.For(
        ast.Tuple([name(i, ast.Store()), name(y, ast.Store())], ast.Store()),
        ast.Call(name("enumerate", ast.Load()), [name(xs, ast.Load())], []),
        body + [push()],
        [],
    )
    block = [
        ast.Assign([name(new, ast.Store())], ast.List([], ast.Load())),
        loop,
        ast.Assign([name(xs, ast.Store())], name(new, ast.Load())),
    ] + list(s.orelse)
    return xs, [ast.fix_missing_locations(ast.copy_location(b, s)) for b in block]


def in_pkg(modname):
    return any(modname == p or (modname or "").startswith(p + ".") for p in PKG)


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (SStr, SInt, SBool, SReal)):
        return a.t.eq(b.t)
    if isinstance(a, SVal):
        return a.t.eq(b.t) and a.tag == b.tag and a.prov == b.prov
    if isinstance(a, Ref):
        return a.id == b.id
    if isinstance(a, STuple):
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, SExc):
        return a.t.eq(b.t)
    if isinstance(a, SDate):
        return a.k == b.k and a.t.eq(b.t)
    if isinstance(a, SUnion):
        return len(a.alts) == len(b.alts) and all(c.eq(d) and same(x, y) for (c, x), (d, y) in zip(a.alts, b.alts))
    if isinstance(a, Bound):
        return a.fn is b.fn and same(a.self_, b.self_)
    if isinstance(a, Poison):
        return True
    if isinstance(a, Sym):
        return False
    if isinstance(a, (str, int, float, bytes, tuple, frozenset)):
        try:
            return a == b
        except Exception:
            return False
    return False


class Interp:
    def __init__(self, config=None):
        self.cfg = config or {}
        self.ctx = []
        self.depth = 0
        self.side = "code"
        self.global_facts = []
        self.active_k = []
        self.sinks = []  # consumers of running generators: (frame, hook)
        self.fctr = itertools.count(1)
        self.hctr = itertools.count(1)
        self.inlined = set()
        self.contracts_used = set()
        self.external_used = set()
        self.events = []
        self.term_obls = []
        self.mirror = {}  # sequence term -> its reversal (a segment; the terms stay alive in the segments)
        self.substitute = {}  # host function -> spec function (verified helper contracts)
        from . import builtin_models

        self.bm = builtin_models
        self.hist_dicts = {}

    # ------------------------------------------------------------------
    # exploration of choices within one expression / simple statement
    def explore(self, st, fn, limit=600):
        outs, stack, memo = [], [[]], {}
        n = 0
        while stack:
            n += 1
            if n > limit:
                raise Unsupported("too many paths in one statement")
            prefix = stack.pop()
            ctx = Ctx(prefix, memo)
            s = st.copy()
            self.ctx.append(ctx)
            try:
                v = fn(s)
                outs.append(Out("ok", s, v))
            except PyExc as e:
                outs.append(Out("raise", s, e.exc))
            except Infeasible:
                pass
            finally:
                self.ctx.pop()
            stack.extend(ctx.pending)
        return outs

    def feasible(self, st, c):
        r = smt.check(st.pc + self.global_facts + [c], timeout=800)
        return r.status != "unsat"

    def branch(self, st, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if any(p.eq(c) for p in st.pc):
            return True
        nc = bnot(c)
        if any(p.eq(nc) for p in st.pc):
            return False
        f1 = self.feasible(st, c)
        if not f1:
            return False
        f0 = self.feasible(st, nc)
        if not f0:
            return True
        j = self.ctx[-1].choose(2)
        if j == 0:
            st.pc.append(c)
            return True
        st.pc.append(nc)
        return False

    def choose_outcome(self, st, thunk):
        ctx = self.ctx[-1]
        key = tuple(ctx.taken)
        # several choose_outcome calls may happen with the same decision prefix;
        # number them by call order
        cnt = ctx.__dict__.setdefault("cnt", {})
        i = cnt.get(key, 0)
        cnt[key] = i + 1
        mk = (key, i)
        if mk not in ctx.memo:
            # numbers given inside are not given again when the saved outcomes are reused
            inner = Ctx([], {})
            self.ctx.append(inner)
            try:
                ctx.memo[mk] = thunk(st.copy())
            finally:
                self.ctx.pop()
            if inner.pending:
                raise Unsupported("undecided choice outside of an exploration")
        outs = ctx.memo[mk]
        if not outs:
            raise Infeasible()
        o = outs[0] if len(outs) == 1 else outs[ctx.choose(len(outs))]
        st.become(o.st.copy())
        if o.kind == "raise":
            raise PyExc(o.val)
        return o.val

    def fork_merge(self, st, c, fa, fb):
        if isinstance(c, bool):
            return fa(st) if c else fb(st)
        c = z3.simplify(c)
        if z3.is_true(c):
            return fa(st)
        if z3.is_false(c):
            return fb(st)

        def thunk(s):
            outs = []
            for cc, f in ((c, fa), (bnot(c), fb)):
                if self.feasible(s, cc):
                    s2 = s.copy()
                    if not any(p.eq(cc) for p in s2.pc):
                        s2.pc.append(cc)
                    outs += self.explore(s2, f)
            return self.merge_outs(outs)

        return self.choose_outcome(st, thunk)

    # ------------------------------------------------------------------
    # merging
    def merge_outs(self, outs):
        groups, order = {}, []
        for o in outs:
            if o.kind not in groups:
                groups[o.kind] = []
                order.append(o.kind)
            groups[o.kind].append(o)
        res = []
        for k in order:
            acc = []
            for o in groups[k]:
                for i, a in enumerate(acc):
                    m = self.merge2(a, o)
                    if m is not None:
                        acc[i] = m
                        break
                else:
                    acc.append(o)
            res += acc
        return res

    def merge2(self, a, b):
        r = self.merge_states(a.st, b.st)
        if r is None:
            return None
        st, c = r
        if a.kind == "raise":
            v = self.merge_exc(c, a.val, b.val)
        else:
            v = self.merge_values(c, a.val, b.val)
        return Out(a.kind, st, v)

    def merge_exc(self, c, x, y):
        if same(x, y):
            return x
        return SExc(z3.If(c, x.t, y.t), x.cls if x.cls is y.cls else None)

    def merge_states(self, a, b):
        if [e for e in a.events if e[0] == "write"] != [e for e in b.events if e[0] == "write"]:
            return None
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n].eq(b.pc[n]):
            n += 1
        ea, eb = a.pc[n:], b.pc[n:]
        c = band(*ea)
        d = band(*eb)
        if not ea and not eb:
            # same path condition: cannot discriminate
            if not self.states_equal(a, b):
                return None
            return a, z3.BoolVal(True)
        st = State()
        st.pc = a.pc[:n]
        o = z3.simplify(z3.Or(c, d))
        if not z3.is_true(o):
            st.pc.append(o)
        # a frame kept alive by a closure or generator on one side only is unreachable on the other
        for f in list(a.frames) + [f for f in b.frames if f not in a.frames]:
            if f not in a.frames or f not in b.frames:
                st.frames[f] = (a if f in a.frames else b).frames[f]
                continue
            fa, fb = a.frames[f], b.frames[f]
            fr = {}
            for k in list(fa) + [k for k in fb if k not in fa]:
                if k in fa and k in fb:
                    fr[k] = self.merge_values(c, fa[k], fb[k])
                else:
                    fr[k] = Poison("name %s bound on one branch only" % k)
            st.frames[f] = fr
        for k in list(a.heap) + [k for k in b.heap if k not in a.heap]:
            if k in a.heap and k in b.heap:
                m = self.merge_rec(c, a.heap[k], b.heap[k])
                if m is None:
                    return None
                st.heap[k] = m
            else:
                st.heap[k] = a.heap[k] if k in a.heap else b.heap[k]
        for k in set(a.glob) | set(b.glob):
            if k in a.glob and k in b.glob:
                st.glob[k] = self.merge_values(c, a.glob[k], b.glob[k])
            else:
                return None
        st.loops = list(a.loops) + [l for l in b.loops if not any(l is m for m in a.loops)]
        st.events = list(a.events) + [e for e in b.events if e not in a.events]
        st.frozen = a.frozen | b.frozen
        return st, c

    def states_equal(self, a, b):
        if set(a.frames) != set(b.frames) or set(a.heap) != set(b.heap):
            return False
        for f in a.frames:
            if set(a.frames[f]) != set(b.frames[f]):
                return False
            if not all(same(a.frames[f][k], b.frames[f][k]) for k in a.frames[f]):
                return False
        return all(a.heap[k] is b.heap[k] for k in a.heap)

    def merge_values(self, c, x, y):
        if same(x, y):
            return x
        if isinstance(x, Poison) or isinstance(y, Poison):
            return Poison("merged")
        if is_strlike(x) and is_strlike(y):
            return mkstr(z3.If(c, st_(x), st_(y)))
        if is_boollike(x) and is_boollike(y):
            return mkbool(z3.If(c, bt_(x), bt_(y)))
        if is_intlike(x) and is_intlike(y):
            return mkint(z3.If(c, it_(x), it_(y)))
        if isinstance(x, SVal) and isinstance(y, SVal) and x.tag == y.tag and x.prov == y.prov:
            return SVal(z3.If(c, x.t, y.t), x.tag, x.prov)
        if isinstance(x, STuple) and isinstance(y, STuple) and len(x.items) == len(y.items):
            return STuple([self.merge_values(c, p, q) for p, q in zip(x.items, y.items)])
        if isinstance(x, SExc) and isinstance(y, SExc):
            return self.merge_exc(c, x, y)
        if isinstance(x, Super) and isinstance(y, Super) and x.cls is y.cls:
            return x
        alts = []
        nc = bnot(c)
        for cc, v in ((c, x), (nc, y)):
            if isinstance(v, SUnion):
                alts += [(band(cc, d), w) for d, w in v.alts]
            else:
                alts.append((cc, v))
        merged = []
        for cc, v in alts:
            for i, (d, w) in enumerate(merged):
                if same(v, w):
                    merged[i] = (z3.simplify(bor(d, cc)), w)
                    break
            else:
                merged.append((cc, v))
        return self.mkunion(merged)

    def mkunion(self, alts):
        """one alternative per primitive kind"""
        out = []
        for c, v in alts:
            for i, (d, w) in enumerate(out):
                m = None
                if is_strlike(v) and is_strlike(w):
                    m = mkstr(z3.If(d, st_(w), st_(v)))
                elif is_boollike(v) and is_boollike(w):
                    m = mkbool(z3.If(d, bt_(w), bt_(v)))
                elif is_intlike(v) and is_intlike(w):
                    m = mkint(z3.If(d, it_(w), it_(v)))
                elif same(v, w):
                    m = w
                if m is not None:
                    out[i] = (z3.simplify(bor(d, c)), m)
                    break
            else:
                out.append((c, v))
        if len(out) == 1:
            return out[0][1]
        return SUnion(out)

    def prune(self, st, v):
        """drop alternatives of a union that are impossible here"""
        if not isinstance(v, SUnion):
            return v
        alts = [(c, w) for c, w in v.alts if any(p.eq(c) for p in st.pc) or (not any(p.eq(bnot(c)) for p in st.pc) and self.feasible(st, c))]
        if not alts:
            raise Infeasible()
        if len(alts) == 1:
            return alts[0][1]
        return self.mkunion(alts) if len(alts) < len(v.alts) else v

    def merge_rec(self, c, x, y):
        if x is y:
            return x
        if type(x) is not type(y):
            return None
        if isinstance(x, ListObj):
            if x.fresh != y.fresh:
                return None
            return ListObj(self.merge_segs(c, x.segs, y.segs), x.fresh)
        if isinstance(x, DictObj):
            if not ((x.base is None and y.base is None) or (x.base is not None and y.base is not None and same(x.base, y.base))):
                return None
            ent = {}
            for k in list(x.entries) + [k for k in y.entries if k not in x.entries]:
                if k in x.entries and x.entries[k] is y.entries.get(k):
                    ent[k] = x.entries[k]
                    continue
                px, vx = self.dict_lookup(x, k)
                py, vy = self.dict_lookup(y, k)
                p = px if px is py else z3.simplify(z3.If(c, bt_(px) if isinstance(px, bool) else px, bt_(py) if isinstance(py, bool) else py))
                if not isinstance(p, bool):
                    if z3.is_true(p):
                        p = True
                    elif z3.is_false(p):
                        p = False
                if px is False:
                    v = vy
                elif py is False:
                    v = vx
                else:
                    v = self.merge_values(c, vx, vy)
                ent[k] = (p, v)
            ipr = "borrowed" if "borrowed" in (x.iprov, y.iprov) else x.iprov
            return DictObj(ent, x.base, x.fresh, ipr)
        if isinstance(x, MapObj):
            if x.fid != y.fid or x.factory is not y.factory:
                return None
            other = {}
            for i in {**x.other, **y.other}:
                t = (x.other.get(i) or y.other[i])[0]
                a, b = (m.other[i][1] if i in m.other else fresh("has_other", smt.B) for m in (x, y))
                other[i] = (t, z3.simplify(z3.If(c, a, b)))
            return MapObj(x.fid, x.key, other, x.factory)
        if isinstance(x, IterSt):
            if x.used is y.used and same(x.pos, y.pos):
                return x
            if x.used is False and y.used is False:
                return IterSt(False, mkint(z3.simplify(z3.If(c, it_(x.pos), it_(y.pos)))))
            return IterSt(None)
        if isinstance(x, Inst):
            if x.cls is not y.cls or set(x.fields) != set(y.fields):
                return None
            return Inst(x.cls, {k: self.merge_values(c, x.fields[k], y.fields[k]) for k in x.fields}, x.fresh)
        return None

    def merge_segs(self, c, a, b):
        n = 0
        while n < len(a) and n < len(b) and (a[n] is b[n] or self.same_seg(a[n], b[n])):
            n += 1
        pa, ra, rb = a[:n], a[n:], b[n:]
        if not ra and not rb:
            return pa
        if len(ra) == len(rb) and all(isinstance(p, SegE) and isinstance(q, SegE) for p, q in zip(ra, rb)):
            vs = [self.merge_values(c, p.v, q.v) for p, q in zip(ra, rb)]
            if not any(isinstance(v, SUnion) for v in vs):
                return tuple(pa) + tuple(SegE(v) for v in vs)
        return tuple(pa) + (SegC(c, ra, rb),)

    def same_seg(self, a, b):
        if isinstance(a, SegE) and isinstance(b, SegE):
            return same(a.v, b.v)
        if isinstance(a, SegS) and isinstance(b, SegS):
            return a.t.eq(b.t) and a.wrap == b.wrap
        if isinstance(a, SegG) and isinstance(b, SegG):
            return a.t.eq(b.t)
        return False

    # ------------------------------------------------------------------
    # boxing
    def box(self, st, v):
        if v is None:
            return smt.V_NONE
        if isinstance(v, bool):
            return smt.bb(z3.BoolVal(v))
        if isinstance(v, str):
            return smt.bs(sval(v))
        if isinstance(v, int):
            return smt.bi(z3.IntVal(v))
        if isinstance(v, SStr):
            return smt.bs(v.t)
        if isinstance(v, SInt):
            return smt.bi(v.t)
        if isinstance(v, SBool):
            return smt.bb(v.t)
        if isinstance(v, SVal):
            return v.t
        if v is self.OPT:
            return smt.V_OPT
        if v is self.REQ:
            return smt.V_REQ
        if isinstance(v, SUnion):
            t = self.box(st, v.alts[-1][1])
            for c, w in reversed(v.alts[:-1]):
                t = z3.If(c, self.box(st, w), t)
            return t
        if isinstance(v, STuple):
            if self.ext is not None:
                t = self.ext.box_tuple(v)
                if t is not None:
                    return t
            return smt.bl(vconcat(*[z3.Unit(self.box(st, x)) for x in v.items]))
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if isinstance(o, ListObj):
                t = smt.bl(self.seq_term(st, o.segs))
                st.frozen = st.frozen | {v.id}
                return t
            raise Unsupported("a %s taken as a value" % type(o).__name__)
        if isinstance(v, SExc):
            return smt.uf("box_exc", smt.Exc, smt.Val)(v.t)
        if isinstance(v, SDate):
            return smt.uf("box_date_" + v.k, v.t.sort(), smt.Val)(v.t)
        if isinstance(v, (Closure, Bound, VMethod, Iter, Poison, Super)):
            raise Unsupported("cannot box %r" % (v,))
        # host object
        return z3.Const("host!%s!%x" % (getattr(v, "__name__", type(v).__name__), id(v)), smt.Val)

    OPT = None
    REQ = None

    def seg_term(self, st, s):
        if isinstance(s, SegE):
            return z3.Unit(self.box(st, s.v))
        if isinstance(s, (SegS, SegG)):
            return s.t
        if isinstance(s, SegC):
            return z3.If(s.c, self.seq_term(st, s.a), self.seq_term(st, s.b))
        raise Unsupported("segment")

    def seq_term(self, st, segs):
        return vconcat(*[self.seg_term(st, s) for s in segs])

    def unbox(self, t, wrap, prov="imm"):
        if z3.is_app(t) and t.decl().name() == "box_str":
            return mkstr(t.arg(0))
        if self.ext is not None and (wrap[0] if isinstance(wrap, tuple) else wrap) in self.ext.tags:
            return self.ext.unbox(t, wrap)
        if wrap == "str":
            return mkstr(z3.simplify(smt.sv(t)) if False else smt.sv(t))
        if wrap in ("node", "mark", "json", "val"):
            return SVal(t, wrap, prov)
        if isinstance(wrap, tuple):  # ("node", type names)
            return SVal(t, wrap[0], prov, wrap[1])
        raise Unsupported("wrap %r" % (wrap,))

    def wrap_of(self, segs):
        ws = set()
        for s in segs:
            if isinstance(s, SegE):
                if is_strlike(s.v):
                    ws.add("str")
                elif isinstance(s.v, SVal):
                    ws.add((s.v.tag, tuple(s.v.ann)) if s.v.ann and s.v.tag in ("node", "mark") else s.v.tag)
                elif self.ext is not None and isinstance(s.v, STuple) and self.ext.box_tuple(s.v) is not None:
                    ws.add("member")
                else:
                    ws.add("val")
            elif isinstance(s, (SegS, SegG)):
                ws.add(s.wrap)
            elif isinstance(s, SegC):
                for part in (s.a, s.b):
                    if part:
                        ws.add(self.wrap_of(part))
        ws.discard(None)
        if not ws:
            return None
        if len(ws) == 1:
            return ws.pop()
        return "val"

    # ------------------------------------------------------------------
    # heap helpers
    def alloc(self, st, rec):
        i = self.number(self.hctr)
        st.heap[i] = rec
        return Ref(i)

    def number(self, counter):
        """a new number; the same one when a path prefix is executed again (its saved
        outcomes mention the numbers given the first time)"""
        if not self.ctx:
            return next(counter)
        ctx = self.ctx[-1]
        key = ("n", id(counter), tuple(ctx.taken))
        cnt = ctx.__dict__.setdefault("cnt", {})
        i = cnt.get(key, 0)
        cnt[key] = i + 1
        if (key, i) not in ctx.memo:
            ctx.memo[(key, i)] = next(counter)
        return ctx.memo[(key, i)]

    def new_list(self, st, segs=()):
        return self.alloc(st, ListObj(segs, True))

    def write(self, st, ref, rec):
        old = st.heap[ref.id]
        if not getattr(old, "fresh", True):
            self.bm.note(st, ("frame", "write to a %s that existed before the call" % type(old).__name__, str(ref.id)))
        if ref.id in st.frozen:
            raise Unsupported("a list known under several names is changed")
        st.heap[ref.id] = rec

    def dict_lookup(self, d, key):
        for g in d.entries:
            if isinstance(g, GenKey):
                g.lits.add(key)
        if key in d.entries:
            return d.entries[key]
        if d.base is not None and isinstance(key, str):
            p = smt.has(d.base.t, sval(key))
            prov = d.iprov
            return p, SVal(smt.get(d.base.t, sval(key)), "json", prov)
        return False, None

    # ------------------------------------------------------------------
    # exceptions
    def mkexc(self, st, cls, *args):
        name = smt.register_exc_class(cls)
        try:
            seq = vconcat(*[z3.Unit(self.box(st, a)) for a in args])
        except Unsupported:
            seq = smt.E_
        return SExc(smt.mk_exc(sval(name), seq), cls, args)

    def throw(self, st, cls, *args):
        raise PyExc(self.mkexc(st, cls, *args))

    # ------------------------------------------------------------------
    # resolving unions
    def resolve(self, st, v):
        while isinstance(v, SUnion):
            for i, (c, w) in enumerate(v.alts):
                if i == len(v.alts) - 1:
                    if not self.feasible(st, c):
                        raise Infeasible()
                    if not any(p.eq(c) for p in st.pc):
                        st.pc.append(c)
                    v = w
                    break
                if self.branch(st, c):
                    v = w
                    break
        if isinstance(v, Poison):
            raise Unsupported("untracked value: " + v.why)
        if isinstance(v, SVal) and v.tag in ("json", "val"):
            pass
        return v

    def split_kinds(self, st, v, kinds):
        """fork a dynamic value on its kind; returns typed value"""
        assert isinstance(v, SVal)
        for k in kinds:
            if self.branch(st, smt.kind(v.t) == smt.K[k]):
                return self.typed(v, k)
        return v

    def typed(self, v, k):
        if k == "none":
            return None
        if k == "opt":
            return self.OPT
        if k == "req":
            return self.REQ
        if k == "bool":
            return SBool(smt.bv(v.t))
        if k == "int":
            return SInt(smt.iv(v.t))
        if k == "str":
            return mkstr(smt.sv(v.t))
        return v

    def truth(self, st, v):
        if isinstance(v, SUnion):
            return bor(*[band(c, self._tb(st, w)) for c, w in v.alts])
        return self._tb(st, v)

    def _tb(self, st, v):
        r = self._truth(st, v)
        return z3.BoolVal(r) if isinstance(r, bool) else r

    def _truth(self, st, v):
        if isinstance(v, Poison):
            raise Unsupported("untracked value")
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SStr):
            return v.t != smt.ES
        if isinstance(v, SInt):
            return v.t != 0
        if isinstance(v, SVal):
            if v.tag in ("node", "mark"):
                return True
            return smt.truthy(v.t)
        if isinstance(v, SUnion):
            return self.truth(st, v)
        if isinstance(v, STuple):
            return len(v.items) > 0
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if isinstance(o, ListObj):
                if all(isinstance(s, SegE) for s in o.segs):
                    return len(o.segs) > 0
                return z3.Length(self.seq_term(st, o.segs)) > 0
            if isinstance(o, DictObj):
                if o.base is None:
                    return bor(*[p for p, _ in o.entries.values()])
                raise Unsupported("truth of open dict")
            return True
        if isinstance(v, Iter) and v.once is None:
            if v.kind in ("set", "segs") and all(isinstance(s, (SegE, SegC)) for s in v.args[0]):
                return self.seg_truth(v.args[0])
            raise Unsupported("truth of a view or set")
        if isinstance(v, Sym):
            return True
        return bool(v)

    def seg_truth(self, segs):
        return bor(*[
            True if isinstance(s, SegE) else
            bor(band(s.c, self.seg_truth(s.a)), band(bnot(s.c), self.seg_truth(s.b))) if isinstance(s, SegC) else
            z3.Length(s.t) > 0
            for s in segs
        ])

    # ------------------------------------------------------------------
    # equality
    def eq(self, st, a, b):
        """z3 Bool or bool for a == b"""
        if isinstance(a, SUnion):
            return bor(*[band(c, self._eb(st, w, b)) for c, w in a.alts])
        if isinstance(b, SUnion):
            return bor(*[band(c, self._eb(st, a, w)) for c, w in b.alts])
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("untracked value compared")
        if is_strlike(a) and is_strlike(b):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            for x, y in ((a, b), (b, a)):
                if isinstance(x, GenKey) and isinstance(y, str):
                    x.lits.add(y)
                    return False
            return st_(a) == st_(b)
        if is_boollike(a) and is_boollike(b):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            return bt_(a) == bt_(b)
        if is_intlike(a) and is_intlike(b):
            if isinstance(a, int) and isinstance(b, int):
                return a == b
            return it_(a) == it_(b)
        for x, y in ((a, b), (b, a)):
            if is_boollike(x) and is_intlike(y):
                return self.eq(st, mkint(z3.If(bt_(x), z3.IntVal(1), z3.IntVal(0))) if isinstance(x, SBool) else int(x), y)
        if isinstance(a, SVal) and isinstance(b, SVal):
            return a.t == b.t
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SVal):
                if x.tag in ("node", "mark"):
                    if not isinstance(y, Sym):
                        return False
                if isinstance(y, (str, SStr)):
                    return z3.And(smt.kind(x.t) == smt.K["str"], smt.sv(x.t) == st_(y))
                if is_boollike(y):
                    return z3.And(smt.kind(x.t) == smt.K["bool"], smt.bv(x.t) == bt_(y))
                if is_intlike(y):
                    return z3.And(smt.kind(x.t) == smt.K["int"], smt.iv(x.t) == it_(y))
                if y is None or y is self.OPT or y is self.REQ:
                    return smt.kind(x.t) == smt.K["none" if y is None else "opt" if y is self.OPT else "req"]
                fr = st.frozen
                r = x.t == self.box(st, y)
                st.frozen = fr
                return r
        if isinstance(a, STuple) and isinstance(b, STuple):
            if len(a.items) != len(b.items):
                return False
            return band(*[self._eb(st, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id:
                return True
            oa, ob = st.heap[a.id], st.heap[b.id]
            if isinstance(oa, ListObj) and isinstance(ob, ListObj):
                return self.seq_term(st, oa.segs) == self.seq_term(st, ob.segs)
            raise Unsupported("equality of heap objects")
        if isinstance(a, Ref) and isinstance(b, list):
            b, a = a, b
        if isinstance(a, list) and isinstance(b, Ref):
            ob = st.heap[b.id]
            if isinstance(ob, ListObj):
                return vconcat(*[z3.Unit(self.box(st, x)) for x in a]) == self.seq_term(st, ob.segs)
            return False
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, SReal) or isinstance(b, SReal):
                ra = a.t if isinstance(a, SReal) else z3.ToReal(it_(a)) if is_intlike(a) else None
                rb = b.t if isinstance(b, SReal) else z3.ToReal(it_(b)) if is_intlike(b) else None
                if ra is not None and rb is not None:
                    return ra == rb
            if isinstance(a, SDate) and isinstance(b, SDate) and a.k == b.k:
                return a.t == b.t
            # different kinds of value are never equal
            return False
        return a == b

    def _eb(self, st, a, b):
        r = self.eq(st, a, b)
        return z3.BoolVal(r) if isinstance(r, bool) else r

    def is_(self, st, a, b):
        if isinstance(a, SUnion):
            return bor(*[band(c, self._ib(st, w, b)) for c, w in a.alts])
        if isinstance(b, SUnion):
            return self.is_(st, b, a)
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("untracked value compared")
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SVal) and not isinstance(y, SVal):
                if y is None or y is self.OPT or y is self.REQ:
                    if x.tag in ("node", "mark"):
                        return False
                    return smt.kind(x.t) == smt.K["none" if y is None else "opt" if y is self.OPT else "req"]
                if isinstance(y, bool):
                    return z3.And(smt.kind(x.t) == smt.K["bool"], smt.bv(x.t) == y)
        if isinstance(a, SVal) and isinstance(b, SVal):
            if not a.t.eq(b.t) and not (a.tag == b.tag and a.tag in ("node", "mark")):
                raise Unsupported("identity of symbolic values")
            return a.t == b.t
        if is_boollike(a) and is_boollike(b):
            return self.eq(st, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.id == b.id
        if isinstance(a, Sym) or isinstance(b, Sym):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, ExcType) and y is not None:
                    raise Unsupported("identity of an exception class")
                if isinstance(x, ExtObj) or self.ext is not None and isinstance(x, (Ref, SStr)):
                    if not isinstance(y, Sym):
                        return False
                if not isinstance(y, Sym) and (y is None or y is self.OPT or y is self.REQ or isinstance(y, (bool, type, enum.Enum))):
                    return False
            if isinstance(a, SExc) and isinstance(b, SExc):
                return a.t == b.t
            if any(type(y) is object for y in (a, b)):
                return False  # a marker made by object() is no other value
            raise Unsupported("identity of symbolic values")
        return a is b

    def _ib(self, st, a, b):
        r = self.is_(st, a, b)
        return z3.BoolVal(r) if isinstance(r, bool) else r

    # ------------------------------------------------------------------
    # names
    def lookup(self, st, fid, glob, name):
        f = fid
        while f is not None:
            fr = st.frames[f]
            if name in fr:
                v = fr[name]
                if isinstance(v, Poison):
                    raise Unsupported("untracked name %s (%s)" % (name, v.why))
                return v
            f = fr.get("$parent")
        if name in glob:
            return self.host_global(st, glob, name)
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.throw(st, NameError, name)

    def host_global(self, st, glob, name):
        mod = glob.get("__name__", "")
        key = (mod, name)
        if key in st.glob:
            return st.glob[key]
        v = glob[name]
        if in_pkg(mod) and not mod.startswith("dv."):
            if isinstance(v, (dict, list, set)) and self.is_mutated_global(mod, name):
                if self.is_rebound_global(mod, name):
                    raise Unsupported("module variable %s.%s is rebound at run time" % key)
                return self.bm.shared_object(self, st, v, key)
            if mod == "atlas_doc_parser.settings" and isinstance(v, bool):
                return self.setting(name)
            if (v is None or isinstance(v, (bool, int, float, str, bytes, tuple, frozenset, dict, list, set))) and self.is_rebound_global(mod, name):
                raise Unsupported("module variable %s.%s is rebound at run time" % key)
        return self.still(v, "%s.%s" % key)

    def still(self, v, what):
        """a host value read from a module, class, closure or default argument must be one
        whose state cannot change"""
        if self.ext is None and not isinstance(v, (list, dict, set)) and not self.bm.inert(v):
            raise Unsupported("%s is an object of class %s whose state may change" % (what, type(v).__name__))
        return v

    def setting(self, name):
        if name in self.cfg.get("settings", {}):
            return self.cfg["settings"][name]
        return SBool(z3.Bool("setting." + name))

    _mutated = None

    def scan_globals(self):
        if Interp._mutated is not None:
            return
        Interp._mutated, Interp._rebound, Interp._assigned = set(), set(), set()
        import sys, os

        pkg = sys.modules["atlas_doc_parser"]
        root = os.path.dirname(pkg.__file__)
        for dp, dn, fn in os.walk(root):
            if "tests" in dp.split(os.sep):
                continue
            for f in fn:
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, os.path.dirname(root))[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[: -len(".__init__")]
                try:
                    tree = ast.parse(open(p, encoding="utf-8").read())
                except SyntaxError:
                    continue
                for fnode in ast.walk(tree):
                    if not isinstance(fnode, (ast.FunctionDef, ast.Lambda)):
                        continue
                    for n in ast.walk(fnode):
                        obj = None
                        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                            obj = n.value
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in self.bm.MUTATORS:
                            obj = n.func.value
                        if isinstance(n, ast.AugAssign):
                            obj = n.target
                        if isinstance(obj, ast.Name):
                            Interp._mutated.add(obj.id)
                        if isinstance(obj, ast.Attribute):
                            Interp._mutated.add(obj.attr)
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and not (isinstance(n.value, ast.Name) and n.value.id == "self"):
                            Interp._assigned.add(n.attr)
                        if isinstance(n, ast.Global):
                            for x in n.names:
                                Interp._rebound.add((rel, x))

    def is_mutated_global(self, mod, name):
        self.scan_globals()
        return name in Interp._mutated

    def is_rebound_global(self, mod, name):
        self.scan_globals()
        return (mod, name) in Interp._rebound or name in Interp._assigned

    # ------------------------------------------------------------------
    # attribute access
    def getattr_(self, st, v, name, default=None, hasdefault=False):
        v = self.resolve(st, v)
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if isinstance(o, Inst):
                return self.inst_attr(st, v, o, name, default, hasdefault)
            if isinstance(o, ListObj):
                if hasattr(list, name):
                    return VMethod(name, v)
            if isinstance(o, (DictObj, MapObj)):
                if hasattr(dict, name):
                    return VMethod(name, v)
            if hasdefault:
                return default
            self.throw(st, AttributeError, name)
        if isinstance(v, GlobalRef):
            if hasattr(type(v.host), name):
                return VMethod(name, v)
        if isinstance(v, SVal):
            return self.val_attr(st, v, name, default, hasdefault)
        if isinstance(v, Super):
            return self.super_attr(st, v, name)
        if isinstance(v, SStr):
            if hasattr(str, name):
                return VMethod(name, v)
            if hasdefault:
                return default
            self.throw(st, AttributeError, name)
        if isinstance(v, (SInt, SBool, SReal, STuple)):
            ty = {SInt: int, SBool: bool, SReal: float, STuple: tuple}[type(v)]
            if name == "__class__":
                return ty
            if name in ("real", "imag", "numerator", "denominator", "__doc__"):
                raise Unsupported("attribute %s of a number" % name)
            if hasattr(ty, name):
                return VMethod(name, v)
            if hasdefault:
                return default
            self.throw(st, AttributeError, name)
        if isinstance(v, SDate):
            return VMethod(name, v)
        if isinstance(v, SExc):
            return self.exc_attr(st, v, name)
        if isinstance(v, Iter) and v.kind in ("set", "jsonitems") and name in SET_METHODS:
            return VMethod(name, v)
        if isinstance(v, Bound) and name in ("__self__", "__func__"):
            return v.self_ if name == "__self__" else v.fn
        if isinstance(v, ExtObj):
            r = v.attr(self, st, name)
            if r is not None:
                return r
            raise Unsupported("attribute %s of %s" % (name, v.what))
        if isinstance(v, Sym):
            raise Unsupported("attribute %s of %r" % (name, v))
        # host object
        if isinstance(v, types.ModuleType):
            g = vars(v)
            if name in g:
                return self.host_global(st, g, name)
            try:
                return getattr(v, name)
            except AttributeError:
                if hasdefault:
                    return default
                self.throw(st, AttributeError, name)
        try:
            r = getattr(v, name)
        except AttributeError:
            if hasdefault:
                return default
            self.throw(st, AttributeError, name)
        if isinstance(v, (str, list, dict, tuple, frozenset)) and callable(r):
            return VMethod(name, v)
        if isinstance(v, (list, dict, set)):
            return r
        if isinstance(r, (dict, list, set)) and isinstance(v, type) and in_pkg(getattr(v, "__module__", "")):
            if name in ("__annotations__", "__dataclass_fields__", "__dict__"):
                return r
            if isinstance(r, list) and not self.is_mutated_global("", name):
                return r
            return self.bm.shared_object(self, st, r, (v.__module__ + "." + v.__qualname__, name))
        if isinstance(v, (type, types.FunctionType)) and in_pkg(getattr(v, "__module__", "") or "") and (
            self.is_rebound_global("", name) or isinstance(v, types.FunctionType) and name in vars(v) and name != "__wrapped__"
        ):
            raise Unsupported("state kept in an attribute of %s" % v.__name__)
        return self.still(r, "%s.%s" % (getattr(v, "__name__", type(v).__name__), name))

    def exc_attr(self, st, v, name):
        if v.cls is not None and name == "args":
            return STuple(v.args)
        if name == "__class__" and v.cls is not None:
            return v.cls
        return SVal(smt.uf("exc_attr_" + name, smt.Exc, smt.Val)(v.t), "val")

    def find_in_mro(self, cls, name, after=None):
        mro = cls.__mro__
        i = 0
        if after is not None:
            i = mro.index(after) + 1
        for c in mro[i:]:
            if name in c.__dict__:
                return c, c.__dict__[name]
        return None, None

    def bind_member(self, st, recv, cls, defcls, m, name):
        if isinstance(m, staticmethod):
            return m.__func__
        if isinstance(m, classmethod):
            return Bound(m.__func__, cls, defcls)
        if isinstance(m, property):
            return self.call(st, Bound(m.fget, recv, defcls), [], {})
        if isinstance(m, (types.FunctionType, functools._lru_cache_wrapper)):
            return Bound(m, recv, defcls)
        if hasattr(m, "__wrapped__") or hasattr(type(m), "__get__"):
            raise Unsupported("descriptor %s on %s" % (name, cls.__name__))
        return m

    def inst_attr(self, st, ref, o, name, default, hasdefault):
        if name in o.fields:
            return o.fields[name]
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            raise Unsupported("__dict__")
        c, m = self.find_in_mro(o.cls, name)
        if c is None:
            if hasdefault:
                return default
            self.throw(st, AttributeError, name)
        return self.bind_member(st, ref, o.cls, c, m, name)

    def super_attr(self, st, v, name):
        c, m = self.find_in_mro(v.rcls, name, after=v.cls)
        if c is None:
            self.throw(st, AttributeError, name)
        if c is object and name == "__init__":
            return lambda *a, **k: None
        if isinstance(m, classmethod):
            rc = v.recv if isinstance(v.recv, type) else v.rcls
            return Bound(m.__func__, rc, c)
        if isinstance(m, types.FunctionType):
            return Bound(m, v.recv, c)
        if issubclass(v.rcls, BaseException) and name == "__init__":
            return VMethod("exc_init", v.recv)
        return m

    # virtual nodes / marks -------------------------------------------------
    world = None  # wf.World

    ext = None  # further contracts of one task (dv/gencode.py)

    def val_attr(self, st, v, name, default, hasdefault):
        if self.ext is not None and v.tag in self.ext.tags:
            return self.ext.attr(self, st, v, name, default, hasdefault)
        if v.tag in ("node", "mark"):
            return self.world.virtual_attr(self, st, v, name, default, hasdefault)
        if v.tag == "enum":
            if name in ("value", "_value_", "name", "_name_"):
                return mkstr(smt.uf("enum_" + name.strip("_"), smt.Val, smt.S)(v.t))
            raise Unsupported("enum attribute %s" % name)
        # JSON / dynamic
        k = self.kind_fork(st, v)
        if not isinstance(k, SVal):
            return self.getattr_(st, k, name, default, hasdefault)
        if self.branch(st, smt.kind(v.t) == smt.K["list"]):
            if hasattr(list, name):
                return VMethod(name, SVal(v.t, "jsonlist", v.prov))
        elif self.branch(st, smt.kind(v.t) == smt.K["dict"]):
            if hasattr(dict, name):
                return VMethod(name, SVal(v.t, "jsondict", v.prov))
        elif v.tag == "val":
            raise Unsupported("attribute of a dynamic value")
        if hasdefault:
            return default
        self.throw(st, AttributeError, name)

    def kind_fork(self, st, v):
        """give a dynamic value a concrete Python kind (fork)"""
        return self.split_kinds(st, v, ["str", "none", "opt", "int", "bool"])

    # ------------------------------------------------------------------
    # calls
    def call(self, st, f, args, kwargs):
        f = self.resolve(st, f)
        if isinstance(f, Bound):
            return self.call_function(st, f.fn, [f.self_] + list(args), kwargs, f.defcls)
        if isinstance(f, Closure):
            return self.call_closure(st, f, args, kwargs)
        if isinstance(f, VMethod):
            return self.bm.call_method(self, st, f, args, kwargs)
        if isinstance(f, Native):
            return f.fn(self, st, args, kwargs)
        if self.ext is not None and not isinstance(f, Sym):
            r = self.ext.call(self, st, f, args, kwargs)
            if r is not NotImplemented:
                return r
        if isinstance(f, Sym):
            if isinstance(f, SVal):
                k = self.kind_fork(st, f)
                self.throw(st, TypeError, "not callable")
            raise Unsupported("call of %r" % (f,))
        if isinstance(f, functools._lru_cache_wrapper) and in_pkg(f.__module__):
            return self.call_cached(st, f, args, kwargs)
        if isinstance(f, types.MethodType) and isinstance(f.__func__, (types.FunctionType, functools._lru_cache_wrapper)) and in_pkg(f.__func__.__module__):
            rc = f.__self__
            c = None
            if isinstance(rc, type):
                c, _ = self.find_in_mro(rc, f.__func__.__name__)
            return self.call_function(st, f.__func__, [rc] + list(args), kwargs, c)
        if isinstance(f, types.FunctionType) and f in self.models:
            self.contracts_used.add(f.__qualname__)
            return self.models[f](self, st, args, kwargs)
        m = self.bm.lookup(f)
        if m is not None:
            self.external_used.add(self.bm.name_of(f))
            return m(self, st, args, kwargs)
        if isinstance(f, types.FunctionType):
            if in_pkg(f.__module__):
                return self.call_function(st, f, args, kwargs, None)
        if isinstance(f, type):
            return self.construct(st, f, args, kwargs)
        if isinstance(f, types.MethodDescriptorType) and f.__objclass__ in (str, list, dict) and args:
            v = self.resolve(st, args[0])
            if isinstance(v, SVal):
                v = self.kind_fork(st, v)
            r = self.bm.isinst(self, st, v, f.__objclass__)
            if r is False:
                self.throw(st, TypeError, "descriptor")
            if r is True:
                return self.bm.call_method(self, st, VMethod(f.__name__, v), args[1:], kwargs)
        if isinstance(f, types.BuiltinMethodType) and isinstance(f.__self__, re.Pattern) and f.__name__ == "sub" and not kwargs and len(args) == 2:
            return self.bm.re_sub(self, st, f.__self__, args[0], self.bm.as_str(self, st, args[1]))
        # pure host function on concrete arguments
        r = self.bm.host_call(self, st, f, args, kwargs)
        if r is not NotImplemented:
            return r
        raise Unsupported("call of external %r" % (f,))

    def construct(self, st, cls, args, kwargs):
        if issubclass(cls, BaseException):
            if kwargs:
                args = self.exc_args(st, cls, args, kwargs)
            return self.mkexc(st, cls, *args)
        if issubclass(cls, enum.Enum):
            return self.bm.enum_lookup(self, st, cls, args, kwargs)
        if dataclasses.is_dataclass(cls) and in_pkg(cls.__module__):
            return self.construct_dataclass(st, cls, args, kwargs)
        if in_pkg(cls.__module__) and isinstance(cls.__dict__.get("__init__"), types.FunctionType):
            ref = self.alloc(st, Inst(cls, {}, True))
            self.call_function(st, cls.__dict__["__init__"], [ref] + list(args), kwargs, cls)
            return ref
        r = self.bm.host_call(self, st, cls, args, kwargs)
        if r is not NotImplemented:
            return r
        raise Unsupported("constructor %r" % cls)

    def exc_args(self, st, cls, args, kwargs):
        """keyword arguments of an exception of the package, in the order it declares them"""
        c, m = self.find_in_mro(cls, "__init__")
        if not isinstance(m, types.FunctionType):
            self.throw(st, TypeError, "%s() takes no keyword arguments" % cls.__name__)
        try:
            b = inspect.signature(m).bind(None, *args, **kwargs)
        except TypeError as e:
            self.throw(st, TypeError, str(e))
        if b.kwargs:
            raise Unsupported("keyword-only exception arguments")
        return list(b.args[1:])

    def construct_dataclass(self, st, cls, args, kwargs):
        ini = cls.__init__
        if not getattr(ini, "__qualname__", "").endswith("__init__") or ini.__code__.co_filename != "<string>":
            raise Unsupported("custom __init__ on %s" % cls.__name__)
        if cls.__new__ is not object.__new__:
            raise Unsupported("custom __new__")
        flds = [f for f in dataclasses.fields(cls) if f.init]
        vals = {}
        if len(args) > len(flds):
            self.throw(st, TypeError, "too many positional arguments")
        for f, a in zip(flds, args):
            vals[f.name] = (True, a)
        for k, v in kwargs.items():
            p = True
            if isinstance(v, Maybe):
                p, v = v.p, v.v
            if k not in [f.name for f in flds] or k in vals:
                if p is True or self.branch(st, p):
                    self.throw(st, TypeError, "unexpected keyword argument")
                continue
            vals[k] = (p, v)
        fields = {}
        for f in dataclasses.fields(cls):
            p, v = vals.get(f.name, (False, None))
            if p is not True:
                if f.default is not dataclasses.MISSING:
                    d = f.default
                elif f.default_factory is not dataclasses.MISSING:
                    d = ("$factory", f)
                else:
                    d = ("$missing", f)
                if isinstance(d, tuple):
                    if p is False or not self.branch(st, p):
                        if d[0] == "$missing":
                            self.throw(st, TypeError, "missing required argument")
                        v = self.call(st, f.default_factory, [], {})
                elif p is False:
                    v = d
                else:
                    v = self.merge_values(p, v, d)
            fields[f.name] = v
        ref = self.alloc(st, Inst(cls, fields, True))
        c, m = self.find_in_mro(cls, "__post_init__")
        if c is not None:
            self.call_function(st, m, [ref], {}, c)
        # the instance is now published (frozen)
        return ref

    models = {}
    obligations = ()

    memo_tables = {}

    def call_cached(self, st, w, args, kwargs):
        """functools.lru_cache: a dictionary, kept in the wrapper, from arguments to results"""
        if w in self.models:
            self.contracts_used.add(w.__qualname__)
            return self.models[w](self, st, args, kwargs)
        fn = w.__wrapped__
        if kwargs or not in_pkg(fn.__module__):
            raise Unsupported("call of cached function %s" % fn.__qualname__)
        key = args[0] if len(args) == 1 else tuple(args)
        if isinstance(key, Sym) or any(isinstance(x, Sym) for x in args):
            raise Unsupported("arguments of cached function %s" % fn.__qualname__)
        table = GlobalRef(self.memo_tables.setdefault(w, {}), ("cache of " + fn.__module__, fn.__qualname__))
        return self.call_function(st, memo.call, [table, fn, tuple(args), key], {}, None)

    def call_function(self, st, fn, args, kwargs, defcls):
        if isinstance(fn, functools._lru_cache_wrapper):
            return self.call_cached(st, fn, args, kwargs)
        if isinstance(fn, types.FunctionType) and fn in self.models:
            self.contracts_used.add(fn.__qualname__)
            return self.models[fn](self, st, args, kwargs)
        if not isinstance(fn, types.FunctionType):
            m = self.bm.lookup(fn)
            if m is not None:
                self.external_used.add(self.bm.name_of(fn))
                return m(self, st, args, kwargs)
            raise Unsupported("call of %r" % (fn,))
        m = self.bm.lookup(fn)
        if m is not None and self.side_contract(fn):
            self.contracts_used.add(self.bm.name_of(fn))
            return m(self, st, args, kwargs)
        if fn in self.substitute and self.side == "code":
            spec = self.substitute[fn]
            self.contracts_used.add(fn.__qualname__)
            fn = spec
        if not in_pkg(fn.__module__):
            r = self.bm.host_call(self, st, fn, args, kwargs)
            if r is not NotImplemented:
                return r
            raise Unsupported("external function %s.%s" % (fn.__module__, fn.__qualname__))
        cells = {}
        if fn.__closure__ and fn.__code__ is not CONTEXT_HELPER:
            for nm, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                v = cell.cell_contents
                if nm == "__class__":
                    if defcls is None:
                        defcls = v
                    continue
                kept = isinstance(v, (dict, set)) or isinstance(v, list) and self.is_mutated_global("", nm)
                cells[nm] = self.bm.shared_object(self, st, v, ("closure of " + fn.__qualname__, nm)) if kept else self.still(v, "closure of " + fn.__qualname__)
        if fn.__code__ is CONTEXT_HELPER:
            w = fn.__wrapped__
            if not in_pkg(w.__module__) or w.__closure__:
                raise Unsupported("context manager %s" % fn.__qualname__)
            self.inlined.add(w.__module__ + ":" + w.__qualname__)
            r = self.run_body(st, find_ast(w), w.__globals__, args, kwargs, w.__defaults__ or (), w.__kwdefaults__ or {}, None, w.__name__, None)
            if not (isinstance(r, Iter) and r.kind == "genfn"):
                raise Unsupported("context manager %s" % fn.__qualname__)
            c = Iter("ctxgen", *r.args)
            c.once = r.once
            return c
        # fn is the object that the name is bound to: whatever decorators there are have been applied
        node = find_ast(fn)
        parent = None
        if cells:
            if any(isinstance(n, ast.Nonlocal) for n in ast.walk(node)):
                raise Unsupported("nonlocal in %s" % fn.__qualname__)
            parent = next(self.fctr)
            st.frames[parent] = dict(cells, **{"$captured": True})
        if not fn.__module__.startswith("dv."):
            self.inlined.add(fn.__module__ + ":" + fn.__qualname__)
        return self.run_body(
            st, node, fn.__globals__, args, kwargs, fn.__defaults__ or (), fn.__kwdefaults__ or {}, defcls, fn.__name__, parent
        )

    def side_contract(self, fn):
        return True

    def call_closure(self, st, c, args, kwargs):
        return self.run_body(st, c.node, c.glob, args, kwargs, c.defaults, c.kwdefaults, c.defcls, c.name, c.fid)

    def run_body(self, st, node, glob, args, kwargs, defaults, kwdefaults, defcls, name, parent):
        if self.depth > MAX_DEPTH:
            raise Unsupported("recursion too deep in %s" % name)

        def thunk(s):
            self.depth += 1
            try:
                outs = []
                fid = next(self.fctr)
                fr = {}
                if parent is not None:
                    fr["$parent"] = parent
                s.frames[fid] = fr
                try:
                    self.bind_args(s, fr, node.args, args, kwargs, defaults, kwdefaults, name)
                except PyExc as e:
                    return [Out("raise", s, e.exc)]
                fr["$glob"] = glob
                fr["$defcls"] = defcls
                fr["$first"] = args[0] if args else None
                if isinstance(node, ast.Lambda):
                    os = self.explore(s, lambda s2: self.ev(s2, fid, node.body))
                    outs = [Out("ok" if o.kind == "ok" else o.kind, o.st, o.val) for o in os]
                else:
                    if is_generator(node):
                        fr["$captured"] = True
                        return [Out("ok", s, self.one_shot(s, Iter("genfn", node, fid)))]
                    for o in self.exec_block(node.body, s, fid):
                        if o.kind == "next":
                            outs.append(Out("ok", o.st, None))
                        elif o.kind == "return":
                            outs.append(Out("ok", o.st, o.val))
                        elif o.kind == "raise":
                            outs.append(o)
                        else:
                            raise Unsupported("break outside loop")
                for o in outs:
                    if not o.st.frames[fid].get("$captured"):
                        o.st.frames.pop(fid, None)
                return self.merge_outs(outs)
            finally:
                self.depth -= 1

        return self.choose_outcome(st, thunk)

    def run_generator(self, s, gfid, node, sink):
        """body of a generator function; every yield hands its value to the consumer `sink`.
        How the consumer leaves (break, return, raise) ends the generator without being
        visible to its handlers: these outcomes travel as 'gs:<kind>'."""

        def hook(s2, v):
            return [
                Out("next", p.st) if p.kind in ("next", "continue") else Out("gs:" + p.kind, p.st, p.val) for p in sink(s2, v)
            ]

        self.sinks.append((gfid, hook))
        try:
            outs = []
            for o in self.exec_block(node.body, s, gfid):
                if o.kind.startswith("gs:"):
                    outs.append(Out(o.kind[3:], o.st, o.val))
                elif o.kind in ("next", "return"):
                    outs.append(Out("next", o.st))
                elif o.kind == "raise":
                    outs.append(o)
                else:
                    raise Unsupported("break outside loop")
        finally:
            self.sinks.pop()
        return self.merge_outs_soft(outs)

    def sink_of(self, fid):
        for f, hook in reversed(self.sinks):
            if f == fid:
                return hook
        raise Unsupported("yield outside an iteration")

    def x_Yield(self, s, st, fid):
        e = s.value
        outs = []
        hook = self.sink_of(fid)
        if e.value is None:
            vals = [Out("ok", st, None)]
        else:
            vals = self.explore(st, lambda s2: self.ev(s2, fid, e.value))
        for o in vals:
            if o.kind == "raise":
                outs.append(o)
            elif isinstance(e, ast.YieldFrom):
                outs += self.iterate(o.st, fid, o.val, hook, "yield@%d" % s.lineno)
            else:
                outs += hook(o.st, o.val)
        return self.merge_outs_soft(outs)

    def bind_args(self, st, fr, a, args, kwargs, defaults, kwdefaults, name):
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kwargs)
        for i, p in enumerate(pos):
            if i < len(args):
                if p in kw:
                    self.throw(st, TypeError, "multiple values")
                fr[p] = args[i]
            elif p in kw:
                fr[p] = self.unmaybe(kw.pop(p))
            else:
                j = i - (len(pos) - len(defaults))
                if j >= 0:
                    fr[p] = self.default_value(st, defaults[j], name, p)
                else:
                    self.throw(st, TypeError, "missing argument %s" % p)
        if len(args) > len(pos):
            if a.vararg is None:
                self.throw(st, TypeError, "too many arguments")
            fr[a.vararg.arg] = STuple(args[len(pos):])
        elif a.vararg is not None:
            fr[a.vararg.arg] = STuple(())
        for p in [x.arg for x in a.kwonlyargs]:
            if p in kw:
                fr[p] = self.unmaybe(kw.pop(p))
            elif p in kwdefaults:
                fr[p] = self.default_value(st, kwdefaults[p], name, p)
            else:
                self.throw(st, TypeError, "missing keyword argument %s" % p)
        if a.kwarg is not None:
            ent = {}
            for k, v in kw.items():
                ent[k] = (v.p, v.v) if isinstance(v, Maybe) else (True, v)
            fr[a.kwarg.arg] = self.alloc(st, DictObj(ent, None, True))
        elif kw:
            self.throw(st, TypeError, "unexpected keyword arguments %s" % list(kw))

    def default_value(self, st, v, fname, p):
        if isinstance(v, (dict, set)) or isinstance(v, list) and self.is_mutated_global("", p):
            return self.bm.shared_object(self, st, v, ("default argument of " + fname, p))
        return self.still(v, "default argument of %s" % fname)

    def unmaybe(self, v):
        if isinstance(v, Maybe):
            raise Unsupported("optional keyword argument for a named parameter")
        return v

    # ------------------------------------------------------------------
    # statements
    def exec_block(self, stmts, st, fid):
        live = [st]
        done = []
        for s in stmts:
            nxt = []
            for cur in live:
                for o in self.exec_stmt(s, cur, fid):
                    if o.kind == "next":
                        nxt.append(o.st)
                    else:
                        done.append(o)
            if len(nxt) > 1:
                nxt = [o.st for o in self.merge_outs([Out("next", x) for x in nxt])]
            live = nxt
            if not live:
                break
            if len(live) > 64:
                raise Unsupported("too many paths")
        return done + [Out("next", s) for s in live]

    def simple(self, st, fn):
        return [Out("next" if o.kind == "ok" else o.kind, o.st, None if o.kind == "ok" else o.val) for o in self.explore(st, fn)]

    def exec_stmt(self, s, st, fid):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        return m(s, st, fid)

    def x_Pass(self, s, st, fid):
        return [Out("next", st)]

    def x_Expr(self, s, st, fid):
        if isinstance(s.value, ast.Constant):
            return [Out("next", st)]
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            return self.x_Yield(s, st, fid)
        return self.simple(st, lambda s2: self.ev(s2, fid, s.value))

    def x_Assign(self, s, st, fid):
        def f(s2):
            v = self.prune(s2, self.ev(s2, fid, s.value))
            for t in s.targets:
                self.assign(s2, fid, t, v)

        return self.simple(st, f)

    def x_AnnAssign(self, s, st, fid):
        if s.value is None:
            return [Out("next", st)]
        return self.simple(st, lambda s2: self.assign(s2, fid, s.target, self.ev(s2, fid, s.value)))

    def x_AugAssign(self, s, st, fid):
        def f(s2):
            t = s.target
            if isinstance(t, ast.Name):
                load = ast.Name(id=t.id, ctx=ast.Load())
            elif isinstance(t, ast.Subscript):
                load = ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
            elif isinstance(t, ast.Attribute):
                load = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
            else:
                raise Unsupported("augmented target")
            cur = self.resolve(s2, self.ev(s2, fid, load))
            v = self.ev(s2, fid, s.value)
            if isinstance(cur, Ref) and isinstance(s2.heap[cur.id], ListObj) and isinstance(s.op, ast.Add):
                self.bm.list_extend(self, s2, cur, v)
                self.assign(s2, fid, t, cur)
                return
            if isinstance(cur, SVal) and isinstance(s.op, ast.Add) and cur.tag not in ("node", "mark"):
                cur = self.kind_fork(s2, cur)
                if isinstance(cur, SVal) and (cur.tag != "json" or self.branch(s2, smt.kind(cur.t) == smt.K["list"])):
                    raise Unsupported("a list known by its contents is changed")
            if isinstance(cur, (GlobalRef, list, dict, set)):
                self.bm.note(s2, ("frame", "augmented assignment to a module-level object", ""))
                raise Unsupported("augmented assignment to shared object")
            self.assign(s2, fid, t, self.binop(s2, s.op, cur, v))

        return self.simple(st, f)

    def x_Return(self, s, st, fid):
        if s.value is None:
            return [Out("return", st, None)]
        return [
            Out("return" if o.kind == "ok" else o.kind, o.st, o.val)
            for o in self.explore(st, lambda s2: self.ev(s2, fid, s.value))
        ]

    def x_If(self, s, st, fid):
        outs = []
        for o in self.explore(st, lambda s2: self.truth(s2, self.ev(s2, fid, s.test))):
            if o.kind == "raise":
                outs.append(o)
                continue
            c = o.val
            if not isinstance(c, bool):
                c = z3.simplify(c)
                if z3.is_true(c):
                    c = True
                elif z3.is_false(c):
                    c = False
            if isinstance(c, bool):
                outs += self.exec_block(s.body if c else s.orelse, o.st, fid)
                continue
            for cc, blk in ((c, s.body), (bnot(c), s.orelse)):
                if any(p.eq(cc) for p in o.st.pc):
                    outs += self.exec_block(blk, o.st.copy(), fid)
                    continue
                if self.feasible(o.st, cc):
                    s2 = o.st.copy()
                    s2.pc.append(cc)
                    outs += self.exec_block(blk, s2, fid)
        return self.merge_outs_soft(outs)

    def merge_outs_soft(self, outs):
        """merge only 'next'/'continue'/'break'; leave returns and raises separate"""
        g = {}
        for o in outs:
            g.setdefault(o.kind, []).append(o)
        res = []
        for k, l in g.items():
            if k in ("next", "continue", "break") and len(l) > 1:
                res += self.merge_outs(l)
            else:
                res += l
        return res

    def x_Match(self, s, st, fid):
        # desugar simple value / or / wildcard patterns
        tmp = "$m%d" % id(s)

        def cond(p):
            if isinstance(p, ast.MatchValue):
                return ast.Compare(left=ast.Name(id=tmp, ctx=ast.Load()), ops=[ast.Eq()], comparators=[p.value])
            if isinstance(p, ast.MatchSingleton):
                return ast.Compare(left=ast.Name(id=tmp, ctx=ast.Load()), ops=[ast.Is()], comparators=[ast.Constant(p.value)])
            if isinstance(p, ast.MatchOr):
                return ast.BoolOp(op=ast.Or(), values=[cond(q) for q in p.patterns])
            if isinstance(p, ast.MatchAs) and p.pattern is None and p.name is None:
                return ast.Constant(True)
            raise Unsupported("match pattern")

        stmt = []
        for case in reversed(s.cases):
            c = cond(case.pattern)
            if case.guard is not None:
                c = ast.BoolOp(op=ast.And(), values=[c, case.guard])
            stmt = [ast.If(test=c, body=case.body, orelse=stmt)]
        blk = [ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())], value=s.subject)] + stmt
        return self.exec_block(blk, st, fid)

    def x_While(self, s, st, fid):
        # concrete unrolling when the condition is decided
        outs = []
        live = [st]
        for _ in range(40):
            nxt = []
            sym = []
            for cur in live:
                es = self.explore(cur, lambda s2: self.truth(s2, self.ev(s2, fid, s.test)))
                if len(es) != 1 or es[0].kind == "raise":
                    sym.append(cur)
                    continue
                c = es[0].val
                c = z3.simplify(c) if not isinstance(c, bool) else z3.BoolVal(c)
                if z3.is_false(c):
                    outs += self.exec_block(s.orelse, es[0].st, fid)
                elif z3.is_true(c) and not isinstance(s.test, ast.Constant):
                    for o in self.exec_block(s.body, es[0].st, fid):
                        if o.kind in ("next", "continue"):
                            nxt.append(o.st)
                        elif o.kind == "break":
                            outs.append(Out("next", o.st))
                        else:
                            outs.append(o)
                else:
                    sym.append(cur)
            for cur in sym:
                r = self.consuming_loop(s, cur, fid)
                outs += self.sym_while(s, cur, fid) if r is None else r
            live = nxt
            if not live:
                return self.merge_outs_soft(outs)
        raise Unsupported("while loop does not finish concretely")

    def consuming_loop(self, s, st, fid):
        """`while todo: x = todo.pop() ...`: when every iteration takes exactly one element off one end
        of a list, whatever the rest of that list is, and goes on exactly while the list has elements,
        the loop runs over the elements; None when that cannot be established"""
        names = {n.id for n in ast.walk(s.test) if isinstance(n, ast.Name)}
        for name in sorted(names):
            v = st.frames[fid].get(name)
            if not (isinstance(v, Ref) and isinstance(st.heap.get(v.id), ListObj)) or v.id in st.frozen:
                continue
            ends = set()
            for n in ast.walk(ast.Module(s.body, [])):
                if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.value, ast.Name) and n.value.id == name:
                    ends |= {"pop": {True, False}, "popleft": {False}}.get(getattr(n, "attr", "pop"), set())
            for end in sorted(ends, reverse=True):
                mark = len(self.term_obls)
                try:
                    return self.consume(s, st.copy(), fid, v, end)
                except (NoFit, Unsupported):
                    del self.term_obls[mark:]
        return None

    def consume(self, s, st, fid, v, end):
        segs = st.heap[v.id].segs
        fresh_ = st.heap[v.id].fresh
        w = self.wrap_of(segs) or "val"

        def test(s2):
            es = self.explore(s2, lambda s3: self.truth(s3, self.ev(s3, fid, s.test)))
            if len(es) != 1 or es[0].kind == "raise":
                raise NoFit()
            c = es[0].val
            return es[0].st, z3.simplify(c) if not isinstance(c, bool) else z3.BoolVal(c)

        def f(s2, x):
            before = s2.heap[v.id]
            rest = SegS(fresh("rest", smt.SeqV), w)
            s2.heap[v.id] = ListObj((rest, SegE(x)) if end else (SegE(x), rest), fresh_)
            s3, c = test(s2)
            if not z3.is_true(c):
                raise NoFit()
            outs = self.exec_block(s.body, s3, fid)
            for o in outs:
                if o.kind in ("next", "continue"):
                    now = o.st.heap[v.id].segs
                    if len(now) != 1 or now[0] is not rest:
                        raise NoFit()
                    o.st.heap[v.id] = before
            return outs

        outs = []
        for o in self.run_segs(st, self.bm.reverse_segs(self, st, segs) if end else segs, f, "while@%d" % s.lineno):
            if o.kind == "next":
                o.st.heap[v.id] = ListObj((), fresh_)
                s2, c = test(o.st)
                if not z3.is_false(c):
                    raise NoFit()
                outs += self.exec_block(s.orelse, s2, fid)
            elif o.kind == "break":
                outs.append(Out("next", o.st))
            else:
                outs.append(o)
        return outs

    def sym_while(self, s, st, fid):
        def step(s2):
            outs = []
            for o in self.explore(s2, lambda s3: self.truth(s3, self.ev(s3, fid, s.test))):
                if o.kind == "raise":
                    outs.append(o)
                    continue
                c = o.val
                c = z3.simplify(c) if not isinstance(c, bool) else z3.BoolVal(c)
                outs.append(("alive", c, o.st))
            return outs

        def body(s2):
            outs = []
            for o in step(s2):
                if isinstance(o, Out):
                    outs.append(o)
                    continue
                _, c, s3 = o
                if not z3.is_true(c):
                    if not self.feasible(s3, c):
                        continue
                    s3 = s3.copy()
                    s3.pc.append(c)
                outs += self.exec_block(s.body, s3, fid)
            return outs

        def alive(s2):
            a = []
            for o in step(s2):
                if isinstance(o, Out):
                    continue
                n = len(s2.pc)
                a.append(band(*(o[2].pc[n:] + [o[1]])))
            return bor(*a)

        outs = []
        for o in self.sym_loop(st, None, None, body, alive=alive, where="while@%d" % s.lineno):
            if o.kind == "next":
                outs += self.exec_block(s.orelse, o.st, fid)
            elif o.kind == "break":
                outs.append(Out("next", o.st))
            else:
                outs.append(o)
        return outs

    def rewriting(self, s, st, fid):
        """a loop over the elements of a list that replaces each element in its turn (`xs[i] = ...`):
        the same loop building a new list, which takes the place of the old one at the end"""
        if s not in _rewritten:
            _rewritten[s] = rewrite_elements(s)
        r = _rewritten[s]
        if r is None:
            return None
        name, block = r
        v = self.resolve(st, st.frames[fid].get(name))
        if not (isinstance(v, Ref) and isinstance(st.heap[v.id], ListObj)) or v.id in st.frozen or self.referenced(st, v.id, ("v", fid, name)):
            return None
        if any(isinstance(st.frames[fid].get(f), GlobalRef) for f in ("enumerate", "range", "len")):
            return None
        outs = self.exec_block(block, st, fid)
        for o in outs:
            fr = o.st.frames.get(fid)
            if o.kind in ("raise", "return") and fr is not None:
                fr[name] = Poison("list with only some elements replaced")
        return outs

    def x_For(self, s, st, fid):
        outs = self.rewriting(s, st, fid)
        if outs is not None:
            return outs
        outs = []
        for o in self.explore(st, lambda s2: self.ev(s2, fid, s.iter)):
            if o.kind == "raise":
                outs.append(o)
                continue

            def on_elem(s2, v):
                res = []
                for p in self.explore(s2, lambda s3: self.assign(s3, fid, s.target, v)):
                    if p.kind == "raise":
                        res.append(p)
                    else:
                        res += self.exec_block(s.body, p.st, fid)
                return res

            for p in self.iterate(o.st, fid, o.val, on_elem, "for@%d" % s.lineno):
                if p.kind == "next":
                    outs += self.exec_block(s.orelse, p.st, fid)
                elif p.kind == "break":
                    outs.append(Out("next", p.st))
                else:
                    outs.append(p)
        return self.merge_outs_soft(outs)

    def x_Break(self, s, st, fid):
        return [Out("break", st)]

    def x_Continue(self, s, st, fid):
        return [Out("continue", st)]

    def x_Try(self, s, st, fid):
        outs = []
        for o in self.exec_block(s.body, st, fid):
            if o.kind == "raise":
                outs += self.handle(s, o, fid)
            elif o.kind == "next" and s.orelse:
                outs += self.exec_block(s.orelse, o.st, fid)
            else:
                outs.append(o)
        outs = self.merge_outs_soft(outs)
        if s.finalbody:
            res = []
            for o in outs:
                for p in self.exec_block(s.finalbody, o.st, fid):
                    if p.kind == "next":
                        res.append(Out(o.kind, p.st, o.val))
                    else:
                        res.append(p)
            outs = self.merge_outs_soft(res)
        return outs

    def handle(self, s, o, fid):
        outs = []
        cur = [o]
        for h in s.handlers:
            rest = []
            for o1 in cur:
                if h.type is None:
                    conds = [Out("ok", o1.st, z3.BoolVal(True))]
                else:
                    conds = self.explore(o1.st, lambda s2: self.exc_match(s2, o1.val, self.ev(s2, fid, h.type)))
                for c in conds:
                    if c.kind == "raise":
                        outs.append(c)
                        continue
                    cc = c.val if not isinstance(c.val, bool) else z3.BoolVal(c.val)
                    cc = z3.simplify(cc)
                    if not z3.is_false(cc) and (z3.is_true(cc) or self.feasible(c.st, cc)):
                        s2 = c.st.copy()
                        if not z3.is_true(cc):
                            s2.pc.append(cc)
                        fr = s2.frames[fid]
                        saved = fr.get("$exc")
                        fr["$exc"] = o1.val
                        if h.name:
                            fr[h.name] = o1.val
                        for p in self.exec_block(h.body, s2, fid):
                            f2 = p.st.frames.get(fid)
                            if f2 is not None:
                                if h.name:
                                    f2.pop(h.name, None)
                                if saved is None:
                                    f2.pop("$exc", None)
                                else:
                                    f2["$exc"] = saved
                            outs.append(p)
                    if not z3.is_true(cc) and self.feasible(c.st, bnot(cc)):
                        s2 = c.st.copy()
                        s2.pc.append(bnot(cc))
                        rest.append(Out("raise", s2, o1.val))
            cur = rest
        return outs + cur

    def exc_match(self, st, e, spec):
        spec = self.resolve(st, spec)
        if isinstance(spec, STuple):
            return bor(*[self._emb(st, e, x) for x in spec.items])
        if isinstance(spec, tuple):
            return bor(*[self._emb(st, e, x) for x in spec])
        return self._emb(st, e, spec)

    def _emb(self, st, e, cls):
        if not isinstance(cls, type):
            raise Unsupported("exception class %r" % (cls,))
        if e.cls is not None:
            return z3.BoolVal(issubclass(e.cls, cls))
        if cls in (Exception, BaseException):
            return z3.BoolVal(True)
        smt.register_exc_class(cls)
        return smt.exc_isa(e.t, sval(cls.__name__))

    def x_Raise(self, s, st, fid):
        if s.exc is None:
            e = st.frames[fid].get("$exc")
            if e is None:
                raise Unsupported("bare raise")
            return [Out("raise", st, e)]

        def f(s2):
            e = self.resolve(s2, self.ev(s2, fid, s.exc))
            if isinstance(e, type) and issubclass(e, BaseException):
                e = self.mkexc(s2, e)
            if not isinstance(e, SExc):
                raise Unsupported("raise of %r" % (e,))
            raise PyExc(e)

        return self.explore(st, f)

    def x_Assert(self, s, st, fid):
        def f(s2):
            if not self.branch(s2, self.truth(s2, self.ev(s2, fid, s.test))):
                self.throw(s2, AssertionError)

        return self.simple(st, f)

    def x_Import(self, s, st, fid):
        for a in s.names:
            m = importlib.import_module(a.name)
            if a.asname:
                st.frames[fid][a.asname] = m
            else:
                import sys

                st.frames[fid][a.name.split(".")[0]] = sys.modules[a.name.split(".")[0]]
        return [Out("next", st)]

    def x_ImportFrom(self, s, st, fid):
        glob = self.glob_of(st, fid)
        name = "." * s.level + (s.module or "")
        pkg = glob.get("__package__") or glob.get("__name__", "").rpartition(".")[0]
        m = importlib.import_module(name, pkg) if s.level else importlib.import_module(s.module)
        for a in s.names:
            if hasattr(m, a.name):
                v = self.host_global(st, vars(m), a.name) if a.name in vars(m) else getattr(m, a.name)
            else:
                v = importlib.import_module(m.__name__ + "." + a.name)
            st.frames[fid][a.asname or a.name] = v
        return [Out("next", st)]

    def glob_of(self, st, fid):
        f = fid
        while f is not None:
            fr = st.frames[f]
            if "$glob" in fr:
                return fr["$glob"]
            f = fr.get("$parent")
        raise Unsupported("no globals")

    def frame_item(self, st, fid, key):
        f = fid
        while f is not None:
            fr = st.frames[f]
            if key in fr:
                return fr[key]
            f = fr.get("$parent")
        return None

    def x_FunctionDef(self, s, st, fid):
        if s.decorator_list:
            raise Unsupported("decorated local function")

        def f(s2):
            st_ = s2
            st_.frames[fid]["$captured"] = True
            d = tuple(self.ev(s2, fid, x) for x in s.args.defaults)
            kd = {a.arg: self.ev(s2, fid, x) for a, x in zip(s.args.kwonlyargs, s.args.kw_defaults) if x is not None}
            st_.frames[fid][s.name] = Closure(s, fid, self.glob_of(s2, fid), d, kd, self.frame_item(s2, fid, "$defcls"), s.name)

        return self.simple(st, f)

    def x_Global(self, s, st, fid):
        raise Unsupported("global statement")

    def x_Nonlocal(self, s, st, fid):
        st.frames[fid]["$nonlocal"] = tuple(s.names) + tuple(st.frames[fid].get("$nonlocal", ()))
        return [Out("next", st)]

    def x_Delete(self, s, st, fid):
        def f(s2):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    s2.frames[fid].pop(t.id, None)
                elif isinstance(t, ast.Subscript):
                    c = self.resolve(s2, self.ev(s2, fid, t.value))
                    k = self.ev(s2, fid, t.slice)
                    self.bm.del_item(self, s2, c, k)
                else:
                    raise Unsupported("del target")

        return self.simple(st, f)

    def x_With(self, s, st, fid):
        return self.with_items(s, list(s.items), st, fid)

    def with_items(self, s, items, st, fid):
        if not items:
            return self.exec_block(s.body, st, fid)
        it, rest = items[0], items[1:]
        outs = []
        for o in self.explore(st, lambda s2: self.resolve(s2, self.ev(s2, fid, it.context_expr))):
            if o.kind == "raise":
                outs.append(o)
            else:
                outs += self.with_one(s, it, rest, o.st, fid, o.val)
        return self.merge_outs_soft(outs)

    def with_body(self, s, it, rest, st, fid, v):
        outs = []
        bound = [Out("next", st)]
        if it.optional_vars is not None:
            bound = self.simple(st, lambda s2: self.assign(s2, fid, it.optional_vars, v))
        for o in bound:
            outs += [o] if o.kind != "next" else self.with_items(s, rest, o.st, fid)
        return outs

    def with_one(self, s, it, rest, st, fid, cm):
        if isinstance(cm, CtxMgr):
            body = self.with_body(s, it, rest, st, fid, cm.arg if cm.kind == "null" else None)
            if cm.kind == "null":
                return body
            outs = []
            for o in body:
                outs += [o] if o.kind != "raise" else self.swallow(o, cm.arg)
            return outs
        if isinstance(cm, ExtObj) and cm.what == "file":
            return self.with_body(s, it, rest, st, fid, cm)
        if isinstance(cm, Iter) and cm.kind == "ctxgen":
            return self.with_generator(s, it, rest, st, fid, cm)
        if isinstance(cm, Ref) and isinstance(st.heap[cm.id], Inst):
            return self.with_instance(s, it, rest, st, fid, cm)
        raise Unsupported("with statement over %r" % (cm,))

    def swallow(self, o, cond):
        """outcomes of a raise that is suppressed when cond(state) holds"""
        outs = []
        for c in self.explore(o.st, lambda s2: cond(s2, o.val)):
            if c.kind == "raise":
                outs.append(c)
                continue
            cc = c.val if not isinstance(c.val, bool) else z3.BoolVal(c.val)
            cc = z3.simplify(cc)
            for d, keep in ((cc, False), (bnot(cc), True)):
                if z3.is_true(d):
                    s3 = c.st
                elif z3.is_false(d) or not self.feasible(c.st, d):
                    continue
                else:
                    s3 = c.st.copy()
                    s3.pc.append(d)
                outs.append(Out("raise", s3, o.val) if keep else Out("next", s3))
        return outs

    def with_generator(self, s, it, rest, st, fid, cm):
        """@contextlib.contextmanager: the body runs at the yield and its error is raised there"""
        node, gfid = cm.args
        if self.use_once(st, cm) is None:
            raise Unsupported("context manager entered twice")

        def hook(s2, v):
            if s2.frames[gfid].get("$pend") is not None:
                raise Unsupported("context manager that yields twice")
            res = []
            for o in self.with_body(s, it, rest, s2, fid, v):
                o.st.frames[gfid]["$pend"] = Pending("raise" if o.kind == "raise" else o.kind, None if o.kind == "raise" else o.val)
                res.append(o if o.kind == "raise" else Out("next", o.st))
            return res

        outs = []
        self.sinks.append((gfid, hook))
        try:
            inner = self.exec_block(node.body, st, gfid)
        finally:
            self.sinks.pop()
        for o in inner:
            if o.kind == "raise":
                outs.append(o)
                continue
            p = o.st.frames[gfid].get("$pend")
            for q in self.explore(o.st, lambda s2: self.resolve(s2, p)):
                if not isinstance(q.val, Pending):
                    raise Unsupported("context manager that may not yield")
                q.st.frames.pop(gfid, None)
                outs.append(Out("next" if q.val.kind == "raise" else q.val.kind, q.st, q.val.val))
        return outs

    def with_instance(self, s, it, rest, st, fid, cm):
        outs = []
        for o in self.explore(st, lambda s2: self.call(s2, self.getattr_(s2, cm, "__enter__"), [], {})):
            if o.kind == "raise":
                outs.append(o)
                continue
            for p in self.with_body(s, it, rest, o.st, fid, o.val):
                args = [None, None, None]
                if p.kind == "raise":
                    args = [ExcType(p.val), p.val, Poison("traceback")]

                def leave(s2, v):
                    return self.truth(s2, self.call(s2, self.getattr_(s2, cm, "__exit__"), args, {}))

                if p.kind == "raise":
                    outs += self.swallow(p, leave)
                else:
                    for q in self.explore(p.st, lambda s2: leave(s2, None)):
                        outs.append(q if q.kind == "raise" else Out(p.kind, q.st, p.val))
        return outs

    # ------------------------------------------------------------------
    # assignment
    def assign(self, st, fid, t, v):
        if isinstance(t, ast.Name):
            fr = st.frames[fid]
            if t.id in fr.get("$nonlocal", ()):
                f = fr.get("$parent")
                while f is not None:
                    if t.id in st.frames[f]:
                        st.frames[f][t.id] = v
                        return
                    f = st.frames[f].get("$parent")
                raise Unsupported("nonlocal %s" % t.id)
            fr[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.resolve(st, v)
            if any(isinstance(x, ast.Starred) for x in t.elts):
                i = [isinstance(x, ast.Starred) for x in t.elts].index(True)
                tail = len(t.elts) - i - 1
                L = self.bm.to_list_segs(self, st, v)
                n = self.bm.seg_len(self, st, L)
                if not (n >= i + tail if isinstance(n, int) else self.branch(st, it_(n) >= i + tail)):
                    self.throw(st, ValueError, "not enough values to unpack")
                for j in range(i):
                    self.assign(st, fid, t.elts[j], self.bm.seq_index(self, st, L, j))
                mid = self.bm.seq_slice(self, st, L, i, -tail if tail else None)
                self.assign(st, fid, t.elts[i].value, self.new_list(st, mid))
                for j in range(tail):
                    self.assign(st, fid, t.elts[i + 1 + j], self.bm.seq_index(self, st, L, -tail + j))
                return
            items = None
            if isinstance(v, Iter) and v.kind in ("range", "enumerate", "zip", "map", "reversed"):
                v = self.new_list(st, self.bm.to_list_segs(self, st, v))
            if isinstance(v, STuple):
                items = v.items
            elif isinstance(v, (tuple, list)):
                items = list(v)
            elif isinstance(v, Ref) and isinstance(st.heap[v.id], ListObj):
                segs = st.heap[v.id].segs
                if all(isinstance(x, SegE) for x in segs):
                    items = [x.v for x in segs]
                else:
                    n = z3.Length(self.seq_term(st, segs))
                    if not self.branch(st, n == len(t.elts)):
                        self.throw(st, ValueError, "unpack")
                    items = [self.bm.seq_index(self, st, segs, j) for j in range(len(t.elts))]
            if items is None:
                raise Unsupported("unpacking %r" % (v,))
            if len(items) != len(t.elts):
                self.throw(st, ValueError, "unpack")
            for x, y in zip(t.elts, items):
                self.assign(st, fid, x, y)
        elif isinstance(t, ast.Subscript):
            c = self.resolve(st, self.ev(st, fid, t.value))
            k = self.ev(st, fid, t.slice)
            self.bm.set_item(self, st, c, k, v)
        elif isinstance(t, ast.Attribute):
            o = self.resolve(st, self.ev(st, fid, t.value))
            self.setattr_(st, o, t.attr, v)
        else:
            raise Unsupported("assignment target")

    def setattr_(self, st, o, name, v, force=False):
        if isinstance(o, Ref) and isinstance(st.heap[o.id], Inst):
            rec = st.heap[o.id]
            params = getattr(rec.cls, "__dataclass_params__", None)
            if params is not None and params.frozen and not force:
                self.throw(st, dataclasses.FrozenInstanceError, name)
            f = dict(rec.fields)
            f[name] = v
            self.write(st, o, Inst(rec.cls, f, rec.fresh))
            return
        if isinstance(o, SVal) and o.tag in ("node", "mark"):
            if force:
                self.bm.note(st, ("frame", "attribute write on a child element", name))
                raise Unsupported("write to child element")
            self.throw(st, dataclasses.FrozenInstanceError, name)
        if isinstance(o, (types.ModuleType, type)):
            self.bm.note(st, ("frame", "write to module/class attribute", "%s.%s" % (getattr(o, "__name__", o), name)))
            raise Unsupported("state kept in an attribute of %s" % getattr(o, "__name__", o))
        if not isinstance(o, (Sym, Ref)):
            self.bm.note(st, ("frame", "write to an attribute of an object of class %s" % type(o).__name__, name))
        raise Unsupported("attribute assignment on %r" % (o,))

    # ------------------------------------------------------------------
    # expressions
    def ev(self, st, fid, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, st, fid)

    def e_Constant(self, e, st, fid):
        return e.value

    def e_Name(self, e, st, fid):
        return self.lookup(st, fid, self.glob_of(st, fid), e.id)

    def e_Attribute(self, e, st, fid):
        return self.getattr_(st, self.ev(st, fid, e.value), e.attr)

    def e_JoinedStr(self, e, st, fid):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(sval(p.value))
            else:
                v = self.ev(st, fid, p.value)
                if p.format_spec is not None and not (
                    isinstance(p.format_spec, ast.JoinedStr) and len(p.format_spec.values) == 0
                ):
                    spec = self.ev(st, fid, p.format_spec)
                    v = self.bm.format_spec(self, st, v, spec)
                elif p.conversion == 114:
                    v = self.bm.py_repr(self, st, v)
                else:
                    v = self.bm.py_str(self, st, v)
                parts.append(st_(v))
        return mkstr(sconcat(*parts))

    def e_Tuple(self, e, st, fid):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs = self.bm.to_list_segs(self, st, self.ev(st, fid, x.value))
                if not all(isinstance(s, SegE) for s in segs):
                    raise Unsupported("symbolic star in tuple")
                items += [s.v for s in segs]
            else:
                items.append(self.ev(st, fid, x))
        return STuple(items)

    def e_List(self, e, st, fid):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs += list(self.bm.to_list_segs(self, st, self.ev(st, fid, x.value)))
            else:
                segs.append(SegE(self.ev(st, fid, x)))
        return self.new_list(st, segs)

    def e_Set(self, e, st, fid):
        items = [self.ev(st, fid, x) for x in e.elts]
        if any(isinstance(x, Sym) for x in items):
            return Iter("set", tuple(SegE(x) for x in items))  # membership only
        return frozenset(items)

    def e_Dict(self, e, st, fid):
        ref = self.alloc(st, DictObj({}, None, True))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.bm.dict_update(self, st, ref, self.ev(st, fid, v))
            else:
                kk = self.ev(st, fid, k)
                self.bm.set_item(self, st, ref, kk, self.ev(st, fid, v))
        return ref

    def e_IfExp(self, e, st, fid):
        c = self.truth(st, self.ev(st, fid, e.test))
        return self.fork_merge(
            st, c, lambda s: self.ev(s, fid, e.body), lambda s: self.ev(s, fid, e.orelse)
        )

    def e_BoolOp(self, e, st, fid):
        def go(st, vals):
            v = self.ev(st, fid, vals[0])
            if len(vals) == 1:
                return v
            c = self.truth(st, v)
            if isinstance(e.op, ast.And):
                return self.fork_merge(st, c, lambda s: go(s, vals[1:]), lambda s: self.falsy(s, v))
            return self.fork_merge(st, c, lambda s: v, lambda s: go(s, vals[1:]))

        return go(st, e.values)

    def falsy(self, st, v):
        """value of an `and` operand known to be false"""
        if isinstance(v, SBool):
            return False
        return v

    def e_UnaryOp(self, e, st, fid):
        v = self.ev(st, fid, e.operand)
        if isinstance(e.op, ast.Not):
            c = self.truth(st, v)
            return mkbool(bnot(c))
        v = self.resolve(st, v)
        if isinstance(v, SVal):
            v = self.kind_fork(st, v)
        if isinstance(e.op, ast.USub):
            if is_intlike(v):
                return mkint(-it_(v)) if isinstance(v, SInt) else -v
            if isinstance(v, SReal):
                return SReal(-v.t)
            if not isinstance(v, Sym):
                return -v
        raise Unsupported("unary op")

    def e_BinOp(self, e, st, fid):
        return self.binop(st, e.op, self.ev(st, fid, e.left), self.ev(st, fid, e.right))

    def binop(self, st, op, a, b):
        return self.bm.binop(self, st, op, a, b)

    def e_Compare(self, e, st, fid):
        left = self.ev(st, fid, e.left)
        res = None
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            if res is not None and not isinstance(c, (ast.Name, ast.Constant)) and not self.branch(st, res):
                return False
            right = self.ev(st, fid, c)
            r = self.compare(st, op, left, right)
            rb = z3.BoolVal(r) if isinstance(r, bool) else r
            res = rb if res is None else z3.And(res, rb)
            left = right
        return mkbool(res)

    def compare(self, st, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(st, a, b)
        if isinstance(op, ast.NotEq):
            return bnot(self._eb(st, a, b))
        if isinstance(op, ast.Is):
            return self.is_(st, a, b)
        if isinstance(op, ast.IsNot):
            return bnot(self._ib(st, a, b))
        if isinstance(op, ast.In):
            return self.bm.contains(self, st, b, a)
        if isinstance(op, ast.NotIn):
            r = self.bm.contains(self, st, b, a)
            return bnot(r)
        r = self.bm.set_order(self, st, op, a, b)
        if r is not None:
            return r
        return self.bm.order(self, st, op, a, b)

    def e_Subscript(self, e, st, fid):
        c = self.resolve(st, self.ev(st, fid, e.value))
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(st, fid, e.slice.lower) if e.slice.lower else None
            hi = self.ev(st, fid, e.slice.upper) if e.slice.upper else None
            step = self.ev(st, fid, e.slice.step) if e.slice.step else None
            return self.bm.get_slice(self, st, c, lo, hi, step)
        k = self.ev(st, fid, e.slice)
        return self.bm.get_item(self, st, c, k)

    def e_Lambda(self, e, st, fid):
        st.frames[fid]["$captured"] = True
        d = tuple(self.ev(st, fid, x) for x in e.args.defaults)
        return Closure(e, fid, self.glob_of(st, fid), d, {}, self.frame_item(st, fid, "$defcls"), "<lambda>")

    def e_NamedExpr(self, e, st, fid):
        v = self.ev(st, fid, e.value)
        self.assign(st, fid, e.target, v)
        return v

    def e_Call(self, e, st, fid):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            dc = self.frame_item(st, fid, "$defcls")
            first = self.frame_item(st, fid, "$first")
            if dc is None:
                raise Unsupported("super() outside class")
            rc = first if isinstance(first, type) else None
            if isinstance(first, Ref):
                rc = st.heap[first.id].cls
            if rc is None:
                raise Unsupported("super() receiver")
            return Super(dc, first, rc)
        f = self.ev(st, fid, e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(st, fid, a.value)
                segs = self.bm.to_list_segs(self, st, v)
                if not all(isinstance(s, SegE) for s in segs):
                    raise Unsupported("symbolic star argument")
                args += [s.v for s in segs]
            else:
                args.append(self.ev(st, fid, a))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(st, fid, k.value)
            if k.arg is None:
                v = self.resolve(st, v)
                if isinstance(v, Ref) and isinstance(st.heap[v.id], DictObj):
                    d = st.heap[v.id]
                    if d.base is not None:
                        raise Unsupported("** of a dictionary with unknown keys")
                    for kk, (p, vv) in d.entries.items():
                        kwargs[kk] = vv if p is True else Maybe(p, vv)
                elif isinstance(v, dict):
                    kwargs.update(v)
                else:
                    raise Unsupported("** of %r" % (v,))
            else:
                kwargs[k.arg] = v
        kwargs = {k: v for k, v in kwargs.items() if not (isinstance(v, Maybe) and v.p is False)}
        return self.call(st, f, args, kwargs)

    def e_Yield(self, e, st, fid):
        raise Unsupported("yield inside an expression")

    e_YieldFrom = e_Yield

    def e_ListComp(self, e, st, fid):
        return self.comp_list(st, fid, e.generators, e.elt)

    def e_SetComp(self, e, st, fid):
        r = self.comp_list(st, fid, e.generators, e.elt)
        segs = st.heap[r.id].segs
        if all(isinstance(s, SegE) and not isinstance(s.v, Sym) for s in segs):
            return frozenset(s.v for s in segs)
        return Iter("set", tuple(segs))  # membership only

    def e_GeneratorExp(self, e, st, fid):
        st.frames[fid]["$captured"] = True
        first = self.ev(st, fid, e.generators[0].iter)
        return self.one_shot(st, Iter("gen", e, fid, first))

    def hashable(self, st, x):
        """TypeError unless x can be hashed"""
        x = self.resolve(st, x)
        if isinstance(x, Ref) and isinstance(st.heap[x.id], (ListObj, DictObj)):
            self.throw(st, TypeError, "unhashable")
        if isinstance(x, SVal) and x.tag not in ("node", "mark"):
            if x.tag in ("jsonlist", "jsondict") or self.branch(st, z3.Or(smt.kind(x.t) == smt.K["list"], smt.kind(x.t) == smt.K["dict"])):
                self.throw(st, TypeError, "unhashable")

    def one_shot(self, st, it):
        it.once = self.alloc(st, IterSt(False))
        return it

    def use_once(self, st, it, all_=False):
        """starts taking the rest of an iterator (all of it, or perhaps not): how many elements
        are gone already, None when nothing is left"""
        if it.kind == "segs" and len(it.args) > 1 and st.heap.get(it.args[1][0]) is not it.args[1][1]:
            raise Unsupported("iterator over a collection that has changed")
        if it.once is None:
            return 0
        rec = st.heap[it.once.id]
        if rec.used is True and it.kind != "count":
            return None  # nothing is left
        if rec.used is not False or (it.kind != "segs" and not same(rec.pos, 0)):
            raise Unsupported("iterator that may have been used already")
        st.heap[it.once.id] = IterSt(True if all_ else None)
        return rec.pos

    def e_DictComp(self, e, st, fid):
        def thunk(s):
            acc = self.alloc(s, DictObj({}, None, True))

            def sink(s2, cf):
                def f(s3):
                    k = self.ev(s3, cf, e.key)
                    self.bm.set_item(self, s3, acc, k, self.ev(s3, cf, e.value))

                return self.simple(s2, f)

            outs = self.run_generators(s, fid, e.generators, sink)
            return self.merge_outs([Out("ok", o.st, acc) if o.kind == "next" else o for o in outs])

        return self.choose_outcome(st, thunk)

    def comp_list(self, st, fid, gens, elt):
        def thunk(s):
            acc = self.new_list(s)

            def sink(s2, cf):
                return self.simple(s2, lambda s3: self.bm.list_append(self, s3, acc, self.ev(s3, cf, elt)))

            outs = self.run_generators(s, fid, gens, sink)
            return self.merge_outs([Out("ok", o.st, acc) if o.kind == "next" else o for o in outs])

        return self.choose_outcome(st, thunk)

    def run_generators(self, st, fid, gens, sink, first=None):
        """run nested comprehension generators; sink(state, frame) -> outcomes"""
        cf = self.number(self.fctr)
        st.frames[cf] = {"$parent": fid}

        def level(s, i):
            if i == len(gens):
                return sink(s, cf)
            g = gens[i]
            outs = []
            if i == 0 and first is not None:
                srcs = [Out("ok", s, first)]
            else:
                srcs = self.explore(s, lambda s2: self.ev(s2, cf, g.iter))
            for o in srcs:
                if o.kind == "raise":
                    outs.append(o)
                    continue

                def on_elem(s2, v):
                    res = []
                    for p in self.explore(s2, lambda s3: self.assign(s3, cf, g.target, v)):
                        if p.kind == "raise":
                            res.append(p)
                            continue
                        live = [p.st]
                        for cond in g.ifs:
                            nl = []
                            for s3 in live:
                                for q in self.explore(s3, lambda s4: self.truth(s4, self.ev(s4, cf, cond))):
                                    if q.kind == "raise":
                                        res.append(q)
                                        continue
                                    c = q.val if not isinstance(q.val, bool) else z3.BoolVal(q.val)
                                    c = z3.simplify(c)
                                    if z3.is_true(c):
                                        nl.append(q.st)
                                        continue
                                    if z3.is_false(c):
                                        res.append(Out("next", q.st))
                                        continue
                                    if self.feasible(q.st, bnot(c)):
                                        s5 = q.st.copy()
                                        s5.pc.append(bnot(c))
                                        res.append(Out("next", s5))
                                    if self.feasible(q.st, c):
                                        s5 = q.st.copy()
                                        s5.pc.append(c)
                                        nl.append(s5)
                            live = nl
                        for s3 in live:
                            res += level(s3, i + 1)
                    return self.merge_outs_soft(res)

                outs += self.iterate(o.st, cf, o.val, on_elem, "comp@%d" % getattr(g.target, "lineno", 0))
            return self.merge_outs_soft(outs)

        outs = level(st, 0)
        for o in outs:
            f = o.st.frames.get(cf)
            if f is not None and not f.get("$captured"):
                o.st.frames.pop(cf)
        return outs

    # ------------------------------------------------------------------
    # iteration
    def iterate(self, st, fid, v, on_elem, where):
        """run on_elem for each element of v; outcome kinds next/break/return/raise"""
        outs = []
        for o in self.explore(st, lambda s2: self.iter_plan(s2, fid, v)):
            if o.kind == "raise":
                outs.append(o)
                continue
            plan = o.val
            outs += plan(o.st, on_elem, where)
        return self.merge_outs_soft(outs)

    def iter_plan(self, st, fid, v):
        v = self.resolve(st, v)
        if isinstance(v, Iter):
            k, a = v.kind, v.args
            pos = self.use_once(st, v)
            if pos is None:
                return lambda s, f, w: [Out("next", s)]
            if k == "segs" and not same(pos, 0):
                a = (self.bm.seq_slice(self, st, a[0], pos, None),) + tuple(a[1:])
            if k == "set":
                view = self.bm.set_view(self, st, v)
                if view is None:
                    raise Unsupported("iteration order of a set")
                return lambda s, f, w: self.run_set(s, [(u, p, u) for u, p in view.items()], f, w)
            if k == "genfn":
                return lambda s, f, w: self.run_generator(s, a[1], a[0], f)
            if k == "segs":
                segs = a[0]
                if len(a) > 1:
                    id_ = a[1][0]
                    return lambda s, f, w: self.run_segs(s, segs, self.unchanged(Ref(id_), f), w)
                return lambda s, f, w: self.run_segs(s, segs, f, w)
            if k == "enumerate":
                inner = self.iter_plan(st, fid, a[0])
                h = "$c%d" % self.number(self.fctr)
                start = a[1]

                def plan(s, f, w):
                    s.frames[fid][h] = start

                    def g(s2, x):
                        i = s2.frames[fid][h]
                        s2.frames[fid][h] = mkint(z3.simplify(it_(i) + 1))
                        return f(s2, STuple((i, x)))

                    return inner(s, g, w)

                return plan
            if k == "map":
                inner = self.iter_plan(st, fid, a[1])

                def plan(s, f, w):
                    def g(s2, x):
                        res = []
                        for o in self.explore(s2, lambda s3: self.call(s3, a[0], [x], {})):
                            if o.kind == "raise":
                                res.append(o)
                            else:
                                res += f(o.st, o.val)
                        return res

                    return inner(s, g, w)

                return plan
            if k == "filter":
                inner = self.iter_plan(st, fid, a[1])

                def plan(s, f, w):
                    def g(s2, x):
                        res = []

                        def test(s3):
                            return self.branch(s3, self.truth(s3, x if a[0] is None else self.call(s3, a[0], [x], {})))

                        for o in self.explore(s2, test):
                            if o.kind == "raise":
                                res.append(o)
                            elif o.val:
                                res += f(o.st, x)
                            else:
                                res.append(Out("next", o.st))
                        return res

                    return inner(s, g, w)

                return plan
            if k == "gen":
                e, gf, first = a

                def plan(s, f, w):
                    def sink(s2, cf):
                        res = []
                        for o in self.explore(s2, lambda s3: self.ev(s3, cf, e.elt)):
                            if o.kind == "raise":
                                res.append(o)
                            else:
                                res += f(o.st, o.val)
                        return res

                    return self.run_generators(s, gf, e.generators, sink, first=first)

                return plan
            if k == "range":
                lo, hi, step = a
                if all(isinstance(x, int) for x in a):
                    r = range(lo, hi, step)
                    if len(r) > 200:
                        raise Unsupported("large range")
                    return lambda s, f, w: self.run_segs(s, [SegE(i) for i in r], f, w)
                if step != 1:
                    raise Unsupported("symbolic range step")

                def plan(s, f, w):
                    n = it_(hi) - it_(lo)
                    return self.sym_loop(
                        s, None, lambda s2, k: mkint(z3.simplify(it_(lo) + k)), f, n=z3.If(n < 0, z3.IntVal(0), n), where=w
                    )

                return plan
            if k == "zip" and any(isinstance(x, Iter) and x.kind == "count" for x in a):
                rest = [x for x in a if not (isinstance(x, Iter) and x.kind == "count")]
                first = isinstance(a[0], Iter) and a[0].kind == "count"
                if len(rest) != 1 or not first:
                    raise Unsupported("zip of counters")
                inner = self.iter_plan(st, fid, rest[0])

                def plan(s, f, w):
                    def g(s2, x):
                        res = []
                        for o in self.explore(s2, lambda s3: STuple([x if y is rest[0] else self.call(s3, y.args[0], [], {}) for y in a])):
                            res += [o] if o.kind == "raise" else f(o.st, o.val)
                        return res

                    return inner(s, g, w)

                return plan
            if k == "zip":
                plans = [self.bm.try_list_segs(self, st, x) for x in a]
                if any(p is None for p in plans):
                    raise Unsupported("zip of lazy iterables")
                if all(all(isinstance(s, SegE) for s in p) for p in plans):
                    return lambda s, f, w: self.run_segs(
                        s, [SegE(STuple([x.v for x in xs])) for xs in zip(*plans)], f, w
                    )
                h = "$c%d" % self.number(self.fctr)

                def plan(s, f, w):
                    s.frames[fid][h] = 0

                    def g(s2, x):
                        i = s2.frames[fid][h]
                        s2.frames[fid][h] = mkint(z3.simplify(it_(i) + 1))
                        res = []

                        def pick(s3):
                            items = [x]
                            for p in plans[1:]:
                                n = z3.Length(self.seq_term(s3, p))
                                if not self.branch(s3, it_(i) < n):
                                    return None
                                items.append(self.bm.seq_index(self, s3, p, i))
                            return STuple(items)

                        for o in self.explore(s2, pick):
                            if o.kind == "raise":
                                res.append(o)
                            elif o.val is None:
                                res.append(Out("exhausted" + h, o.st))
                            else:
                                res += f(o.st, o.val)
                        return res

                    # the shortest iterable ends the loop as its end would (not as a break does)
                    outs = self.run_segs(s, plans[0], g, w)
                    return self.merge_outs_soft([Out("next", o.st) if o.kind == "exhausted" + h else o for o in outs])

                return plan
            if k == "jsonitems":
                return lambda s, f, w: self.run_open_dict(s, a[0], f, w)
            raise Unsupported("iterable %s" % k)
        d = self.bm.open_dict(self, st, v)
        if d is not None:
            d = (d, "keys", v.id if isinstance(v, Ref) else None, frozenset(), None)
            return lambda s, f, w: self.run_open_dict(s, d, f, w)
        if isinstance(v, (set, frozenset)) and len(v) > 1:
            host = list(v)
            return lambda s, f, w: self.run_set(s, [(u, True, u) for u in host], f, w)
        segs = self.bm.to_list_segs(self, st, v)
        if isinstance(v, Ref) and isinstance(st.heap[v.id], (ListObj, DictObj)):
            return lambda s, f, w: self.run_segs(s, segs, self.unchanged(v, f), w)
        return lambda s, f, w: self.run_segs(s, segs, f, w)

    def unchanged(self, ref, f):
        """a loop body over a list must leave that list alone (the model iterates over a snapshot);
        over a dictionary it may only assign to the key at hand"""

        def g(s, x):
            before = s.heap[ref.id]
            outs = f(s, x)
            for o in outs:
                after = o.st.heap.get(ref.id)
                if o.kind not in ("next", "continue") or after is before:
                    continue
                if not isinstance(before, DictObj):
                    raise Unsupported("list changed while it is iterated")
                a, b = before.entries, after.entries
                k = x.items[0] if isinstance(x, STuple) and x.items else x
                if list(a) != list(b) or any(
                    a[j] is not b[j] and not (isinstance(k, str) and j == k and a[j][0] is True and b[j][0] is True) for j in a
                ):
                    raise Unsupported("dictionary changed while it is iterated")
            return outs

        return g

    def run_segs(self, st, segs, f, where):
        live, done = [st], []
        for seg in segs:
            nxt = []
            for s in live:
                for o in self.run_seg(s, seg, f, where):
                    if o.kind in ("next", "continue"):
                        nxt.append(Out("next", o.st))
                    else:
                        done.append(o)
            live = [o.st for o in self.merge_outs(nxt)]
        return done + [Out("next", s) for s in live]

    def run_seg(self, st, seg, f, where):
        if isinstance(seg, SegE):
            return f(st, seg.v)
        if isinstance(seg, SegC):
            outs = []
            for c, part in ((seg.c, seg.a), (bnot(seg.c), seg.b)):
                if any(p.eq(c) for p in st.pc):
                    return self.run_segs(st, part, f, where)
            for c, part in ((seg.c, seg.a), (bnot(seg.c), seg.b)):
                if self.feasible(st, c):
                    s2 = st.copy()
                    s2.pc.append(c)
                    outs += self.run_segs(s2, part, f, where)
            return self.merge_outs_soft(outs)
        if isinstance(seg, SegS):
            t = seg.t
            return self.sym_loop(
                st, t, lambda s2, k: self.unbox(self.nth(t, k), seg.wrap, seg.prov), f, n=z3.Length(t), where=where, seg=seg
            )
        if isinstance(seg, SegG):
            L = seg.loop
            if (self.ext is not None and seg.wrap == "api") or any(L.k.eq(k) for k in self.active_k):
                # nested iteration over the same generated list: use it as an opaque sequence
                t = seg.t
                return self.sym_loop(
                    st, t, lambda s2, k: self.unbox(self.nth(t, k), seg.wrap), f, n=z3.Length(t), where=where
                )
            return self.sym_loop(st, L.base, None, f, n=L.n, where=where, slave=seg)
        raise Unsupported("segment %r" % (seg,))

    def nth(self, t, k):
        while t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() >= 0:
            t, k = t.arg(0), z3.simplify(k + t.arg(1))
        return smt.at(t, k)

    # -- symbolic loops ------------------------------------------------------
    def value_kind(self, st, v):
        if isinstance(v, Poison):
            return "poison"
        if is_strlike(v):
            return "str"
        if is_boollike(v):
            return "bool"
        if is_intlike(v):
            return "int"
        if isinstance(v, Ref) and isinstance(st.heap[v.id], ListObj):
            return "listref"
        if v is None or v is self.OPT or isinstance(v, (SVal, SUnion)):
            if isinstance(v, SUnion):
                for c, w in v.alts:
                    if self.value_kind(st, w) in ("poison",):
                        return "poison"
                    if isinstance(w, Ref) and not isinstance(st.heap[w.id], ListObj):
                        return "poison"
            return "val"
        return "poison"

    def as_term(self, st, v, kind):
        if kind == "str":
            if not is_strlike(v):
                raise KindMismatch()
            return st_(v)
        if kind == "bool":
            if not is_boollike(v):
                raise KindMismatch()
            return bt_(v)
        if kind == "int":
            if not is_intlike(v):
                raise KindMismatch()
            return it_(v)
        if kind == "listref":
            if not (isinstance(v, Ref) and isinstance(st.heap[v.id], ListObj)):
                raise KindMismatch()
            return self.seq_term(st, st.heap[v.id].segs)
        if kind == "val":
            try:
                return self.box(st, v)
            except Unsupported:
                raise KindMismatch()
        raise KindMismatch()

    SORTS = {"str": smt.S, "bool": smt.B, "int": smt.I, "list": smt.SeqV, "listref": smt.SeqV, "val": smt.Val}

    def from_term(self, st, t, kind, wrap="val"):
        if kind == "str":
            return mkstr(t)
        if kind == "bool":
            return mkbool(t)
        if kind == "int":
            return mkint(t)
        if kind == "listref":
            return self.new_list(st, (SegS(t, wrap),))
        return SVal(t, "val")

    def sym_loop(self, st, base, elem, f, n=None, alive=None, where="", slave=None, seg=None):
        if len(self.active_k) > 6:
            raise Unsupported("loop nesting too deep")
        kinds = {}  # key -> kind (upgrades)
        wraps = {}
        keys = []
        hot = set()  # carried lists that have a second name, and lists of the state before the loop known under one
        for attempt in range(12):
            r = self._sym_loop_once(st, base, elem, f, n, alive, where, slave, seg, keys, kinds, wraps, hot)
            if r is not None:
                return r
        raise Unsupported("loop at %s: carried state not stable" % where)

    def second_name(self, st, key, before, hot):
        """lists are carried around a loop by their contents: notes those reachable by another
        path than the carried variable, which must not be changed afterwards"""
        v = st.frames[key[1]].get(key[2])
        if isinstance(v, Ref) and (v.id in st.frozen or self.referenced(st, v.id, key)):
            hot.add(key)
            if v.id in before:
                hot.add(v.id)

    def refs_in(self, v):
        """heap references a value holds directly"""
        if isinstance(v, Ref):
            yield v.id
            return
        if isinstance(v, SUnion):
            sub = [w for _, w in v.alts]
        elif isinstance(v, STuple):
            sub = v.items
        elif isinstance(v, SegE):
            sub = (v.v,)
        elif isinstance(v, SegC):
            sub = (v.a, v.b)
        elif isinstance(v, (list, tuple)):
            sub = v
        elif isinstance(v, dict):
            sub = v.values()
        elif isinstance(v, (DictObj, MapObj)):
            sub = (v.entries,)
        elif isinstance(v, ListObj):
            sub = v.segs
        elif isinstance(v, Inst):
            sub = (v.fields,)
        elif isinstance(v, (Bound, VMethod, Closure, Iter, IterSt)):
            sub = [getattr(v, a, None) for a in (getattr(v, "__slots__", None) or vars(v))]
        else:
            return
        for w in sub:
            yield from self.refs_in(w)

    def referenced(self, st, i, key):
        for f, fr in st.frames.items():
            for k, v in fr.items():
                if (f, k) != key[1:] and i in self.refs_in(v):
                    return True
        return any(i in self.refs_in(r) for r in st.heap.values())

    def keep_objects(self, src, dst, v):
        """objects made by the body and kept in a list it builds: their contents (at the generic
        iteration) stay readable, and may not be changed"""
        for i in self.refs_in(v):
            if i not in dst.heap and i in src.heap:
                dst.heap[i] = src.heap[i]
                dst.frozen |= {i}
                self.keep_objects(src, dst, src.heap[i])

    def _sym_loop_once(self, st, base, elem, f, n, alive, where, slave, seg, keys, kinds, wraps, hot):
        L = Loop()
        L.where, L.side = where, self.side
        L.base, L.n = base, n
        if slave is not None:
            L.slave_of = slave.loop
            L.k = slave.loop.k
        else:
            L.k = fresh("k", smt.I)
        s0 = st.copy()
        s0.loops = []
        for key in keys:
            c = self.make_comp(st, s0, key, kinds, wraps)
            L.comps.append(c)
            if c.kind == "listref":
                self.second_name(st, key, st.heap, hot)
                if key in hot:
                    c.hot = True
                    s0.frozen |= {s0.frames[key[1]][key[2]].id}
        old = frozenset(h for h in hot if h in st.heap)
        s0.frozen |= old
        L.entry_pc = list(st.pc)
        if n is not None:
            L.facts = [L.k >= 0, L.k < n]
            L.alive = L.k < n
        else:
            L.facts = [L.k >= 0]
        if slave is not None:
            L.facts = list(slave.loop.facts) + [bnot(e.cond) for e in slave.loop.exits]
            L.alive = slave.loop.alive
            L.n = slave.loop.n
        s0.pc += L.facts
        start = s0.copy()
        if alive is not None:
            L.alive = alive(s0.copy())
        self.active_k.append(L.k)
        try:
            if slave is not None:
                outs = self.run_segs(s0, slave.segs, f, where)
            elif elem is not None:
                outs = f(s0, elem(s0, L.k))
            else:
                outs = f(s0)
        finally:
            self.active_k.pop()
        # which state did the body touch?
        new = False
        if self.ext is not None:
            for o in outs:
                for h, rec in o.st.heap.items():
                    if isinstance(rec, MapObj) and isinstance(st.heap.get(h), DictObj):
                        # the same empty dictionary, in the form that takes computed keys
                        self.ext.to_map(self, st, Ref(h))
                        new = True
            if new:
                return None
        for o in outs:
            for key in self.touched(start, o.st):
                if key not in keys and (key[0] != "h" or key[1] in st.heap):
                    keys.append(key)
                    new = True
            for key in keys:
                if key[0] == "h" and key[1] in o.st.heap and isinstance(o.st.heap[key[1]], ListObj):
                    w = self.wrap_of(o.st.heap[key[1]].segs)
                    if w is not None and wraps.get(key) != w and key not in wraps:
                        wraps[key] = w
        if new:
            return None
        norm = [o for o in outs if o.kind in ("next", "continue")]
        others = [o for o in outs if o.kind not in ("next", "continue")]
        for o in norm:
            o.kind = "next"
        npc = len(s0_pc) if False else len(start.pc)
        m = self.merge_outs(norm)
        if len(m) > 1:
            raise Unsupported("loop body at %s has unmergeable paths" % where)
        nxt = m[0].st if m else None
        # next-state terms
        try:
            for c in L.comps:
                if c.kind == "poison":
                    continue
                if nxt is not None:
                    c.next, c.gsegs = self.comp_term(nxt, c)
                else:
                    c.next = c.cur
        except KindMismatch as e:
            if kinds.get(c.key) == "val":
                kinds[c.key] = "poison"
            else:
                kinds[c.key] = "val" if c.kind != "list" else "poison"
            return None
        seen = len(hot)
        for o in ([m[0]] if m else []) + others:
            hot |= {h for h in o.st.frozen if h in st.heap and h not in st.frozen}
            for c in L.comps:
                if c.kind == "listref":
                    self.second_name(o.st, c.key, st.heap, hot)
            if o.kind in ("return", "gs:return") and isinstance(o.val, Ref) and o.val.id in st.heap:
                hot.add(o.val.id)
        if len(hot) != seen:
            return None
        L.inner = []
        for o in outs:
            for l in o.st.loops:
                if not any(l is x for x in L.inner):
                    L.inner.append(l)
        if slave is not None:
            L.inner = list(slave.loop.inner) + [l for l in L.inner if not any(l is x for x in slave.loop.inner)]
        # exits
        res = []
        g = {}
        for o in others:
            g.setdefault(o.kind, []).append(o)
        sfin = st.copy()
        sfin.frozen |= old
        sfin.loops.append(L)
        sfin.events = list(st.events)
        for o in outs:
            for e in o.st.events:
                if e[0] == "write" and e not in st.events:
                    raise Unsupported("file written in a loop")
                if e not in sfin.events:
                    sfin.events.append(e)
        head = None
        if alive is not None and "break" in g and z3.is_true(z3.simplify(L.alive)):
            head = self.head_break(L, g["break"], npc)
            if head is not None:
                del g["break"]
                L.alive = bnot(head[0])
        for kind, os in g.items():
            mo = self.merge_outs(os)
            for o in mo:
                cond = band(*o.st.pc[npc:])
                ex = Exit(kind, cond, fresh("X%d_%s" % (L.id, kind), smt.B))
                s2 = sfin.copy()
                s2.pc.append(ex.flag)
                val = None
                if kind in ("raise", "gs:raise"):
                    ex.payload = o.val.t
                    ex.pkind = "exc"
                    if self.const_term(o.val.t):
                        val = o.val
                        ex.pconst = o.val.t
                    else:
                        ex.pconst = fresh("E%d" % L.id, smt.Exc)
                        val = SExc(ex.pconst, o.val.cls)
                        for f in self.exc_facts(o.st, o.val.t, ex.pconst):
                            self.add_global(list(L.entry_pc) + [ex.flag], f)
                elif kind in ("return", "gs:return"):
                    if not isinstance(o.val, Sym) or o.val is None:
                        val = o.val
                        ex.payload = ex.pconst = self.box(s2, o.val)
                        ex.pkind = "val"
                    else:
                        vk = self.value_kind(o.st, o.val)
                        if vk == "poison":
                            raise Unsupported("return of a heap object from inside a symbolic loop")
                        ex.payload = self.as_term(o.st, o.val, vk)
                        ex.pkind = vk
                        ex.pconst = fresh("RV%d" % L.id, self.SORTS[vk])
                        w = "val"
                        if vk == "listref":
                            w = self.wrap_of(o.st.heap[o.val.id].segs) or "val"
                        val = self.from_term(s2, ex.pconst, vk, w)
                        if vk == "listref" and o.val.id in old:
                            s2.frozen |= {val.id}
                        if isinstance(o.val, SVal):
                            val = SVal(ex.pconst, o.val.tag, o.val.prov)
                ex.comps = {}
                for c in L.comps:
                    if c.kind == "poison":
                        self.set_comp(s2, c, None)
                        continue
                    try:
                        t, _ = self.comp_term(o.st, c)
                    except KindMismatch:
                        self.set_comp(s2, c, None)
                        continue
                    if self.const_term(t):
                        k = t
                    else:
                        k = fresh("XC%d" % L.id, self.SORTS[c.kind])
                    ex.comps[c.key] = (t, k)
                    self.set_comp(s2, c, k)
                # temporaries of the body are not tracked
                L.exits.append(ex)
                res.append(Out(kind, s2, val))
        for i, o in enumerate(res):
            for j, ex in enumerate(L.exits):
                if j != i:
                    o.st.pc.append(bnot(ex.flag))
        for ex in L.exits:
            sfin.pc.append(bnot(ex.flag))
        # finals
        for c in L.comps:
            if c.kind == "poison":
                self.set_comp(sfin, c, None)
                continue
            if c.kind == "list" and c.gsegs is not None:
                ident = self.identity_of(L, c, base, seg)
                if ident is not None:
                    c.fin = vconcat(c.init, ident.t)
                    self.set_list(sfin, c, tuple(c.init_val) + (ident,))
                    continue
                w = self.wrap_of(c.gsegs) or "val"
                gt = fresh("G%d" % L.id, smt.SeqV)
                c.fin = vconcat(c.init, gt)
                g = SegG(L, c.gsegs, gt, w)
                self.keep_objects(nxt, sfin, c.gsegs)
                if alive is not None:
                    g = SegS(gt, w)
                self.set_list(sfin, c, tuple(c.init_val) + (g,))
            else:
                if self.const_term(c.next) and c.next.eq(c.init):
                    c.fin = c.init
                else:
                    c.fin = fresh("F%d" % L.id, self.SORTS[c.kind])
                self.set_comp(sfin, c, c.fin)
        if alive is not None:
            # normal termination: the condition is false in the final state
            sub = [(c.cur, c.fin) for c in L.comps if c.kind != "poison" and c.cur is not None]
            a = z3.substitute(L.alive, *sub)
            if z3.is_true(z3.simplify(a)):
                # while True: never exits normally
                res = self.register_unary(L, res)
                self.exit_facts(L)
                self.termination(L, st)
                return res
            self.add_global(list(L.entry_pc) + [bnot(e.flag) for e in L.exits], bnot(a))
        if head is not None:
            for c, t in head[1]:
                self.set_comp(sfin, c, None if t is None else z3.substitute(t, *sub))
        res.append(Out("next" if head is None else "break", sfin))
        res = self.register_unary(L, res)
        if alive is not None:
            self.exit_facts(L)
            self.termination(L, st)
        return res

    def head_break(self, L, outs, npc):
        """`while True` left by one break, under a condition on the state at the head of the loop: the
        condition and what the break leaves in the carried variables, in terms of that state"""
        outs = self.merge_outs(outs)
        if len(outs) != 1:
            return None
        o = outs[0]
        cond = band(*o.st.pc[npc:])
        set_ = []
        for c in L.comps:
            try:
                t = None if c.kind == "poison" else self.comp_term(o.st, c)[0]
            except KindMismatch:
                t = None
            if c.kind == "list":
                if not t.eq(c.cur):
                    return None
            elif t is None or not t.eq(c.cur):
                set_.append((c, t))
        mark = int(L.k.decl().name().rsplit("!", 1)[1])
        own = {c.cur.get_id() for c in L.comps if c.kind != "poison"}
        terms = []
        for t in [cond] + [t for _, t in set_ if t is not None]:
            smt.subterms(t, set(), terms)
        for x in terms:
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.get_id() not in own:
                n = x.decl().name().rsplit("!", 1)
                if len(n) == 2 and n[1].isdigit() and int(n[1]) >= mark:
                    return None
        return cond, set_

    def exit_facts(self, L):
        """what holds when a while loop is left in its body: the exit condition and the
        invariants in some last state, and the values taken out of it. Constants made by the
        body itself stand for one generic iteration; they are renamed apart."""
        mark = int(L.k.decl().name().rsplit("!", 1)[1])
        for ex in L.exits:
            sub = [(L.k, fresh("kx", smt.I))]
            sub += [(c.cur, fresh("x_" + c.cur.decl().name().rsplit("!", 1)[0], c.cur.sort())) for c in L.comps if c.kind != "poison"]
            out = [ex.pconst, ex.flag] + [k for _, k in ex.comps.values()]
            skip = {x.get_id() for x in out if x is not None} | {a.get_id() for a, _ in sub}
            pairs = ([(ex.pconst, ex.payload)] if ex.payload is not None else []) + [(k, t) for t, k in ex.comps.values()]
            body = [ex.cond] + list(L.inv) + [k == t for k, t in pairs if not k.eq(t)]
            terms = []
            smt.subterms(band(*body), set(), terms)
            for x in terms:
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.get_id() not in skip:
                    n = x.decl().name().rsplit("!", 1)
                    if len(n) == 2 and n[1].isdigit() and int(n[1]) > mark:
                        sub.append((x, fresh(n[0], x.sort())))
            for f in body:
                if not z3.is_true(f):
                    f = z3.substitute(f, *sub)
                    self.add_global(list(L.entry_pc) + [ex.flag], f)

    def exc_facts(self, st, t, const):
        """class-membership facts about the raised error that hold at every exiting iteration"""
        ts = []
        smt.subterms(z3.And(*st.pc) if st.pc else z3.BoolVal(True), set(), ts)
        names = {smt.str_const(x.arg(1)) for x in ts if z3.is_app(x) and x.decl().name() == "exc_isa"}
        out = []
        for n in sorted(names):
            g = smt.exc_isa(t, sval(n))
            h = smt.exc_isa(const, sval(n))
            if smt.prove(self.global_facts + st.pc, bnot(g), 1500):
                out.append(bnot(h))
            elif smt.prove(self.global_facts + st.pc, g, 1500):
                out.append(h)
        return out

    def add_global(self, guard, f):
        """a fact about the fresh constants of a loop's final state, valid whenever the
        loop was entered: it is no path condition, so merging must not mistake it for one"""
        guard = [g for g in guard if not z3.is_true(g)]
        f = z3.Implies(band(*guard), f) if guard else f
        if not any(f.eq(g) for g in self.global_facts):
            self.global_facts.append(smt.soft(f))

    def register_unary(self, L, res):
        from . import loops

        for f in loops.unary(self, L):
            self.add_global(L.entry_pc, f)
        if L.inv and L.exits and L.slave_of is None:
            # ways out of the loop that its invariants exclude
            P = self.global_facts + L.entry_pc + L.facts + list(L.inv) + ([L.alive] if L.alive is not None else [])
            for ex in [e for e in L.exits if smt.prove(P, bnot(e.cond), 1500)]:
                self.add_global(L.entry_pc, bnot(ex.flag))
                L.exits.remove(ex)
                res = [o for o in res if not any(p.eq(ex.flag) for p in o.st.pc)]
        return res

    def termination(self, L, st):
        from . import loops

        self.term_obls.append((L.where, self.side, loops.terminates(self, L)))

    def identity_of(self, L, c, base, seg):
        """appended item is exactly the element: the list gains a copy of the base sequence"""
        if L.exits or len(c.gsegs) != 1 or not isinstance(c.gsegs[0], SegE):
            return None
        v = c.gsegs[0].v
        if seg is not None:
            el = self.unbox(self.nth(seg.t, L.k), seg.wrap, seg.prov)
            if same(v, el):
                return SegS(seg.t, seg.wrap, seg.prov)
        if L.slave_of is not None and base is not None:
            root = L.slave_of
            if not root.exits and isinstance(v, SVal) and v.t.eq(self.nth(base, L.k)):
                return SegS(base, v.tag, v.prov)
        return None

    def const_term(self, t):
        if z3.is_app(t) and t.num_args() == 0 and t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            return True
        if smt.is_str_const(t):
            return True
        if z3.is_app(t) and t.num_args() == 0 and t.decl().name() in ("V_NONE", "V_OPT", "V_REQ"):
            return True
        if z3.is_app(t) and t.decl().name() in ("mk_exc", "box_str", "box_int", "box_bool") and all(
            self.const_term(x) for x in t.children()
        ):
            return True
        if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_SEQ_UNIT, z3.Z3_OP_SEQ_CONCAT, z3.Z3_OP_SEQ_EMPTY) and t.sort() == smt.SeqV and all(
            self.const_term(x) for x in t.children()
        ):
            return True
        return False

    def touched(self, a, b):
        for f in a.frames:
            if f not in b.frames:
                continue
            fa, fb = a.frames[f], b.frames[f]
            for k, v in fa.items():
                if k.startswith("$") and not k.startswith("$c"):
                    continue
                if k not in fb or not same(v, fb[k]):
                    yield ("v", f, k)
        for h in a.heap:
            if h in b.heap and b.heap[h] is not a.heap[h]:
                yield ("h", h)
        for g in set(b.glob) | set(a.glob):
            if g not in a.glob or g not in b.glob or not same(a.glob[g], b.glob[g]):
                yield ("g", g)

    def make_comp(self, st, s0, key, kinds, wraps):
        if key[0] == "v":
            _, f, name = key
            if name not in st.frames[f]:
                v = Poison("loop temporary %s" % name)
            else:
                v = st.frames[f][name]
            kind = kinds.get(key) or self.value_kind(st, v)
            c = Comp(key, kind)
            if kind == "poison":
                s0.frames[f][name] = Poison("changes in loop")
                return c
            try:
                c.init = self.as_term(st, v, kind)
            except KindMismatch:
                kinds[key] = "poison"
                c.kind = "poison"
                s0.frames[f][name] = Poison("changes in loop")
                return c
            c.cur = fresh("c_%s" % name, self.SORTS[kind])
            w = "val"
            if kind == "listref":
                w = self.wrap_of(st.heap[v.id].segs) or wraps.get(key) or "val"
            c.wrap = w
            s0.frames[f][name] = self.from_term(s0, c.cur, kind, w)
            return c
        if key[0] == "h":
            rec = st.heap[key[1]]
            if isinstance(rec, IterSt):
                if rec.used is False and kinds.get(key) != "poison" and kinds.get(key) != "val":
                    c = Comp(key, "int")
                    c.init = it_(rec.pos)
                    c.cur = fresh("c_pos", smt.I)
                    s0.heap[key[1]] = IterSt(False, SInt(c.cur))
                    return c
                s0.heap[key[1]] = IterSt(None)
                return Comp(key, "poison")
            if isinstance(rec, MapObj):
                s0.heap[key[1]] = MapObj(rec.fid, rec.key, {}, rec.factory)
                return Comp(key, "poison")
            if not isinstance(rec, ListObj):
                raise Unsupported("loop writes to a %s" % type(rec).__name__)
            kind = kinds.get(key) or "list"
            if kind == "poison":
                raise Unsupported("list changed in loop beyond tracking")
            c = Comp(key, "list")
            c.init_val = rec.segs
            c.init = self.seq_term(st, rec.segs)
            c.cur = fresh("c_l%s" % key[1], smt.SeqV)
            ws = {self.wrap_of(rec.segs), wraps.get(key)} - {None}
            c.wrap = ws.pop() if len(ws) == 1 else "val"
            s0.heap[key[1]] = ListObj((SegS(c.cur, c.wrap),), rec.fresh)
            return c
        raise Unsupported("loop changes module state %s" % (key[1],))

    def comp_term(self, st, c):
        """term of a carried component in state st, and the appended segments if append-only"""
        if c.key[0] == "v":
            v = st.frames[c.key[1]].get(c.key[2], Poison("deleted"))
            if isinstance(v, Poison):
                raise KindMismatch()
            return self.as_term(st, v, c.kind), None
        rec = st.heap[c.key[1]]
        if isinstance(rec, IterSt):
            if rec.used is not False:
                raise KindMismatch()
            return it_(rec.pos), None
        t = self.seq_term(st, rec.segs)
        if rec.segs and isinstance(rec.segs[0], SegS) and rec.segs[0].t.eq(c.cur):
            return t, rec.segs[1:]
        return t, None

    def set_list(self, st, c, segs):
        rec = st.heap[c.key[1]]
        st.heap[c.key[1]] = ListObj(segs, rec.fresh)

    def set_comp(self, st, c, t):
        if c.key[0] == "v":
            if t is None:
                if c.key[2] in st.frames[c.key[1]]:
                    st.frames[c.key[1]][c.key[2]] = Poison("changed in loop")
            else:
                st.frames[c.key[1]][c.key[2]] = v = self.from_term(st, t, c.kind, c.wrap)
                if c.hot:
                    st.frozen |= {v.id}
        elif isinstance(st.heap[c.key[1]], IterSt):
            st.heap[c.key[1]] = IterSt(None) if t is None else IterSt(False, SInt(t))
        elif isinstance(st.heap[c.key[1]], MapObj):
            m = st.heap[c.key[1]]
            st.heap[c.key[1]] = MapObj(m.fid, m.key, {}, m.factory)
        else:
            self.set_list(st, c, (SegS(t, c.wrap),) if t is not None and not smt.is_empty(t) else ())

    def run_open_dict(self, st, d, f, where):
        """Iterate over a dictionary whose key set is unknown.

        First the body runs on an arbitrary key K taken to differ from every key it is compared
        with (these are collected in K.lits): this pass may leave no effect, except that of
        storing the dictionary's own value of K under K in a new dictionary, or of deleting K.
        Then it runs on each collected key in turn, under the condition that the key is present.
        Each of these may only write entries of dictionaries under its own key, and only one of
        them may leave the loop, so that the order of the keys does not matter."""
        (o, view, live), (excl, only) = d[:3], d[3:] or (frozenset(), None)
        if o.base is None or any(isinstance(k, GenKey) for k in o.entries):
            raise Unsupported("iteration over a dictionary with unknown keys")
        if live is not None and st.heap[live] is not o and st.heap[live].entries is not o.entries:
            raise Unsupported("a view of a dictionary changed before it is used")

        def elem(k, v):
            return k if view == "keys" else v if view == "values" else STuple((k, v))

        B = o.base.t
        K = GenKey(z3.Const("key!%d" % self.number(self.fctr), smt.S), B, o.iprov)
        K.lits.update(o.entries)
        own = SVal(smt.get(B, K.t), "json", o.iprov)
        K.lits.update(excl)
        s0 = st.copy()
        s0.pc.append(smt.has(B, K.t))
        if only is None:
            outs = f(s0, elem(K, own))
        else:
            K.lits.update(only)
            outs = [Out("next", st)]
        if not outs:
            raise Unsupported("iteration over a dictionary with unknown keys")
        effect = None
        dirty = set()
        for n, p in enumerate(outs):
            if p.kind not in ("next", "continue"):
                raise Unsupported("loop over a dictionary with unknown keys that an unnamed key can end")
            eff = {}
            self.same_but(st, p.st, dirty, lambda i, a, b: self.generic_effect(K, o, i, a, b, eff))
            if n and eff != effect:
                raise Unsupported("effect of an unnamed key depends on a condition")
            effect = eff
        keys = sorted(K.lits)
        todo = [u for u in keys if u not in excl and (only is None or u in only)]
        items = [(u,) + self.dict_lookup(o, u) for u in todo]
        items = [(u, p, elem(u, v)) for u, p, v in items]
        written = set(effect)
        # concrete keys
        for attempt in range(8):
            r = self.open_dict_keys(st, items, f, written, dirty)
            if r is not None:
                break
        else:
            raise Unsupported("iteration over a dictionary with unknown keys")
        outs, done = r
        if done and effect:
            raise Unsupported("iteration over a dictionary ended early by a key")
        res = []
        for p in outs:
            s = p.st
            for i, (kind, prov) in effect.items():
                x = s.heap[i]
                e = dict(x.entries)
                if kind == "set":
                    for u in keys:
                        e.setdefault(u, (False, None))
                    x = DictObj(e, SVal(B, "json", prov), x.fresh, prov)
                else:
                    for u in keys:
                        if u not in e:
                            e[u] = self.dict_lookup(o, u)
                    x = DictObj(e, None, x.fresh, x.iprov)
                self.write(s, Ref(i), x)
            if live is not None and s.heap[live] is not st.heap[live]:
                # a live view: the key set must not change
                if live in effect and effect[live][0] == "del":
                    raise Unsupported("dictionary changed size during iteration")
                for u in keys:
                    if not self.same_presence(o, s.heap[live], u):
                        raise Unsupported("dictionary changed size during iteration")
            for fid, n in dirty:
                if fid in s.frames and n in s.frames[fid]:
                    s.frames[fid][n] = Poison("set in a loop over a dictionary")
            res.append(Out("next", s))
        return done + self.merge_outs_soft(res)

    def same_presence(self, a, b, u):
        p, q = self.dict_lookup(a, u)[0], self.dict_lookup(b, u)[0]
        return p is q or not isinstance(p, bool) and not isinstance(q, bool) and p.eq(q)

    def same_but(self, a, b, dirty, changed):
        """what a loop body may have changed: variables (collected in dirty) and dictionaries"""
        if len(b.events) != len(a.events) or b.glob != a.glob:
            raise Unsupported("effect in a loop over a dictionary with unknown keys")
        for i, x in a.heap.items():
            y = b.heap.get(i)
            if y is not x:
                if not (isinstance(x, DictObj) and isinstance(y, DictObj)):
                    raise Unsupported("effect in a loop over a dictionary with unknown keys")
                changed(i, x, y)
        for fid, fr in a.frames.items():
            new = b.frames.get(fid)
            if new is None:
                continue
            for n in set(fr) | set(new):
                if not n.startswith("$") and fr.get(n, fr) is not new.get(n, fr):
                    dirty.add((fid, n))

    def generic_effect(self, K, o, i, a, b, eff):
        if set(b.entries) - set(a.entries) != {K} or any(b.entries[k] is not a.entries[k] for k in a.entries) or b.base is not a.base:
            raise Unsupported("effect in a loop over a dictionary with unknown keys")
        p, v = b.entries[K]
        same = a.base is not None and a.base.t.eq(K.base)
        if p is False:
            if not same:
                raise Unsupported("effect in a loop over a dictionary with unknown keys")
            eff[i] = ("del", None)
            return
        if p is not True or not (isinstance(v, SVal) and v.tag == "json" and v.t.eq(smt.get(K.base, K.t))):
            raise Unsupported("value stored for an unnamed key")
        if not same and (a.base is not None or a.entries):
            raise Unsupported("effect in a loop over a dictionary with unknown keys")
        eff[i] = ("set", v.prov)

    def run_set(self, st, items, f, where):
        """iterate over the elements of a finite set in an unknown order"""
        written, dirty = set(), set()
        for attempt in range(8):
            r = self.open_dict_keys(st, items, f, written, dirty)
            if r is not None:
                break
        else:
            raise Unsupported("iteration order of a set")
        for p in r[0]:
            for fid, n in dirty:
                if fid in p.st.frames and n in p.st.frames[fid]:
                    p.st.frames[fid][n] = Poison("set in a loop over a set")
        return r[1] + r[0]

    def open_dict_keys(self, st, items, f, written, dirty):
        """run the body on the named keys (key, presence, element) whatever their order;
        None when `written` had to be extended"""
        live, done, enders = [st], [], 0
        keys = [u for u, _, _ in items]
        n0 = len(written)
        for u, p, el in items:
            nxt, ends = [], False
            for s in live:
                if p is False:
                    nxt.append(Out("next", s))
                    continue
                if p is not True:
                    if self.feasible(s, bnot(p)):
                        s2 = s.copy()
                        s2.pc.append(bnot(p))
                        nxt.append(Out("next", s2))
                    if not self.feasible(s, p):
                        continue
                s2 = s.copy()
                if p is not True:
                    s2.pc.append(p)
                for fid, n in dirty:
                    if fid in s2.frames and n in s2.frames[fid]:
                        s2.frames[fid][n] = Poison("set in a loop over a dictionary")
                saved = {}
                for i in written:
                    x = saved[i] = s2.heap[i]
                    e = dict(x.entries)
                    for w in keys:
                        if w != u:
                            e[w] = (Poison("entry written by another iteration"), Poison("entry written by another iteration"))
                    s2.heap[i] = DictObj(e, x.base, x.fresh, x.iprov)
                before = s2.copy()
                for q in f(s2, el):
                    def changed(i, a, b):
                        if i not in written:
                            written.add(i)
                            return
                        if b.base is not a.base or any(
                            k != u and b.entries.get(k) is not a.entries.get(k) for k in set(a.entries) | set(b.entries)
                        ):
                            raise Unsupported("iteration over a dictionary writes under another key")

                    nd = len(dirty)
                    self.same_but(before, q.st, dirty, changed)
                    if len(dirty) > nd or len(written) > n0:
                        return None
                    if q.kind not in ("next", "continue"):
                        ends = True
                        done.append(q)
                        continue
                    for i, x in saved.items():
                        y = q.st.heap[i]
                        e = dict(x.entries)
                        if u in y.entries:
                            e[u] = y.entries[u]
                        q.st.heap[i] = DictObj(e, y.base, y.fresh, y.iprov)
                    nxt.append(Out("next", q.st))
            enders += ends
            if enders > 1:
                raise Unsupported("iteration over a dictionary that several keys can end")
            live = [q.st for q in self.merge_outs(nxt)]
        return [Out("next", s) for s in live], done


class GenKey(SStr):
    """an arbitrary key of an open dictionary, distinct from the keys in `lits`"""
    __slots__ = ("lits", "base", "prov")

    def __init__(self, t, base, prov):
        SStr.__init__(self, t)
        self.lits, self.base, self.prov = set(), base, prov


class ExcType(Sym):
    """the class of an exception value"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


SET_METHODS = ("difference", "intersection", "union", "issubset", "issuperset", "isdisjoint", "__contains__", "copy")


class NoFit(Exception):
    """a special treatment of a construct does not apply here"""


class KindMismatch(Exception):
    pass


class Maybe(Sym):
    """keyword argument present under a condition"""
    __slots__ = ("p", "v")

    def __init__(self, p, v):
        self.p, self.v = p, v


def is_generator(node):
    """a yield of the function itself (not of a function defined in it)"""
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
            return True
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            stack += ast.iter_child_nodes(n)
    return False


class GlobalRef(Sym):
    """reference to a mutable module-level (or class-level, or default-argument) object"""
    __slots__ = ("host", "key")

    def __init__(self, host, key):
        self.host, self.key = host, key
