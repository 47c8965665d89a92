"""Parsing and serialisation: contracts of from_dict, to_dict, parse_node, parse_mark,
get_fields and is_type_of, and the obligations built from them."""
import dataclasses
import functools
import importlib
import itertools
import z3

from . import smt, specs, wf, engine, loops
from . import builtin_models as bm
from .engine import Obl
from .interp import State, Out
from .smt import sval
from .table import CLASSES
from .values import *

D = z3.Const("D", smt.Val)
WARN = z3.Const("WARN", smt.B)
CHILDLOG = smt.uf("child_log", smt.Val, smt.Val)
SYM = {"node": (smt.PU, smt.PR, smt.PE, smt.PN), "mark": (smt.QU, smt.QR, smt.QE, smt.QN)}


def pkg(name):
    return importlib.import_module("atlas_doc_parser." + name)


def has(base, f):
    return smt.has(base, sval(f))


def get(base, f):
    return smt.get(base, sval(f))


def fields_of(cls):
    return CLASSES[cls]["fields"]


def seq_of(cls, name):
    """'content' / 'marks' when that field of the class holds parsed elements"""
    for n, s, kt in fields_of(cls):
        if n == name and kt[0] == name:
            return s
    return None


# -- well-formed input -----------------------------------------------------------
KIND = {"str": "str", "enum": "str", "int": "int", "bool": "bool", "attrs": "dict", "content": "list", "marks": "list"}


def well_formed(cls, base, guard=None):
    """JSON types of the documented fields that are present"""
    fs = [smt.kind(base) == smt.K["dict"]]
    for n, s, kt in fields_of(cls):
        if kt[0] in KIND:
            fs.append(z3.Implies(has(base, n), smt.kind(get(base, n)) == smt.K[KIND[kt[0]]]))
        else:
            ks = ("int", "float") if kt[0] == "num" else ("none", "bool", "int", "float", "str", "list", "dict")
            fs.append(z3.Implies(has(base, n), bor(*[smt.kind(get(base, n)) == smt.K[k] for k in ks])))
        if kt[0] == "attrs":
            fs += [z3.Implies(has(base, n), f) for f in well_formed(kt[1], get(base, n))]
    return fs


def complete(cls, base):
    """every required field is present, in the attributes too"""
    out = []
    for n, s, kt in fields_of(cls):
        if s == "req":
            out.append(has(base, n))
        if kt[0] == "attrs":
            out.append(z3.Implies(has(base, n), band(*complete(kt[1], get(base, n)))))
    return out


# -- contracts ---------------------------------------------------------------------
def m_get_fields(I, st, a, k):
    """contract of Base.get_fields (discharged by C25): the class's own fields"""
    c = I.resolve(st, a[0])
    if not isinstance(c, type):
        raise Unsupported("get_fields on a computed class")
    return I.alloc(st, DictObj({f.name: (True, f) for f in dataclasses.fields(c)}, None, False))


def boxed(I, st, v):
    v = I.resolve(st, v)
    if isinstance(v, Ref):
        o = st.heap[v.id]
        if isinstance(o, DictObj) and o.base is not None and not o.entries:
            return o.base.t
    return I.box(st, v)


def exc_fields(I, e, **fs):
    for n, t in fs.items():
        I.add_global([], smt.uf("exc_attr_" + n, smt.Exc, smt.Val)(e) == t)


def m_parse(kind):
    U, R, E, P = SYM[kind]

    def model(I, st, a, k):
        """contract of parse_node / parse_mark (discharged by C01-C05 for each class)"""
        if len(a) + len(k) != 1:
            I.throw(st, TypeError, "parse_%s() arguments" % kind)
        x = boxed(I, st, (list(a) + list(k.values()))[0])
        if x.decl().name() == "TD":
            # contract of to_dict and parse_* together, assumed for the (smaller) children of
            # the element whose round trip is being proved: structural induction
            return SVal(x.arg(0), kind, "fresh")
        if I.branch(st, U(x)):
            t = smt.sv(get(x, "type"))
            e = I.mkexc(st, pkg("exc").UnimplementedTypeError, mkstr(t), kind)
            # contract of UnimplementedTypeError (discharged by C01)
            I.add_global([], z3.Contains(smt.exc_str(e.t), t))
            exc_fields(I, e.t, type_value=smt.bs(t), category=smt.bs(sval(kind)))
            raise PyExc(e)
        if I.world.children != "ok" and I.branch(st, R(x)):
            e = E(x)
            smt.register_exc_class(pkg("exc").UnimplementedTypeError)
            I.add_global([], z3.And(smt.exc_isa(e, sval("Exception")), z3.Not(smt.exc_isa(e, sval("UnimplementedTypeError")))))
            raise PyExc(SExc(e))
        if kind == "node" and "LOG" in st.heap:
            bm.list_append(I, st, Ref("LOG"), SVal(CHILDLOG(x), "val"))
        return SVal(P(x), kind, "fresh")

    return model


def spec_models(I):
    def f(i):
        def m(I, st, a, k):
            x = boxed(I, st, a[0])
            kind = a[1] if len(a) > 1 else "node"
            U, R, E, P = SYM[kind]
            if i == "unsupported":
                return mkbool(U(x))
            if i == "broken":
                return False if I.world.children == "ok" else mkbool(R(x))
            if i == "parse_error":
                return SExc(E(x))
            if i == "parsed":
                return SVal(P(x), kind, "fresh")
            if i == "type_string":
                return mkstr(smt.sv(get(x, "type")))
            return SVal(CHILDLOG(x), "val")

        return m

    for n in ("unsupported", "broken", "parse_error", "parsed", "type_string", "child_warnings"):
        I.models[getattr(specs, n)] = f(n)


def log_hook(I, st, level, msg):
    """a warning is recorded by the type string it is proved to name"""
    t = st_(msg)
    if level == "warning":
        cands = []
        for s in subterms(t):
            if s.decl().name() == "get" and smt.is_str_const(s.arg(1)) and smt.str_const(s.arg(1)) == "type":
                cands.append(s)
        cands.sort(key=lambda s: s.arg(0).decl().name() != "elem")
        for c in cands:
            if smt.prove(I.global_facts + st.pc, z3.Contains(t, smt.sv(c)), 1500).ok:
                bm.list_append(I, st, Ref("LOG"), mkstr(smt.sv(c)))
                return
    bm.list_append(I, st, Ref("LOG"), mkstr(smt.sconcat(sval("<%s> " % level), t)))


def subterms(t):
    seen, out = set(), []
    smt.subterms(t, seen, out)
    return [s for s in out if z3.is_app(s)]


def parse_interp(ctx, children="ok", **cfg):
    I = ctx.interp(wf.World(children), **cfg)
    base = pkg("mark_or_node").Base
    I.models[base.__dict__["get_fields"].__func__] = m_get_fields
    I.models[pkg("nodes.parse_node").parse_node] = m_parse("node")
    I.models[pkg("marks.parse_mark").parse_mark] = m_parse("mark")
    spec_models(I)
    I.log_hook = log_hook
    I.cfg.setdefault("settings", {})["WARN_UNIMPLEMENTED_TYPE"] = SBool(WARN)
    return I


def input_state(I, cls, scenario):
    st = State()
    st.heap["LOG"] = ListObj((), True)
    for f in well_formed(cls, D):
        st.pc.append(f)
    for n, p in scenario.items():
        st.pc.append(has(D, n) if p else z3.Not(has(D, n)))
    ref = I.alloc(st, DictObj({}, SVal(D, "json", "borrowed"), False, "borrowed"))
    return st, ref


def scenarios(cls):
    """presence of the element lists (absent only where the format lets them be)"""
    out = [{}]
    for n in ("content", "marks"):
        s = seq_of(cls, n)
        if s == "req":
            out = [dict(o, **{n: True}) for o in out]
        elif s is not None:
            out = [dict(o, **{n: p}) for o in out for p in (True, False)]
    return out


def label(sc):
    return ", ".join("%s %s" % (n, "present" if p else "absent") for n, p in sc.items())


def parse_call(I, s, cls, ref):
    return I.call(s, I.getattr_(s, wf.host(cls), "from_dict"), [ref], {})


def prem(I, *sts):
    out = list(I.global_facts)
    for s in sts:
        for p in s.pc:
            if not any(p.eq(q) for q in out):
                out.append(p)
    return out


def obl(ctx, name, premises, goal, timeout=6000):
    r = smt.prove(premises, goal, timeout)
    ctx.obls.append(Obl(name, r.ok, r.status, r.secs, "" if r.ok else "goal: %s" % str(goal)[:1500]))
    return r.ok


# -- expected values ------------------------------------------------------------------
def is_default(I, st, v, dflt):
    if isinstance(v, SUnion):
        return band(*[z3.Implies(c, is_default(I, st, w, dflt)) for c, w in v.alts])
    if dflt is I.OPT:
        return z3.BoolVal(v is I.OPT)
    if isinstance(v, Sym):
        if isinstance(dflt, str) and is_strlike(v):
            return st_(v) == sval(dflt)
        return z3.BoolVal(False)
    return z3.BoolVal(type(v) is type(dflt) and v == dflt)


def same_field(I, st, v, base, field, elems):
    """formula: field value v is what parsing `base` must give"""
    n, s, kt = field
    h = has(base, n)
    if isinstance(v, SUnion):
        return band(*[z3.Implies(c, same_field(I, st, w, base, field, elems)) for c, w in v.alts])
    present = same_value(I, st, v, base, n, kt, elems)
    if s == "req":
        return z3.And(h, present)
    dflt = I.OPT if s == "opt" else s[1]
    return z3.And(z3.Implies(h, present), z3.Implies(z3.Not(h), is_default(I, st, v, dflt)))


def same_value(I, st, v, base, n, kt, elems):
    g = get(base, n)
    if kt[0] == "attrs":
        return same_inst(I, st, v, kt[1], g, elems)
    if kt[0] in ("content", "marks"):
        if isinstance(v, Ref) and isinstance(st.heap[v.id], ListObj):
            if elems is None:
                return z3.BoolVal(True)
            if n not in elems:
                return z3.BoolVal(False)
            return I.seq_term(st, st.heap[v.id].segs) == elems[n]
        if isinstance(v, SVal):
            return z3.And(smt.kind(v.t) == smt.K["list"], z3.Length(smt.lv(v.t)) == 0)
        return z3.BoolVal(False)
    if isinstance(v, (Closure, Bound, VMethod, Iter, Poison, Super)):
        return z3.BoolVal(False)
    return boxed_plain(I, st, v) == g


def boxed_plain(I, st, v):
    if isinstance(v, Ref):
        o = st.heap[v.id]
        if isinstance(o, DictObj) and o.base is not None and not o.entries:
            return o.base.t
    return I.box(st, v)


def same_inst(I, st, v, cls, base, elems):
    if not isinstance(v, Ref) or not isinstance(st.heap[v.id], Inst):
        return z3.BoolVal(False)
    o = st.heap[v.id]
    names = [f[0] for f in fields_of(cls)]
    if o.cls is not wf.host(cls) or set(o.fields) != set(names):
        return z3.BoolVal(False)
    return band(*[same_field(I, st, o.fields[f[0]], base, f, elems) for f in fields_of(cls)])


# -- obligations -----------------------------------------------------------------------
def run_parse(I, cls, sc, extra=()):
    st, ref = input_state(I, cls, sc)
    st.pc += list(extra)
    outs = engine.run(I, "code", st, lambda s: parse_call(I, s, cls, ref))
    return st, ref, outs


def entries(I, st, n):
    return I.alloc(st, ListObj((SegS(smt.lv(get(D, n)), "json", "borrowed"),), False))


def relate(I, so, co, level):
    R = loops.Relator(I, engine.seps_used(so + co), level)
    return R.run(engine.loops_of(so), engine.loops_of(co))


def seq_value(I, st, v):
    if isinstance(v, SUnion):
        alts = [(c, seq_value(I, st, x)) for c, x in v.alts]
        t = alts[-1][1]
        for c, x in alts[-2::-1]:
            t = z3.If(c, x, t)
        return t
    if isinstance(v, SVal):
        # left unparsed: right only where there is nothing to parse
        return z3.If(smt.kind(v.t) == smt.K["list"], smt.lv(v.t), smt.uf("not_a_list", smt.SeqV)())
    if isinstance(v, Ref) and isinstance(st.heap[v.id], ListObj):
        return I.seq_term(st, st.heap[v.id].segs)
    return smt.uf("not_a_list", smt.SeqV)()


def prove_both(ctx, I, name, so, co, goal):
    """goal(spec outcome, code outcome) for every pair of outcomes that exist"""
    done = {}
    for level in (1, 2):
        F = relate(I, so, co, level)
        for i, s in enumerate(so):
            for j, c in enumerate(co):
                if (i, j) in done and done[i, j].ok:
                    continue
                g = goal(s, c)
                r = smt.prove(prem(I, s.st, c.st) + F, g, 8000 if level == 2 else 2000)
                done[i, j] = Obl("%s: path %s%d/%s%d" % (name, s.kind, i, c.kind, j), r.ok, r.status, r.secs, "" if r.ok else "goal: %s" % str(g)[:1500])
        if all(o.ok for o in done.values()):
            break
    ctx.obls += list(done.values())
    ctx.obls += engine.term_obligations(I, name)


def children(ctx, cls):
    """C02: the element lists are the parse results of the supported entries, in order"""
    for mode in ("ok", "may_fail"):
        for sc in scenarios(cls):
            here = [n for n in ("content", "marks") if sc.get(n)]
            if not here:
                continue
            I = parse_interp(ctx, mode)
            st, ref, co = run_parse(I, cls, sc, complete(cls, D))
            nm = "%s.from_dict (%s)" % (cls, label(sc))

            def spec(order):
                def f(s):
                    r = {}
                    for n in order:
                        r[n] = I.call(s, specs.kept, [entries(I, s, n), "node" if n == "content" else "mark"], {})
                    return STuple([r[n] for n in here])

                return f

            if mode == "ok":
                so = engine.run(I, "spec", st, spec(here))

                def goal(s, c):
                    if c.kind != "ok" or s.kind != "ok":
                        return z3.BoolVal(False)
                    o = c.st.heap[c.val.id] if isinstance(c.val, Ref) else None
                    if not isinstance(o, Inst):
                        return z3.BoolVal(False)
                    return band(*[seq_value(I, c.st, o.fields.get(n)) == seq_value(I, s.st, x) for n, x in zip(here, s.val.items)])

                prove_both(ctx, I, nm + ": kept entries in order", so, co, goal)
                sane(ctx, nm, I, co)
            else:
                def goal(s, c):
                    if s.kind != c.kind:
                        return z3.BoolVal(False)
                    return s.val.t == c.val.t if s.kind == "raise" else z3.BoolVal(True)

                # which of two errors in different lists comes first is not specified
                best = None
                for order in (here, here[::-1]) if len(here) > 1 else (here,):
                    sub = type(ctx)()
                    sub.interps = ctx.interps
                    so = engine.run(I, "spec", st, spec(order))
                    prove_both(sub, I, nm + ": any other error propagates", so, co, goal)
                    if best is None or all(o.ok for o in sub.obls):
                        best = sub.obls
                    if all(o.ok for o in sub.obls):
                        break
                ctx.obls += best


def sane(ctx, name, I, outs):
    ok = any(smt.check(prem(I, o.st), 4000).status != "unsat" for o in outs)
    ctx.obls.append(Obl(name + ": precondition satisfiable (vacuity guard)", ok, "" if ok else "vacuous"))


def warnings(ctx, cls):
    """C03: the log is one warning per skipped entry, exactly when the setting is on"""
    for sc in scenarios(cls):
        here = [n for n in ("content", "marks") if sc.get(n)]
        I = parse_interp(ctx, "ok")
        st, ref, co = run_parse(I, cls, sc, complete(cls, D))
        nm = "%s.from_dict (%s): warnings" % (cls, label(sc))

        def spec(s):
            return STuple([I.call(s, specs.warnings_of, [entries(I, s, n), "node" if n == "content" else "mark", SBool(WARN)], {}) for n in here])

        so = engine.run(I, "spec", st, spec)

        def goal(s, c):
            if c.kind != "ok" or s.kind != "ok":
                return z3.BoolVal(False)
            return I.seq_term(c.st, c.st.heap["LOG"].segs) == smt.vconcat(*[seq_value(I, s.st, x) for x in s.val.items])

        prove_both(ctx, I, nm, so, co, goal)
        sane(ctx, nm, I, co)


def warning_default(ctx):
    """C03: with nothing configured the setting is on and the package's logger emits warnings"""
    import importlib
    import logging

    settings = importlib.import_module("atlas_doc_parser.settings")
    logger = importlib.import_module("atlas_doc_parser.logger").logger
    v = settings.WARN_UNIMPLEMENTED_TYPE
    ctx.obls.append(Obl("WARN_UNIMPLEMENTED_TYPE is on by default", v is True, "evaluated", 0, repr(v)))
    ok = logger.isEnabledFor(logging.WARNING) and not logger.disabled and not logger.filters
    ctx.obls.append(Obl("the package's logger emits warnings by default", ok, "evaluated"))


def fields(ctx, cls):
    """C04: documented fields verbatim, absent ones unset or default, nothing else read"""
    for sc in scenarios(cls) or [{}]:
        I = parse_interp(ctx, "ok")
        st, ref, co = run_parse(I, cls, sc, complete(cls, D))
        nm = "%s.from_dict%s" % (cls, " (%s)" % label(sc) if sc else "")
        for i, c in enumerate(co):
            g = same_inst(I, c.st, c.val, cls, D, None) if c.kind == "ok" else z3.BoolVal(False)
            obl(ctx, "%s: path %s%d: fields as documented" % (nm, c.kind, i), prem(I, c.st), g)
            reads(ctx, I, nm + ": path %d" % i, cls, c)
        sane(ctx, nm, I, co)


def reads(ctx, I, name, cls, o):
    """the outcome does not depend on undocumented keys"""
    ok_keys = {}

    def allow(cls, base):
        ok_keys[base.get_id()] = {f[0] for f in fields_of(cls)}
        for n, s, kt in fields_of(cls):
            if kt[0] == "attrs":
                allow(kt[1], get(base, n))

    keep = []
    allow(cls, D)
    bad = []
    for p in o.st.pc + [x for x in result_terms(I, o)]:
        for t in subterms(p):
            if t.decl().name() in ("get", "has") and t.arg(0).get_id() in ok_keys:
                k = t.arg(1)
                if not smt.is_str_const(k) or smt.str_const(k) not in ok_keys[t.arg(0).get_id()]:
                    bad.append(str(t))
    if bad:
        # the key occurs; is the outcome really a function of it?
        ctx.obls.append(Obl(name + ": independent of undocumented keys", False, "reads an undocumented key", 0, "; ".join(bad[:5])))
    else:
        ctx.obls.append(Obl(name + ": independent of undocumented keys", True))


def result_terms(I, o):
    out = []

    def walk(v):
        if isinstance(v, SUnion):
            for c, w in v.alts:
                out.append(c)
                walk(w)
        elif isinstance(v, Ref):
            r = o.st.heap[v.id]
            if isinstance(r, Inst):
                for x in r.fields.values():
                    walk(x)
            elif isinstance(r, ListObj):
                out.append(I.seq_term(o.st, r.segs))
        elif isinstance(v, Sym):
            try:
                out.append(I.box(o.st, v))
            except Unsupported:
                pass

    if o.kind == "ok":
        walk(o.val)
    return out


def required(ctx, cls):
    """C05: the parameter error exactly when a required field is missing (here or in attrs)"""
    PE = pkg("exc").ParamError
    comp = band(*complete(cls, D))
    for sc in scenarios_free(cls):
        I = parse_interp(ctx, "ok")
        st, ref, co = run_parse(I, cls, sc)
        nm = "%s.from_dict%s" % (cls, " (%s)" % label(sc) if sc else "")
        verdict(ctx, I, nm, co, comp, PE, cls)
        sane(ctx, nm, I, co)
    # construction with any subset of the fields
    I = parse_interp(ctx, "ok")
    st = State()
    st.heap["LOG"] = ListObj((), True)
    for f in well_formed(cls, D):
        st.pc.append(f)
    from .interp import Maybe

    kw = {}
    for f in fields_of(cls):
        v = I.world.plain(I, st, cls, D, f[0], f[2]) if f[2][0] != "attrs" else I.world.make_inst(I, st, f[2][1], get(D, f[0]))
        kw[f[0]] = Maybe(has(D, f[0]), v)
    co = engine.run(I, "code", st, lambda s: I.call(s, wf.host(cls), [], kw))
    own = band(*[has(D, f[0]) for f in fields_of(cls) if f[1] == "req"])
    verdict(ctx, I, cls + "(**fields)", co, own, PE, cls)


def scenarios_free(cls):
    out = [{}]
    for n in ("content", "marks"):
        if seq_of(cls, n) is not None:
            out = [dict(o, **{n: p}) for o in out for p in (True, False)]
    return out


def verdict(ctx, I, nm, co, comp, PE, cls):
    for i, c in enumerate(co):
        if c.kind == "ok":
            obl(ctx, "%s: path ok%d: every required field was given" % (nm, i), prem(I, c.st), comp)
            o = c.st.heap[c.val.id] if isinstance(c.val, Ref) else None
            for n, s, kt in fields_of(cls):
                if s == "req":
                    ok = isinstance(o, Inst) and n in o.fields
                    obl(ctx, "%s: path ok%d: %s is set" % (nm, i, n), prem(I, c.st), is_set(I, o.fields[n]) if ok else z3.BoolVal(False))
        else:
            if c.val.cls is not None:
                isa = z3.BoolVal(issubclass(c.val.cls, PE))
            else:
                smt.register_exc_class(PE)
                isa = smt.exc_isa(c.val.t, sval(PE.__name__))
            obl(ctx, "%s: path raise%d: parameter error, and a required field is missing" % (nm, i), prem(I, c.st), z3.And(isa, z3.Not(comp)))


def is_set(I, v):
    if isinstance(v, SUnion):
        return band(*[z3.Implies(c, is_set(I, w)) for c, w in v.alts])
    return z3.BoolVal(v is not I.OPT and v is not I.REQ)


# -- C01 -----------------------------------------------------------------------------
def table_types(kind):
    return {v["type"]: k for k, v in CLASSES.items() if v["kind"] == kind and v["type"]}


def fd(cls):
    return smt.uf("from_dict:" + cls, smt.Val, smt.Val)


def registry(ctx, kind):
    """parse_node / parse_mark: for every string, the documented class or the documented error"""
    UTE = pkg("exc").UnimplementedTypeError
    I = ctx.interp(wf.World("ok"))
    mod = pkg("nodes.parse_node" if kind == "node" else "marks.parse_mark")
    fn = mod.parse_node if kind == "node" else mod.parse_mark
    base = pkg("mark_or_node").BaseNode if kind == "node" else pkg("mark_or_node").BaseMark

    def m(I, st, a, k):
        c = I.resolve(st, a[0])
        if not isinstance(c, type):
            raise Unsupported("from_dict on a computed class")
        if len(a) + len(k) != 2:
            I.throw(st, TypeError, "from_dict() arguments")
        x = boxed(I, st, (list(a) + list(k.values()))[1])
        return SVal(fd(c.__name__)(x), kind, "fresh")

    seen, todo = [], [base]
    while todo:
        c = todo.pop()
        seen.append(c)
        todo += [d for d in c.__subclasses__() if d not in seen]
        f = c.__dict__.get("from_dict")
        if isinstance(f, classmethod):
            I.models[f.__func__] = m
    st = State()
    T = smt.sv(get(D, "type"))
    st.pc += [smt.kind(D) == smt.K["dict"], has(D, "type"), smt.kind(get(D, "type")) == smt.K["str"]]
    ref = I.alloc(st, DictObj({}, SVal(D, "json", "borrowed"), False, "borrowed"))
    co = engine.run(I, "code", st, lambda s: I.call(s, fn, [ref], {}))
    nm = "parse_" + kind
    types = table_types(kind)
    cover = []
    for i, c in enumerate(co):
        cover.append(band(*c.st.pc))
        P = prem(I, c.st)
        if c.kind == "ok":
            obl(ctx, "%s: path ok%d: only supported types parse" % (nm, i), P, bor(*[T == sval(t) for t in types]))
            for t, cls in types.items():
                if smt.check(P + [T == sval(t)], 2000).status == "unsat":
                    continue
                obl(ctx, "%s: path ok%d: type %r parses to %s from the given dictionary" % (nm, i, t, cls), P + [T == sval(t)], val_is(I, c.st, c.val, fd(cls)(D)))
        else:
            obl(ctx, "%s: path raise%d: only for unsupported types" % (nm, i), P, band(*[T != sval(t) for t in types]))
            e = c.val
            good = e.cls is UTE and len(e.args) == 2
            goal = z3.BoolVal(False)
            if good:
                goal = z3.And(engine.eq_str(I, c.st, e.args[0], T), engine.eq_str(I, c.st, e.args[1], sval(kind)))
            obl(ctx, "%s: path raise%d: unimplemented-type error with the type and the category %s" % (nm, i, kind), P, goal)
    ctx.obls.append(engine.frame_obligations(nm, co))
    sane(ctx, nm, I, co)


def val_is(I, st, v, t):
    if isinstance(v, SUnion):
        return bor(*[band(c, val_is(I, st, w, t)) for c, w in v.alts])
    if isinstance(v, SVal):
        return v.t == t
    return z3.BoolVal(False)


def error_class(ctx):
    """UnimplementedTypeError carries the type and the category, and its text names the type"""
    UTE = pkg("exc").UnimplementedTypeError
    for cat in ("node", "mark"):
        I = ctx.interp(wf.World("ok"))
        st = State()
        T = z3.Const("T", smt.S)
        nm = "UnimplementedTypeError(T, %r)" % cat

        def go(s):
            e = I.alloc(s, Inst(UTE, {}, True))
            c, m = I.find_in_mro(UTE, "__init__")
            I.call_function(s, m, [e, SStr(T), cat], {}, c)
            c, m = I.find_in_mro(UTE, "__str__")
            o = s.heap[e.id]
            if c is BaseException or c is Exception:
                a = o.fields.get("$args", STuple(()))
                text = bm.py_str(I, s, a.items[0]) if len(a.items) == 1 else None
            else:
                text = I.call_function(s, m, [e], {}, c)
            return STuple([o.fields.get("type_value"), o.fields.get("category"), text])

        if not isinstance(I.find_in_mro(UTE, "__init__")[1], type(error_class)):
            raise Unsupported("constructor of UnimplementedTypeError")
        co = engine.run(I, "code", st, go)
        for i, c in enumerate(co):
            if c.kind != "ok":
                ctx.obls.append(Obl("%s: does not raise" % nm, False, "raises"))
                continue
            v, k, t = c.val.items
            obl(ctx, nm + ": type_value", prem(I, c.st), engine.eq_str(I, c.st, v, T))
            obl(ctx, nm + ": category", prem(I, c.st), engine.eq_str(I, c.st, k, sval(cat)))
            obl(ctx, nm + ": message names the type", prem(I, c.st), z3.Contains(st_(t), T) if t is not None and is_strlike(t) else z3.BoolVal(False))
        sane(ctx, nm, I, co)
    ctx.obls.append(Obl("UnimplementedTypeError is an Exception and not a parameter error", issubclass(UTE, Exception) and not issubclass(UTE, (pkg("exc").ParamError, KeyError))))


def own_class(ctx, cls):
    """C01: from_dict of a class yields an instance of that very class"""
    for sc in scenarios(cls) or [{}]:
        I = parse_interp(ctx, "ok")
        st, ref, co = run_parse(I, cls, sc, complete(cls, D))
        nm = "%s.from_dict%s" % (cls, " (%s)" % label(sc) if sc else "")
        for i, c in enumerate(co):
            o = c.st.heap.get(c.val.id) if c.kind == "ok" and isinstance(c.val, Ref) else None
            good = isinstance(o, Inst) and o.cls is wf.host(cls)
            obl(ctx, "%s: path %s%d: an instance of %s" % (nm, c.kind, i, cls), prem(I, c.st), z3.BoolVal(good))
            if good and CLASSES[cls]["type"]:
                t = CLASSES[cls]["type"]
                obl(ctx, "%s: path %s%d: of that type" % (nm, c.kind, i), prem(I, c.st) + [z3.Implies(has(D, "type"), smt.sv(get(D, "type")) == sval(t))], engine.eq_str(I, c.st, o.fields.get("type"), sval(t)))
        sane(ctx, nm, I, co)


# -- C06 -----------------------------------------------------------------------------
def element(I, W, st, cls, sc):
    for n, p in sc.items():
        st.pc.append(has(SELF, n) if p else z3.Not(has(SELF, n)))
    st.pc += well_formed(cls, SELF) + complete(cls, SELF)
    return W.make_self(I, st, cls)


SELF = z3.Const("SELF", smt.Val)


def to_dict(ctx, cls):
    """C06: exactly the set fields, recursively; and parsing it again gives the element back"""
    for sc in scenarios(cls):
        I = parse_interp(ctx, "ok")
        W = I.world
        st = State()
        me = element(I, W, st, cls, sc)
        nm = "%s.to_dict%s" % (cls, " (%s)" % label(sc) if sc else "")
        here = [n for n in ("content", "marks") if sc.get(n)]

        def spec(s):
            return STuple([I.call(s, specs.serialised, [s.heap[me.id].fields[n]], {}) for n in here])

        co = engine.run(I, "code", st, lambda s: I.call(s, I.getattr_(s, me, "to_dict"), [], {}))
        so = engine.run(I, "spec", st, spec)

        def goal(s, c):
            if s.kind != "ok" or c.kind != "ok":
                return z3.BoolVal(False)
            return is_dict_of(I, c.st, c.val, cls, SELF, {n: seq_value(I, s.st, x) for n, x in zip(here, s.val.items)})

        prove_both(ctx, I, nm + ": exactly the set fields", so, co, goal)
        sane(ctx, nm, I, co)
        # the same dictionary under its other name
        co = engine.run(I, "code", st, lambda s: I.call(s, I.getattr_(s, me, "to_kwargs"), [], {}))
        prove_both(ctx, I, nm.replace("to_dict", "to_kwargs") + ": exactly the set fields", so, co, goal)
        # round trip
        nm = "%s.from_dict(to_dict())%s" % (cls, " (%s)" % label(sc) if sc else "")

        def trip(s):
            d = I.call(s, I.getattr_(s, me, "to_dict"), [], {})
            return I.call(s, I.getattr_(s, wf.host(cls), "from_dict"), [d], {})

        s1 = st.copy()
        s1.heap["LOG"] = ListObj((), True)
        co = engine.run(I, "code", s1, trip)
        lists = {n: smt.lv(get(SELF, n)) for n in here}
        F = relate(I, [], co, 1)
        for i, c in enumerate(co):
            g = same_elem(I, c.st, c.val, cls, SELF, lists) if c.kind == "ok" else z3.BoolVal(False)
            obl(ctx, "%s: path %s%d: equal to the element" % (nm, c.kind, i), prem(I, c.st) + F, g)
        sane(ctx, nm, I, co)


def is_dict_of(I, st, v, cls, base, lists):
    if isinstance(v, SUnion):
        return band(*[z3.Implies(c, is_dict_of(I, st, w, cls, base, lists)) for c, w in v.alts])
    o = st.heap.get(v.id) if isinstance(v, Ref) else None
    if not isinstance(o, DictObj) or o.base is not None:
        return z3.BoolVal(False)
    names = {f[0]: f for f in fields_of(cls)}
    fs = []
    for k, (p, w) in o.entries.items():
        if k not in names:
            fs.append(z3.BoolVal(not p) if isinstance(p, bool) else z3.Not(p))
    for n, f in names.items():
        p, w = o.entries.get(n, (False, None))
        p = z3.BoolVal(p) if isinstance(p, bool) else p
        isset = is_present(cls, base, f)
        fs.append(p == isset)
        if not z3.is_false(p):
            fs.append(z3.Implies(z3.And(isset, p), dict_value(I, st, w, cls, base, f, lists)))
    return band(*fs)


def is_present(cls, base, f):
    return has(base, f[0]) if f[1] == "opt" else z3.BoolVal(True)


def dict_value(I, st, w, cls, base, f, lists):
    n, s, kt = f
    if isinstance(w, SUnion):
        return band(*[z3.Implies(c, dict_value(I, st, x, cls, base, f, lists)) for c, x in w.alts])
    if n == "type" and CLASSES[cls]["type"] is not None:
        return engine.eq_str(I, st, w, sval(CLASSES[cls]["type"]))
    if kt[0] == "attrs":
        return is_dict_of(I, st, w, kt[1], get(base, n), {})
    if kt[0] in ("content", "marks"):
        return seq_value(I, st, w) == lists[n] if n in lists else z3.BoolVal(False)
    return same_plain(I, st, w, get(base, n), kt)


def same_plain(I, st, w, g, kt):
    """the value of a field, as the element holds it (strings, numbers by their value)"""
    if isinstance(w, (Closure, Bound, VMethod, Iter, Poison, Super)) or w is I.OPT or w is I.REQ:
        return z3.BoolVal(False)
    t = boxed_plain(I, st, w)
    k = kt[0]
    if k in ("str", "enum"):
        return t == smt.bs(smt.sv(g))
    if k == "int":
        return t == smt.bi(smt.iv(g))
    if k == "bool":
        return t == smt.bb(smt.bv(g))
    return t == g


def same_elem(I, st, v, cls, base, lists):
    if isinstance(v, SUnion):
        return band(*[z3.Implies(c, same_elem(I, st, w, cls, base, lists)) for c, w in v.alts])
    o = st.heap.get(v.id) if isinstance(v, Ref) else None
    if not isinstance(o, Inst) or o.cls is not wf.host(cls) or set(o.fields) != {f[0] for f in fields_of(cls)}:
        return z3.BoolVal(False)
    fs = []
    for f in fields_of(cls):
        fs.append(elem_field(I, st, o.fields[f[0]], cls, base, f, lists))
    return band(*fs)


def elem_field(I, st, v, cls, base, f, lists):
    n, s, kt = f
    if isinstance(v, SUnion):
        return band(*[z3.Implies(c, elem_field(I, st, w, cls, base, f, lists)) for c, w in v.alts])
    if v is I.OPT:
        return z3.Not(is_present(cls, base, f))
    if n == "type" and CLASSES[cls]["type"] is not None:
        return engine.eq_str(I, st, v, sval(CLASSES[cls]["type"]))
    if kt[0] == "attrs":
        g = same_elem(I, st, v, kt[1], get(base, n), {})
    elif kt[0] in ("content", "marks"):
        g = seq_value(I, st, v) == lists[n] if n in lists else z3.BoolVal(False)
    else:
        g = same_plain(I, st, v, get(base, n), kt)
    return z3.And(is_present(cls, base, f), g)


# -- C07 -----------------------------------------------------------------------------
IMMUTABLE = ("none", "bool", "int", "float", "str", "opt", "req")


def shares(I, st, v, P, where="result", seen=None):
    """formulas saying that no mutable data of the caller is reachable from v;
    (name, formula) pairs"""
    seen = set() if seen is None else seen
    out = []
    if isinstance(v, SUnion):
        for c, w in v.alts:
            out += [(n, z3.Implies(c, f)) for n, f in shares(I, st, w, P, where, seen)]
    elif isinstance(v, SVal):
        if v.tag in ("node", "mark"):
            if v.prov != "fresh":
                out.append((where, z3.BoolVal(False)))
        elif v.prov != "fresh":
            out.append((where, bor(*[smt.kind(v.t) == smt.K[k] for k in IMMUTABLE if k in smt.K])))
    elif isinstance(v, STuple):
        for i, x in enumerate(v.items):
            out += shares(I, st, x, P, "%s[%d]" % (where, i), seen)
    elif isinstance(v, Ref):
        if v.id in seen:
            return out
        seen.add(v.id)
        o = st.heap[v.id]
        if isinstance(o, Inst):
            for k, x in o.fields.items():
                out += shares(I, st, x, P, where + "." + k, seen)
        elif not o.fresh:
            out.append((where, z3.BoolVal(False)))
        elif isinstance(o, DictObj):
            for k, (p, x) in o.entries.items():
                if p is False:
                    continue
                fs = shares(I, st, x, P, "%s[%r]" % (where, k), seen)
                out += fs if p is True else [(n, z3.Implies(p, f)) for n, f in fs]
            if o.base is not None and "fresh" not in (o.base.prov, o.iprov):
                out.append((where, z3.BoolVal(False)))
        elif isinstance(o, ListObj):
            out += seg_shares(I, st, o.segs, P, where, seen)
    elif isinstance(v, (list, dict, set)) or type(v).__name__ == "GlobalRef":
        out.append((where + ": module-level object", z3.BoolVal(False)))
    return out


def seg_shares(I, st, segs, P, where, seen):
    out = []
    for s in segs:
        if isinstance(s, SegE):
            out += shares(I, st, s.v, P, where + "[]", seen)
        elif isinstance(s, SegS):
            tag = s.wrap[0] if isinstance(s.wrap, tuple) else s.wrap
            if s.prov != "fresh" and tag != "str":
                out.append((where + "[]", z3.BoolVal(False)))
        elif isinstance(s, SegG):
            for x in s.segs or ():
                if isinstance(x, SegE) and isinstance(x.v, Ref) and x.v.id not in st.heap:
                    out.append((where + "[]", z3.BoolVal(False)))
                else:
                    out += seg_shares(I, st, [x], P, where, seen)
        elif isinstance(s, SegC):
            for c, part in ((s.c, s.a), (z3.Not(s.c), s.b)):
                out += [(n, z3.Implies(c, f)) for n, f in seg_shares(I, st, part, P, where, seen)]
    return out


def no_sharing(ctx, I, nm, outs):
    for i, c in enumerate(outs):
        if c.kind != "ok":
            continue
        P = prem(I, c.st)
        for w, f in shares(I, c.st, c.val, P):
            obl(ctx, "%s: path ok%d: shares no mutable data (%s)" % (nm, i, w), P, f)
        ctx.obls.append(Obl("%s: path ok%d: result examined" % (nm, i), True))


def only_writes(fn):
    """a task about what is written: module-level lists have arbitrary contents, and a write
    the executor met counts even where it could not follow the function to its end"""

    @functools.wraps(fn)
    def task(ctx, *args):
        make, n0 = ctx.interp, len(bm.NOTED)

        def interp(world, **cfg):
            world.open_globals = True
            return make(world, **cfg)

        ctx.interp = interp
        try:
            fn(ctx, *args)
        except Unsupported:
            ev = sorted({str(e) for e in bm.NOTED[n0:]})
            if not ev:
                raise
            ctx.obls.append(Obl("%s: modifies nothing that existed before the call" % args[0], False, "", 0, "; ".join(ev)))
        finally:
            del ctx.interp

    return task


@only_writes
def pure_parse(ctx, cls):
    for mode in ("ok", "may_fail") if seq_of(cls, "content") or seq_of(cls, "marks") else ("ok",):
        for sc in scenarios(cls):
            I = parse_interp(ctx, mode)
            st, ref, co = run_parse(I, cls, sc)
            nm = "%s.from_dict%s%s" % (cls, " (%s)" % label(sc) if sc else "", "" if mode == "ok" else ", children may fail")
            ctx.obls.append(engine.frame_obligations(nm, co))
            if CLASSES[cls]["kind"] in ("node", "mark"):
                no_sharing(ctx, I, nm, co)
            sane(ctx, nm, I, co)


@only_writes
def pure_to_dict(ctx, cls):
    for sc in scenarios(cls):
        I = parse_interp(ctx, "ok")
        st = State()
        me = element(I, I.world, st, cls, sc)
        co = engine.run(I, "code", st, lambda s: I.call(s, I.getattr_(s, me, "to_dict"), [], {}))
        nm = "%s.to_dict%s" % (cls, " (%s)" % label(sc) if sc else "")
        ctx.obls.append(engine.frame_obligations(nm, co))
        no_sharing(ctx, I, nm, co)
        sane(ctx, nm, I, co)


@only_writes
def pure_render(ctx, cls):
    from . import props

    W = wf.World("may_fail")
    I = ctx.interp(W)
    st = State()
    me = W.make_self(I, st, cls)
    if CLASSES[cls]["kind"] == "mark":
        args, kw = [SStr(z3.Const("TEXT", smt.S))], {}
    else:
        args, kw = [], props.md_args(I, W, st, cls, me, props.IE())[1]
    co = engine.run(I, "code", st, lambda s: I.call(s, I.getattr_(s, me, "to_markdown"), args, kw))
    nm = cls + ".to_markdown"
    ctx.obls.append(engine.frame_obligations(nm, co))
    props.sane(ctx, nm, I, co)


@only_writes
def pure_dispatch(ctx, kind):
    registry(ctx, kind)
    ctx.obls = [o for o in ctx.obls if "modifies nothing" in o.name or "vacuity" in o.name]


# -- C25 -----------------------------------------------------------------------------
def universe():
    """every class of the package that has fields, and classes that could be mistaken for
    one of them: same name, derived with and without new fields"""
    base = pkg("mark_or_node").Base
    for n in CLASSES:
        wf.host(n)
    out, todo = [], [base]
    while todo:
        c = todo.pop(0)
        if c not in out:
            out.append(c)
            todo += c.__subclasses__()
    out = [c for c in out if not getattr(c, "_dv_extra", False)]
    extra = []

    def make(name, parent, *new):
        ns = {"_dv_extra": True, "__annotations__": {n: str for n in new}, "__module__": parent.__module__}
        ns.update({n: dataclasses.field(default="") for n in new})
        c = type(name, (parent,), ns)
        extra.append(dataclasses.dataclass(frozen=True)(c) if new else c)

    for n in ("NodeText", "NodeParagraph", "NodeMedia", "MarkLink", "NodePanelAttrs"):
        h = wf.host(n)
        make(n, h, "extra")
        make(n + "Derived", h, "more")
        make(n + "Plain", h)
        make(n, h.__mro__[1], "other")
    return out + extra


class CacheWorld(wf.World):
    """module-level dictionaries hold whatever earlier calls may have left in them"""

    def __init__(self):
        super().__init__()
        self.inv = {}  # global key -> {dict key: [{field name: Field}]}
        self.shared = False  # other threads run the same code meanwhile
        self.ctr = itertools.count()

    def value(self, I, st, i, vals, tag=""):
        alts, rest = [], []
        for j, val in enumerate(vals):
            r = I.alloc(st, DictObj({n: (True, f) for n, f in val.items()}, None, False))
            b = z3.Bool("choice%d_%d%s" % (i, j, tag))
            alts.append((band(*(rest + ([b] if j < len(vals) - 1 else []))), r))
            rest.append(z3.Not(b))
        return alts[0][1] if len(alts) == 1 else SUnion(alts)

    def global_init(self, I, st, g):
        e = {}
        for i, (k, vals) in enumerate(self.inv.get(tuple(g.key), {}).items()):
            e[k] = (z3.Bool("cached%d" % i), self.value(I, st, i, vals))
        return DictObj(e, None, False)

    def interfere(self, I, st, g, o):
        """rely: between two accesses other threads may have stored anything the invariant
        allows (they never remove an entry: the guarantee is checked on this same code)"""
        if not self.shared:
            return None
        n = I.number(self.ctr)
        e = dict(o.entries)
        for i, (k, vals) in enumerate(self.inv.get(tuple(g.key), {}).items()):
            p, v = e.get(k, (False, None))
            b = z3.Bool("meanwhile%d_%d" % (i, n))
            p = p if p is True else b if p is False else z3.Or(p, b)
            if v is None or len(vals) > 1:
                v = self.value(I, st, i, vals, "_%d" % n)
            e[k] = (p, v)
        return DictObj(e, o.base, o.fresh, o.iprov)


def as_fields(I, st, v):
    """a concrete dictionary of dataclass fields, or None"""
    if isinstance(v, dict):
        return v
    o = st.heap.get(v.id) if isinstance(v, Ref) else None
    if not isinstance(o, DictObj) or o.base is not None or any(p is not True for p, _ in o.entries.values()):
        return None
    return {n: f for n, (p, f) in o.entries.items()}


def cache_entries(I, st):
    out = {}
    for key, ref in st.glob.items():
        if isinstance(key, tuple) and key and key[0] == "cell":
            o = st.heap[ref.id]
            if not isinstance(o, DictObj) or o.base is not None:
                raise Unsupported("cache contents")
            out[tuple(key[1:])] = dict(o.entries)
    return out


def alts_of(v):
    return [w for c, w in v.alts] if isinstance(v, SUnion) else [v]


def field_lookup_shared(ctx):
    """C27: the same under interference of other threads (rely/guarantee)"""
    field_lookup(ctx, True)


def field_lookup(ctx, shared=False):
    """C25: an inductive invariant of the cache, over any history of calls"""
    W = CacheWorld()
    W.shared = shared
    I = ctx.interp(W)
    classes = universe()

    def run(c):
        st = State()
        return engine.run(I, "code", st, lambda s: I.call(s, I.getattr_(s, c, "get_fields"), [], {}))

    def grow(c, outs):
        new = False
        for o in outs:
            for g, ents in cache_entries(I, o.st).items():
                for k, (p, v) in ents.items():
                    if p is False:
                        continue
                    for w in alts_of(v):
                        d = as_fields(I, o.st, w)
                        if d is None:
                            raise Unsupported("cached value")
                        vals = W.inv.setdefault(g, {}).setdefault(k, [])
                        if d not in vals:
                            vals.append(dict(d))
                            new = True
        return new

    rounds = 0
    while True:
        rounds += 1
        results = {c: run(c) for c in classes}
        if not any([grow(c, results[c]) for c in classes]):
            break
        if rounds > 4:
            raise Unsupported("the contents of the cache do not stabilise")
    for c in classes:
        want = {f.name: f for f in dataclasses.fields(c)}
        bad = []
        for o in results[c]:
            if o.kind != "ok":
                bad.append("raises %s" % (o.val,))
                continue
            for w in alts_of(I.prune(o.st, o.val)):
                d = as_fields(I, o.st, w)
                if d != want or d is None or list(d) != list(want):
                    bad.append("got %s" % (sorted(d) if d is not None else w))
        ctx.obls.append(Obl("%s.get_fields: own fields whatever was looked up before" % c.__name__, not bad, "" if not bad else "sat", 0, "; ".join(map(str, bad))[:600]))
        if shared:
            ev = [e for o in results[c] for e in o.st.events if e[0] == "frame" or (e[0] == "global" and e[2] != "store")]
            ctx.obls.append(Obl("%s.get_fields: guarantee: only stores complete entries" % c.__name__, not ev, "", 0, "; ".join(map(str, ev))[:600]))
    ctx.obls.append(Obl("cache invariant is inductive over %d classes (%d rounds)" % (len(classes), rounds), True))
    ctx.obls.append(Obl("cache invariant is not vacuous", bool(results)))


@only_writes
def fields_untouched(ctx, cls):
    """parsing never writes to the field dictionary it was given, nor to other module state"""
    I = parse_interp(ctx, "may_fail")
    for sc in scenarios(cls):
        st, ref, co = run_parse(I, cls, sc)
        ctx.obls.append(engine.frame_obligations("%s.from_dict%s" % (cls, " (%s)" % label(sc) if sc else ""), co))


# -- C26 -----------------------------------------------------------------------------
def unset_test(ctx):
    """C04: is_opt recognises the unset state, and nothing else"""
    for c in sorted({next(k for k in wf.host(n).__mro__ if "is_opt" in k.__dict__) for n in CLASSES if hasattr(wf.host(n), "is_opt")}, key=lambda k: k.__name__):
        for nm, v, want in (("unset", None, True), ("value", SVal(z3.Const("VALUE", smt.Val), "json", "borrowed"), False)):
            I = ctx.interp(wf.World("ok"))
            st = State()
            st.pc += [smt.kind(v.t) != smt.K[k] for k in ("opt", "req") if v is not None and k in smt.K]
            me = I.alloc(st, Inst(c, {}, False))
            co = engine.run(I, "code", st, lambda s: I.call(s, I.getattr_(s, me, "is_opt"), [I.OPT if v is None else v], {}))
            verdicts(ctx, I, "%s.is_opt(%s)" % (c.__name__, nm), co, z3.BoolVal(want))


def type_test(ctx):
    TE = pkg("type_enum").TypeEnum
    base = pkg("mark_or_node").BaseMarkOrNode
    T = SStr(z3.Const("T", smt.S))

    def receiver(I, st, c):
        return I.alloc(st, Inst(c, {"type": T}, False))

    # one receiver per implementation of is_type_of
    impl = {}
    for c in [base] + base.__subclasses__() + [wf.host(c) for c in CLASSES if CLASSES[c]["kind"] in ("node", "mark")]:
        for k in c.__mro__:
            if "is_type_of" in k.__dict__:
                impl.setdefault(k, c)
                break
    for k, c in impl.items():
        for m in TE:
            I = ctx.interp(wf.World("ok"))
            st = State()
            me = receiver(I, st, c)
            co = engine.run(I, "code", st, lambda s: I.call(s, I.getattr_(s, me, "is_type_of"), [m], {}))
            verdicts(ctx, I, "%s.is_type_of(TypeEnum.%s)" % (k.__name__, m.name), co, T.t == sval(m.value))
        I = ctx.interp(wf.World("ok"))
        st = State()
        me = receiver(I, st, c)
        L = z3.Const("EXPECTED", smt.SeqV)
        ref = I.alloc(st, ListObj((SegS(L, ("enum", TE), "borrowed"),), False))
        nm = "%s.is_type_of(list)" % k.__name__
        so = engine.run(I, "spec", st, lambda s: I.call(s, specs.is_one_of, [T, ref], {}))
        co = engine.run(I, "code", st, lambda s: I.call(s, I.getattr_(s, me, "is_type_of"), [ref], {}))

        def goal(s, c):
            if s.kind != "ok" or c.kind != "ok":
                return z3.BoolVal(False)
            return truth_term(c.val) == truth_term(s.val)

        prove_both(ctx, I, nm, so, co, goal)
        sane(ctx, nm, I, co)
        # the empty list
        I = ctx.interp(wf.World("ok"))
        st = State()
        me = receiver(I, st, c)
        ref = I.alloc(st, ListObj((), False))
        co = engine.run(I, "code", st, lambda s: I.call(s, I.getattr_(s, me, "is_type_of"), [ref], {}))
        verdicts(ctx, I, "%s.is_type_of([])" % k.__name__, co, z3.BoolVal(False))


def truth_term(v):
    if isinstance(v, SUnion):
        t = truth_term(v.alts[-1][1])
        for c, w in reversed(v.alts[:-1]):
            t = z3.If(c, truth_term(w), t)
        return t
    if is_boollike(v):
        return bt_(v)
    return smt.uf("not_a_bool", B_)()


B_ = smt.B


def verdicts(ctx, I, nm, co, want):
    for i, c in enumerate(co):
        if c.kind != "ok":
            ctx.obls.append(Obl("%s: path raise%d" % (nm, i), False, "raises"))
        else:
            obl(ctx, "%s: path %d" % (nm, i), prem(I, c.st), truth_term(c.val) == want)
