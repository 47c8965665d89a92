"""Tests the trusted base against CPython.

Lemma schemata: each schema of dv/smt.py is instantiated on terms built from constants and variables, and every fact it
yields is evaluated with the Python functions the symbols stand for.
Contracts of built-ins: each function of dv/cases.py is executed symbolically; on sample arguments some path must admit
the result CPython returns (soundness) and, where the contract is exact, no path admits another one (counted only).

python3-vt -m dv.selftest [seed] [n]     exit 1 when a lemma or a contract contradicts CPython
"""
import inspect
import random
import re
import sys
import time

import z3

from . import smt
from .smt import S, I as Int, B, Val, SeqV, sval


class Unknown(Exception):
    pass


class Sentinel:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


OPT, REQ = Sentinel("OPT"), Sentinel("REQ")


def kind_of(v):
    if v is None:
        return "none"
    if v is OPT:
        return "opt"
    if v is REQ:
        return "req"
    for t, k in ((bool, "bool"), (int, "int"), (float, "float"), (str, "str"), (list, "list"), (dict, "dict")):
        if isinstance(v, t):
            return k
    return "other"


def str_of(v):
    return v if isinstance(v, str) else ""


def same(a, b):
    """equality of two model values (True and 1 are different values)"""
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def collapse(s):
    return re.sub("\n{3,}", "\n\n", s)


def nonempty(f):
    def g(s, x, *a):
        if x == "":
            raise Unknown
        return f(s, x, *a)

    return g


def day(n):
    import datetime

    try:
        return str(datetime.date(1970, 1, 1) + datetime.timedelta(days=n))
    except OverflowError:
        raise Unknown


def intval(s):
    try:
        return int(s)
    except ValueError:
        raise Unknown


def isint(s):
    try:
        int(s)
        return True
    except ValueError:
        return False


def indent(pred):
    import textwrap

    return lambda s, p: textwrap.indent(s, p, (lambda l: True) if pred else None)


def index_of(L, x):
    for i, y in enumerate(L):
        if same(x, y):
            return i
    return 0


INTERP = {
    "kind": lambda v: smt.K[kind_of(v)],
    "box_str": lambda s: s, "box_int": lambda n: n, "box_bool": lambda b: b, "box_list": lambda l: l,
    "str_of": str_of, "int_of": lambda v: v if kind_of(v) == "int" else 0, "bool_of": lambda v: v is True,
    "list_of": lambda v: v if isinstance(v, list) else [],
    "truthy": lambda v: v not in (OPT, REQ) and bool(v),
    "val_str": str,
    "strip": str.strip, "lstrip": str.lstrip, "rstrip": str.rstrip,
    "strip_chars": str.strip, "lstrip_chars": str.lstrip, "rstrip_chars": str.rstrip,
    "replace_all": str.replace, "split": nonempty(str.split), "splitlines": str.splitlines,
    "splitlines_keep": lambda s: s.splitlines(True), "split_ws": str.split,
    "join": lambda sep, L: sep.join(map(str_of, L)),
    "upper": str.upper, "lower": str.lower, "collapse_newlines": collapse,
    "indent_all": indent(True), "indent_nonblank": indent(False),
    "repeat": lambda s, n: s * n, "int_to_str": str, "all_free_of": lambda c, L: all(c not in str_of(x) for x in L),
    "int_ok": isint, "int_val": intval, "iso_day": day,
    "elem": lambda L, k: L[k] if 0 <= k < len(L) else None,
    "list_repeat": lambda L, n: L * n,
    "member": lambda L, x: any(same(x, y) for y in L), "index_of": index_of,
    "seq_reverse": lambda L: L[::-1], "str_count": str.count,
}
INTERP.update({"str_" + n: getattr(str, n) for n in ("isdigit", "isalpha", "isupper", "islower", "isalnum", "isnumeric", "istitle")})


def sub(s, i, n):
    """z3's extract"""
    return s[i:i + n] if 0 <= i < len(s) and n > 0 else s[:0]


def ev(t, env):
    """value of a term under CPython's reading of the symbols"""
    if z3.is_string_value(t):
        return smt.str_const(t)
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return t.as_fraction()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    if not z3.is_app(t):
        raise Unknown
    d, a = t.decl(), t.children()
    k, n = d.kind(), d.name()
    if not a:
        if n in env:
            return env[n]
        if n in ("V_NONE", "V_OPT", "V_REQ"):
            return {"V_NONE": None, "V_OPT": OPT, "V_REQ": REQ}[n]
        if k == z3.Z3_OP_SEQ_EMPTY:
            return [] if t.sort() == SeqV else ""
        raise Unknown
    if k == z3.Z3_OP_ITE:
        return ev(a[1] if ev(a[0], env) else a[2], env)
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_IMPLIES):
        absorb = k == z3.Z3_OP_OR
        unknown = False
        for i, x in enumerate(a):
            try:
                v = ev(x, env)
            except Unknown:
                unknown = True
                continue
            if k == z3.Z3_OP_IMPLIES:
                if (i == 0 and not v) or (i == 1 and v):
                    return True
            elif v is absorb:
                return absorb
        if unknown:
            raise Unknown
        return False if k == z3.Z3_OP_IMPLIES else not absorb
    v = [ev(x, env) for x in a]
    if k == z3.Z3_OP_UNINTERPRETED:
        f = INTERP.get(n)
        if f is None:
            raise Unknown
        return f(*v)
    if k == z3.Z3_OP_NOT:
        return not v[0]
    if k == z3.Z3_OP_EQ:
        return same(v[0], v[1])
    if k == z3.Z3_OP_DISTINCT:
        return not same(v[0], v[1])
    if k == z3.Z3_OP_ADD:
        return sum(v)
    if k == z3.Z3_OP_MUL:
        r = 1
        for x in v:
            r *= x
        return r
    if k == z3.Z3_OP_SUB:
        return v[0] - sum(v[1:])
    if k == z3.Z3_OP_UMINUS:
        return -v[0]
    cmp = {z3.Z3_OP_LE: "__le__", z3.Z3_OP_LT: "__lt__", z3.Z3_OP_GE: "__ge__", z3.Z3_OP_GT: "__gt__"}
    if k in cmp:
        return getattr(v[0], cmp[k])(v[1])
    if k == z3.Z3_OP_SEQ_CONCAT:
        r = v[0]
        for x in v[1:]:
            r = r + x
        return r
    if k == z3.Z3_OP_SEQ_LENGTH:
        return len(v[0])
    if k == z3.Z3_OP_SEQ_CONTAINS:
        if isinstance(v[0], str):
            return v[1] in v[0]
        m = len(v[1])
        return any(same(v[0][i:i + m], v[1]) for i in range(len(v[0]) - m + 1))
    if k == z3.Z3_OP_SEQ_PREFIX:
        return same(v[1][:len(v[0])], v[0])
    if k == z3.Z3_OP_SEQ_SUFFIX:
        return same(v[1][len(v[1]) - len(v[0]):], v[0]) if len(v[0]) <= len(v[1]) else False
    if k == z3.Z3_OP_SEQ_UNIT:
        return [v[0]]
    if k == z3.Z3_OP_SEQ_EXTRACT:
        return sub(*v)
    if k == z3.Z3_OP_SEQ_NTH:
        return v[0][v[1]] if 0 <= v[1] < len(v[0]) else None
    if k == z3.Z3_OP_SEQ_INDEX:
        return v[0].find(v[1], v[2] if len(v) > 2 else 0)
    if k == z3.Z3_OP_TO_REAL:
        from fractions import Fraction

        return Fraction(v[0])
    if k == z3.Z3_OP_TO_INT:
        import math

        return math.floor(v[0])
    if k == z3.Z3_OP_DIV:
        from fractions import Fraction

        if v[1] == 0:
            raise Unknown
        return Fraction(v[0]) / v[1]
    if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
        if v[1] == 0:
            raise Unknown
        q = v[0] // v[1] if v[1] > 0 else -(v[0] // -v[1])
        return q if k == z3.Z3_OP_IDIV else v[0] - q * v[1]
    raise Unknown


# ------------------------------------------------------------------ samples ---
ALPHA = ["\n", " ", "a", "b", "|", "\t", "\r", "x", "`", "\x0b", "\x1c", "\x85", "\u2028", "\u00e9", "\u0130", "\u00df", "\ufb03", "\u3000"]
WORDS = ["", "a", "ab", "\n", "\n\n", "\n\n\n", "\n\n\n\n", "a\nb", "  a ", "0", "12", "-3", " 7 ", "a|b", "\\|", "aa", "\u00df", "True", "None"]


def rstr(r):
    if r.random() < 0.4:
        return r.choice(WORDS)
    return "".join(r.choice(ALPHA[:5] if r.random() < 0.7 else ALPHA) for _ in range(r.randrange(0, 9)))


def rval(r, deep=True):
    x = r.random()
    if x < 0.6:
        return rstr(r)
    if x < 0.7:
        return r.randrange(-3, 9)
    if x < 0.78:
        return r.random() < 0.5
    if x < 0.86:
        return r.choice([None, OPT, REQ])
    return [rval(r, False) for _ in range(r.randrange(0, 3))] if deep else "z"


def rlist(r):
    return [rval(r) if r.random() < 0.3 else rstr(r) for _ in range(r.randrange(0, 5))]


VARS = {}
for nm, so in (("s0", S), ("s1", S), ("s2", S), ("k0", Int), ("k1", Int), ("b0", B), ("v0", Val), ("v1", Val), ("l0", SeqV), ("l1", SeqV), ("l2", SeqV)):
    VARS[nm] = z3.Const(nm, so)


def renv(r):
    f = {S: rstr, Int: lambda r: r.randrange(-3, 8), B: lambda r: r.random() < 0.5, Val: rval, SeqV: rlist}
    return {n: next(g for so, g in f.items() if v.sort() == so)(r) for n, v in VARS.items()}


CONSTS = ["\n", "\n\n", "\n\n\n", "|", " ", "a", "ab", "", "#", "    ", "\\|"]


def rterm(r, so, depth):
    V = [v for v in VARS.values() if v.sort() == so]
    if depth <= 0 or r.random() < 0.2:
        if so == S and r.random() < 0.4:
            return sval(r.choice(CONSTS))
        if so == SeqV and r.random() < 0.2:
            return smt.E_
        return r.choice(V)
    t = lambda q: rterm(r, q, depth - 1)
    c = lambda: sval(r.choice(CONSTS))
    one = lambda: sval(r.choice(["\n", "|", "a", " "]))
    if so == S:
        f = [lambda: smt.strip(t(S)), lambda: smt.lstrip(t(S)), lambda: smt.rstrip(t(S)), lambda: smt.cstrip(t(S), c()),
             lambda: smt.clstrip(t(S), r.choice([one, c])()), lambda: smt.crstrip(t(S), c()),
             lambda: smt.replace(t(S), r.choice([c, one])(), c()), lambda: smt.replace(t(S), smt.NL3, smt.NL2),
             lambda: smt.join(r.choice([c, c, lambda: t(S)])(), t(SeqV)), lambda: smt.join(c(), t(SeqV)), lambda: smt.upper(t(S)), lambda: smt.lower(t(S)),
             lambda: smt.collapse(t(S)), lambda: smt.repeat(r.choice([c, lambda: t(S)])(), t(Int)), lambda: smt.itos(t(Int)),
             lambda: smt.indent(t(S), c()), lambda: smt.sv(t(Val)), lambda: smt.sconcat(t(S), t(S)), lambda: z3.If(t(B), t(S), t(S)),
             lambda: smt.val_str(t(Val)), lambda: z3.SubString(t(S), t(Int), t(Int))]
    elif so == SeqV:
        f = [lambda: smt.split(t(S), r.choice(["\n", "|", "\n\n", "a"]) and one()), lambda: smt.vconcat(t(SeqV), z3.Unit(t(Val))),
             lambda: smt.vconcat(z3.Unit(t(Val)), t(SeqV)), lambda: z3.Unit(t(Val)), lambda: z3.If(t(B), t(SeqV), t(SeqV)),
             lambda: smt.vconcat(t(SeqV), t(SeqV)), lambda: smt.lrep(z3.Unit(smt.bs(c())), t(Int)), lambda: smt.lrep(t(SeqV), t(Int)), lambda: smt.reverse_(t(SeqV)), lambda: z3.SubSeq(t(SeqV), t(Int), t(Int)),
             lambda: smt.lv(t(Val)), lambda: smt.split(t(S), smt.NL2), lambda: smt.split(t(S), sval("ab"))]
    elif so == Val:
        f = [lambda: smt.bs(t(S)), lambda: smt.bi(t(Int)), lambda: smt.bb(t(B)), lambda: smt.bl(t(SeqV)), lambda: smt.at(t(SeqV), t(Int)), lambda: smt.V_NONE]
    elif so == Int:
        f = [lambda: z3.Length(t(S)), lambda: z3.Length(t(SeqV)), lambda: t(Int) + r.randrange(1, 4), lambda: smt.iv(t(Val)), lambda: smt.kind(t(Val)),
             lambda: smt.idx(t(SeqV), t(Val)), lambda: z3.IndexOf(t(S), c(), z3.IntVal(0)), lambda: z3.IntVal(r.randrange(-1, 4))]
    else:
        f = [lambda: smt.mem(t(SeqV), t(Val)), lambda: smt.allfree(one(), t(SeqV)), lambda: smt.truthy(t(Val)), lambda: z3.Contains(t(S), c()), lambda: z3.PrefixOf(smt.repeat(one(), t(Int)), t(S)), lambda: smt.bv(t(Val))]
    return r.choice(f)()


def lemmas(seed, n, envs=12):
    r = random.Random(seed)
    facts = skipped = 0
    heads = {}
    bad = []
    for _ in range(n):
        t = rterm(r, r.choice([S, S, SeqV, Val, Int, B]), r.randrange(1, 4))
        seen, terms = set(), []
        smt.subterms(t, seen, terms)
        for x in terms:
            fs = smt.lemmas_for(x) + smt.nth_lemmas(x)
            if not fs:
                continue
            h = x.decl().name()
            for _ in range(envs):
                env = renv(r)
                for f in fs:
                    try:
                        v = ev(f, env)
                    except Unknown:
                        skipped += 1
                        continue
                    facts += 1
                    heads[h] = heads.get(h, 0) + 1
                    if v is not True and len(bad) < 20:
                        bad.append("lemma of %s: %s under %s" % (h, z3.simplify(f), {k: w for k, w in env.items() if k in str(f)}))
    for _ in range(n):
        f = smt.counted_run(rterm(r, S, 1), r.choice("\n |a"), rterm(r, Int, 1))
        for _ in range(envs):
            facts += 1
            if ev(f, renv(r)) is not True and len(bad) < 20:
                bad.append("lemma counted_run: %s" % z3.simplify(f))
    for f in smt.BASE_FACTS:
        if ev(f, {}) is not True:
            bad.append("base fact %s" % f)
    return facts, skipped, heads, bad


# ------------------------------------------------------- contracts of built-ins ---
ARGS = {"s": S, "t": S, "u": S, "n": Int, "m": Int, "b": B, "c": B, "xs": SeqV, "ys": SeqV}


def lit(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, str):
        return sval(v)
    if isinstance(v, list):
        return smt.vconcat(*[z3.Unit(boxlit(x)) for x in v])
    raise Unknown


def boxlit(v):
    if v is None:
        return smt.V_NONE
    if isinstance(v, bool):
        return smt.bb(z3.BoolVal(v))
    if isinstance(v, int):
        return smt.bi(z3.IntVal(v))
    if isinstance(v, str):
        return smt.bs(sval(v))
    if isinstance(v, list):
        return smt.bl(lit(v))
    raise Unknown


def agree(I, st, v, want):
    """formula: the symbolic value v is the Python value want"""
    from . import values as W
    from .engine import eq_str

    v = I.resolve(st, v) if not isinstance(v, W.SUnion) else v
    if isinstance(v, W.SUnion):
        return W.bor(*[W.band(c, agree(I, st, w, want)) for c, w in v.alts])
    if isinstance(v, W.STuple) or isinstance(v, tuple):
        xs = v.items if isinstance(v, W.STuple) else v
        if not isinstance(want, tuple) or len(xs) != len(want):
            return z3.BoolVal(False)
        return W.band(*[agree(I, st, x, y) for x, y in zip(xs, want)])
    if isinstance(v, W.SVal):
        try:
            return v.t == boxlit(want)
        except Unknown:
            return z3.BoolVal(True)
    if isinstance(want, bool):
        if not W.is_boollike(v):
            return z3.BoolVal(False)
        return W.bt_(v) == z3.BoolVal(want)
    if isinstance(want, str):
        return eq_str(I, st, v, sval(want))
    if isinstance(want, int):
        return W.it_(v) == want if W.is_intlike(v) and not W.is_boollike(v) else z3.BoolVal(False)
    if want is None:
        return z3.BoolVal(v is None)
    if isinstance(want, list):
        if not isinstance(v, W.Ref):
            return z3.BoolVal(False)
        o = st.heap[v.id]
        if not isinstance(o, W.ListObj):
            return z3.BoolVal(False)
        return I.seq_term(st, o.segs) == lit(want)
    if isinstance(want, dict):
        if not isinstance(v, W.Ref):
            return z3.BoolVal(False)
        o = st.heap[v.id]
        if not isinstance(o, W.DictObj):
            raise Unknown
        if o.base is not None or not all(isinstance(k, str) for k in o.entries) or not set(want) <= set(o.entries):
            return z3.BoolVal(o.base is not None)
        out = []
        for k, (p, w) in o.entries.items():
            p = z3.BoolVal(p) if isinstance(p, bool) else p
            out.append(W.band(p, agree(I, st, w, want[k])) if k in want else W.bnot(p))
        return W.band(*out)
    raise Unknown


def ground(fs, env):
    """the value of every application whose arguments are known"""
    seen, terms = set(), []
    for f in fs:
        smt.subterms(f, seen, terms)
    out = []
    for t in terms:
        if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            try:
                v = ev(t, env)
                out.append(t == (boxlit(v) if t.sort() == Val else lit(v)))
            except Unknown:
                pass
    return out


def consistent(fs, env):
    fs = [f for f in fs if not isinstance(f, bool)] + [z3.BoolVal(f) for f in fs if isinstance(f, bool)]
    inst = smt.instantiate(fs)
    s = z3.Solver()
    s.set("timeout", 4000)
    s.add(*smt.BASE_FACTS, *fs, *inst, *ground(fs + inst, env))
    return s.check()


def programs(seed, count):
    """a module of random programs"""
    import atexit
    import importlib.util
    import os
    import tempfile
    from . import fuzz

    fd, path = tempfile.mkstemp(suffix=".py")
    os.write(fd, fuzz.source(seed, count).encode())
    os.close(fd)
    spec = importlib.util.spec_from_file_location("dv.cases.g%d" % seed, path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[spec.name] = mod
    spec.loader.exec_module(mod)
    atexit.register(os.unlink, path)  # the executor reads the source from the file
    return mod


class Endless(BaseException):
    pass


def limited(f, args):
    """f(*args), given up after a second"""
    import signal

    def give_up(*a):
        raise Endless()

    old = signal.signal(signal.SIGVTALRM, give_up)
    signal.setitimer(signal.ITIMER_VIRTUAL, 1)
    try:
        return f(*args)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def contracts(seed, n, cases=None):
    from . import wf
    from .engine import make_interp, run
    from .interp import State
    from .values import SStr, SInt, SBool, SegS, DictObj, Unsupported

    if cases is None:
        from . import cases
    r = random.Random(seed)
    res = {"functions": 0, "samples": 0, "exact": 0, "unsupported": [], "bad": []}
    for name, f in sorted(vars(cases).items()):
        if not name.startswith("c_"):
            continue
        names = list(inspect.signature(f).parameters)
        I = make_interp(wf.World("ok"))
        st = State()
        args = []
        for p in names:
            if p == "d":
                es = {k: (z3.Const("d_has_" + k, B), SStr(z3.Const("d_" + k, S))) for k in ("a", "b")}
                args.append(I.alloc(st, DictObj(es, None, True)))
            elif p in ("xs", "ys"):
                args.append(I.new_list(st, (SegS(z3.Const(p, SeqV), "str"),)))
            else:
                args.append({S: SStr, Int: SInt, B: SBool}[ARGS[p]](z3.Const(p, ARGS[p])))
        try:
            outs = run(I, "code", st, lambda s: I.call(s, f, args, {}))
        except Unsupported as e:
            res["unsupported"].append("%s: %s" % (name, e))
            continue
        res["functions"] += 1
        for _ in range(n):
            env, vals = {}, []
            for p in names:
                if p == "d":
                    v = {k: rstr(r) for k in ("a", "b") if r.random() < 0.6}
                    for k in ("a", "b"):
                        env["d_has_" + k] = k in v
                        env["d_" + k] = v.get(k, "")
                else:
                    so = ARGS[p]
                    v = rstr(r) if so == S else r.randrange(-4, 9) if so == Int else r.random() < 0.5 if so == B else [rstr(r) for _ in range(r.randrange(0, 5))]
                    if "date" in name and p == "n":
                        v = r.randrange(-62135596800000, 253402300799999)
                    env[p] = v
                vals.append(list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v)
            try:
                want = ("ok", limited(f, vals))
            except Endless:
                continue
            except Exception as e:
                want = ("raise", type(e))
            fix = [z3.Const(k, S if isinstance(v, str) else B if isinstance(v, bool) else Int if isinstance(v, int) else SeqV) == lit(v) for k, v in env.items()]
            admits = other = False
            for o in outs:
                base = fix + list(o.st.pc) + list(I.global_facts)
                if o.kind != want[0]:
                    other = other or consistent(base, env) != z3.unsat
                    continue
                if o.kind == "raise":
                    g = z3.BoolVal(o.val.cls is None or issubclass(o.val.cls, want[1]) or issubclass(want[1], o.val.cls))
                else:
                    try:
                        g = agree(I, o.st, o.val, want[1])
                    except Unknown:
                        admits = True
                        continue
                g = z3.BoolVal(g) if isinstance(g, bool) else g
                admits = admits or consistent(base + [g], env) != z3.unsat
                other = other or consistent(base + [z3.Not(g)], env) != z3.unsat
            res["samples"] += 1
            res["exact"] += not other
            if not admits:
                res["bad"].append("%s%r: CPython gives %s %r, no path admits it" % (name, tuple(vals), *want))
                break
    return res


def main(seed=1, n=400, per=6):
    t = time.time()
    facts, skipped, heads, bad = lemmas(seed, n)
    c = contracts(seed, per)
    bad += c["bad"]
    print("selftest: %d lemma instances of %d schemata true in CPython (%d not evaluable); %d functions over built-ins, %d samples admitted, %d of them exactly; "
          "%d constructs unsupported; %d contradictions; %.1f s" % (facts, len(heads), skipped, c["functions"], c["samples"], c["exact"], len(c["unsupported"]), len(bad), time.time() - t))
    for b in bad[:20]:
        print("  CONTRADICTION", b)
    return facts, heads, c, bad


if __name__ == "__main__":
    from . import check  # puts the package under test on the path

    a = [int(x) for x in sys.argv[1:]]
    facts, heads, c, bad = main(*a)
    for u in c["unsupported"]:
        print("  unsupported", u)
    sys.exit(1 if bad else 0)
