"""C28: the generator of the public API module (gen_code.py and its template) against contracts.

scan      scan_module_for_public_apis lists every public class of one element module that derives from Base, and only
          names that the module has (for an arbitrary module, member list and member).
generate  generate_api_py, with scan_module_for_public_apis by that contract and Path.glob by its own: for an arbitrary
          entry of an arbitrary element module, the text it returns imports that entry. The template is turned into Python by
          jinja2's own compiler on every run, and that Python is executed symbolically.
main      writes exactly the generated text to the package's api.py (generate_api_py by contract).
exports   evaluated on the committed tree: api.py exports every class (finite, exhaustive).
"""
import ast
import collections
import builtins
import fnmatch
import importlib
import inspect
import json
import os
import re
import subprocess
import sys
import tempfile
import types
from pathlib import Path, PurePath

import z3

from . import smt
from .smt import S, B, I as Int, Val, SeqV, sval, uf, sconcat
from .values import *
from .interp import State, Out
from .engine import Obl, make_interp
from . import builtin_models as bm

# entries of the generated module: immutable records (module name, class name)
rec, rmod, rcls = uf("api_rec", S, S, Val), uf("api_mod", Val, S), uf("api_cls", Val, S)
rip_ok = {"marks": uf("importable_from_marks", Val, B), "nodes": uf("importable_from_nodes", Val, B)}
# module files
pstem, pdir = uf("path_stem", Val, S), uf("path_dir", Val, S)
SCAN = uf("scanned", Val, SeqV)
GLOB = uf("globbed", S, S, SeqV)
SORTED = uf("sorted_of", SeqV, SeqV)
# members of an imported module
mname, mobj = uf("member_name", Val, S), uf("member_obj", Val, Val)
HASATTR = uf("module_has", S, B)
ISCLASS, HASMOD, HASNAME = uf("is_class", Val, B), uf("has_module_attr", Val, B), uf("has_name_attr", Val, B)
OMOD, ONAME = uf("module_of", Val, S), uf("name_of", Val, S)
SUB = uf("subclass_of", Val, S, B)
# a grouped dictionary as the template sees it
mkey = uf("item_key", Val, S)


def mval(name):
    return uf("item_value_" + name, Val, SeqV)


LINEAGE = ["Base", "BaseMarkOrNode", "BaseMark", "BaseNode"]
KINDS = ("mark", "node")


def member_facts(t):
    L, x = t.children()
    out, n = [], L.decl().name() if z3.is_app(L) else ""
    if n == "scanned":
        p = L.arg(0)
        out.append(z3.Implies(t, rmod(x) == pstem(p)))
        for d in ("marks", "nodes"):
            out.append(z3.Implies(z3.And(t, pdir(p) == sval(d)), rip_ok[d](x)))
    if n == "globbed":
        d, pat = map(smt.str_const, L.children())
        pre, suf = pat.split("*")[0], pat.split("*")[-1]
        out.append(z3.Implies(t, pdir(x) == sval(d)))
        if not re.search(r"[\[?]", pat) and suf == ".py":
            out.append(z3.Implies(t, z3.PrefixOf(sval(pre), pstem(x))))
    if n == "sorted_of":
        out.append(t == smt.mem(L.arg(0), x))
    return out


def elem_facts(t):
    L, k = t.children()
    inb = z3.And(k >= 0, k < z3.Length(L))
    return [z3.Implies(inb, smt.mem(L, t))]


def rec_facts(t):
    return [rmod(t) == t.arg(0), rcls(t) == t.arg(1)]


def name_facts(t):
    return [HASATTR(t)]


def obj_facts(t):
    c = ISCLASS(t)
    return [z3.Implies(c, z3.And(HASMOD(t), HASNAME(t))), z3.Implies(SUB(t, sval("BaseMark")), SUB(t, sval("BaseMarkOrNode"))),
            z3.Implies(SUB(t, sval("BaseNode")), SUB(t, sval("BaseMarkOrNode"))), z3.Implies(SUB(t, sval("BaseMarkOrNode")), SUB(t, sval("Base")))]


LEMMAS = {"member": member_facts, "elem": elem_facts, "api_rec": rec_facts, "member_name": name_facts, "member_obj": obj_facts}

FACTS = [
    "inspect.getmembers(m) / vars(m).items(): every (name, attribute) of the module, in any order",
    "importlib.import_module: the module of that full name, ImportError for a name that no element module has",
    "every class has __module__ and __name__; issubclass on what is no class raises TypeError",
    "Path.glob(pattern): every file of the directory whose name fits the pattern, in any order; sorted() permutes",
    "PublicAPI is read through module_name and class_name; a class reaches the public interface under its own name",
    "jinja2.Environment.compile generates the Python that render() executes; context.call and environment.getattr call and read attributes",
    "class names are unique over all element modules (of two classes with one name the API module can export only one)",
    "element modules can be imported and do not change while the generator runs",
]


class Ext:
    """what the executor does not know about the generator's world"""
    tags = {"api", "path", "member", "pyobj", "titem"}

    def __init__(self, G):
        self.G = G
        self.watch = []  # (element W of the iterated sequence, entry X it brings in)
        self.sound = []  # (element Y, predicate that every list keeps)
        self.lists = {}  # hidden frame of a map -> its list object
        self.K0 = None
        self.src = {}  # template object -> source text
        self.templates = []
        self.renders = {}  # constant of a rendered text -> its structure (state, segments)
        self.facts_of, self.keyed = {}, set()  # summaries of what a template is handed
        self.complete = []  # (entry X, sequence of items or entries, value of an item or None)
        self.raises = []
        self.bases_ok = True

    # -- values -----------------------------------------------------------------
    def box_tuple(self, v):
        if len(v.items) == 2 and isinstance(v.items[0], SStr) and isinstance(v.items[1], SVal) and v.items[1].tag == "pyobj":
            a, b = v.items[0].t, v.items[1].t
            if a.decl().name() == "member_name" and b.decl().name() == "member_obj" and a.arg(0).eq(b.arg(0)):
                return a.arg(0)
        return None

    def unbox(self, t, wrap):
        if wrap == "member":
            return STuple((SStr(mname(t)), SVal(mobj(t), "pyobj")))
        if isinstance(wrap, tuple) and wrap[0] == "titem":
            return STuple((SStr(mkey(t)), ListOf(mval(wrap[1])(t))))
        return SVal(t, wrap)

    def attr(self, I, st, v, name, default, hasdefault):
        if v.tag == "api":
            if name == "module_name":
                return mkstr(rmod(v.t))
            if name == "class_name":
                return mkstr(rcls(v.t))
            c, m = I.find_in_mro(self.G.PublicAPI, name)
            if isinstance(m, (property, types.FunctionType)):
                return I.bind_member(st, v, self.G.PublicAPI, c, m, name)
        if v.tag == "path":
            if name == "stem":
                return mkstr(pstem(v.t))
            if name == "name":
                return mkstr(sconcat(pstem(v.t), sval(".py")))
            if name == "suffix":
                return ".py"
        if v.tag == "pyobj":
            for n, h, a in (("__module__", HASMOD, OMOD), ("__name__", HASNAME, ONAME)):
                if name == n:
                    if I.branch(st, h(v.t)):
                        return mkstr(a(v.t))
                    if hasdefault:
                        return default
                    I.throw(st, AttributeError, name)
        raise Unsupported("attribute %s of a %s" % (name, v.tag))

    def isinstance_(self, I, st, v, cls):
        if cls is object:
            return True
        if v.tag == "pyobj" and cls is type:
            return ISCLASS(v.t)
        if v.tag == "api" and cls is self.G.PublicAPI:
            return True
        raise Unsupported("isinstance of a %s" % v.tag)

    def sorted(self, I, st, segs, k):
        k = dict(k)
        k.pop("reverse", None)
        key = k.pop("key", None)
        w = I.wrap_of(segs)
        if k or (key is None and w not in ("path", "str")):
            raise Unsupported("sorted")
        if key is not None:
            # the key must be computable for every element; only the order depends on it
            def test(s, x):
                return [o if o.kind == "raise" else Out("next", o.st) for o in I.explore(s, lambda s2: I.call(s2, key, [x], {}))]

            outs = I.run_segs(st.copy(), segs, test, "sorted")
            if any(o.kind == "raise" and I.feasible(o.st, z3.BoolVal(True)) for o in outs):
                raise Unsupported("sort key that may raise")
        t = I.seq_term(st, segs)
        return I.new_list(st, [SegS(SORTED(t), w)])

    # -- calls ------------------------------------------------------------------
    def call(self, I, st, f, args, kwargs):
        G = self.G
        conc = all(bm.is_concrete(a) for a in args) and all(bm.is_concrete(a) for a in kwargs.values())
        f0 = getattr(f, "__func__", f)
        slf = getattr(f, "__self__", None)
        if f is G.PublicAPI:
            return self.make_api(I, st, args, kwargs)
        if f is print:
            return None
        if f is collections.defaultdict and len(args) == 1 and args[0] is list and not kwargs:
            ref = I.alloc(st, DictObj({}, None, True))
            if not self.to_map(I, st, ref, list):
                raise Unsupported("defaultdict")
            return ref
        if f is builtins.open or f0 is Path.open:
            return self.open(I, st, ([slf] if f0 is Path.open else []) + list(args), kwargs)
        if isinstance(slf, PurePath) and f0 is not None:
            name = f0.__name__
            if name == "glob" and len(args) == 1 and not kwargs:
                return self.glob(I, st, slf, args[0])
            if name == "read_text":
                return self.read(I, slf)
            if name == "write_text":
                return self.write(I, st, slf, args[0])
            if conc and name in ("joinpath", "with_name", "with_suffix", "resolve", "absolute", "exists", "is_file", "is_dir", "relative_to", "as_posix", "with_stem"):
                return f(*args, **kwargs)
        if conc and isinstance(f, type) and issubclass(f, PurePath):
            return f(*args, **kwargs)
        if conc and getattr(f, "__module__", "") in ("posixpath", "genericpath"):
            return f(*args, **kwargs)
        if f is importlib.import_module:
            return self.import_module(I, st, args, kwargs)
        if f is inspect.getmembers and isinstance(args[0], ExtObj) and args[0].what == "module":
            ms = I.new_list(st, [SegS(args[0].data, "member")])
            if len(args) == 1 and not kwargs:
                return ms
            pred = args[1] if len(args) > 1 else kwargs["predicate"]
            return I.call(st, filter_members, [ms, pred], {})
        if f is vars and isinstance(args[0], ExtObj) and args[0].what == "module":
            return args[0].attr(I, st, "__dict__")
        if args and isinstance(args[0], SVal) and args[0].tag == "pyobj":
            x = args[0].t
            if f is inspect.isclass:
                return mkbool(ISCLASS(x))
            if f is issubclass:
                if not I.branch(st, ISCLASS(x)):
                    I.throw(st, TypeError, "issubclass() arg 1 must be a class")
                c = I.resolve(st, args[1])
                cs = c.items if isinstance(c, STuple) else c if isinstance(c, tuple) else (c,)
                out = []
                for b in cs:
                    if b is object:
                        return True
                    if not isinstance(b, type) or b.__name__ not in LINEAGE or getattr(G, "lineage")[b.__name__] is not b:
                        raise Unsupported("issubclass of %r" % (b,))
                    out.append(SUB(x, sval(b.__name__)))
                return mkbool(bor(*out))
        jin = G.jinja2
        if isinstance(f, type) and issubclass(f, (jin.Template, jin.Environment, jin.BaseLoader)) or isinstance(slf, (jin.Environment, jin.Template)):
            return self.jinja(I, st, f, slf, args, kwargs, conc)
        return NotImplemented

    def make_api(self, I, st, args, kwargs):
        import dataclasses

        names = [x.name for x in dataclasses.fields(self.G.PublicAPI)]
        kw = dict(zip(names, args), **kwargs)
        if "__post_init__" in vars(self.G.PublicAPI) or names[:2] != ["module_name", "class_name"] or not set(kw) <= set(names) or not {"module_name", "class_name"} <= set(kw):
            raise Unsupported("PublicAPI")
        m, c = (I.prune(st, I.resolve(st, kw[n])) for n in ("module_name", "class_name"))
        if not is_strlike(m) or not is_strlike(c):
            raise Unsupported("PublicAPI with other than names")
        return SVal(rec(st_(m), st_(c)), "api")

    def import_module(self, I, st, args, kwargs):
        kw = dict(zip(("name", "package"), args), **kwargs)
        name, package = I.resolve(st, kw["name"]), kw.get("package")
        if not is_strlike(name):
            raise Unsupported("import of a computed name")
        t = st_(name)
        if self.target is None:
            raise Unsupported("import_module")
        full, members = self.target
        c = t == full
        if isinstance(package, str):
            c = z3.Or(c, sconcat(sval(package), t) == full)
        elif package is not None:
            raise Unsupported("import relative to a computed package")
        if not I.branch(st, c):
            I.throw(st, ImportError, name)

        def items(I2, s, a, k):
            return I2.new_list(s, [SegS(members, "member")])

        def attr(I2, s, n):
            if n == "__name__":
                return mkstr(full)
            if n == "__dict__":
                return ExtObj("moddict", lambda I3, s3, m: Native(items) if m == "items" else None)
            return None

        return ExtObj("module", attr, members)

    target = None

    # -- files ------------------------------------------------------------------
    def open(self, I, st, args, kwargs):
        kw = dict(zip(("file", "mode"), args), **kwargs)
        p, mode = kw["file"], kw.get("mode", "r")
        if not isinstance(p, (str, PurePath)) or not isinstance(mode, str):
            raise Unsupported("open of a computed path")
        p = Path(p)
        if mode in ("r", "rt"):
            text = self.read(I, p)

            def attr(I2, s, n):
                return Native(lambda *x: text) if n == "read" else Native(lambda *x: None) if n == "close" else None

            return ExtObj("file", attr)
        if mode in ("w", "wt"):

            def attr(I2, s, n):
                if n == "write":
                    return Native(lambda I3, s3, a, k: self.write(I3, s3, p, a[0]))
                return Native(lambda *x: None) if n in ("close", "flush") else None

            return ExtObj("file", attr)
        raise Unsupported("open in mode %r" % mode)

    def read(self, I, p):
        """files of the source tree are read as they are, but for the one that the generator writes"""
        if os.path.normpath(str(p)) == os.path.join(self.G.package, "api.py"):
            return SStr(smt.fresh("OLD_API", S))
        return Path(p).read_text()

    def write(self, I, st, p, v):
        v = I.resolve(st, v)
        if not is_strlike(v):
            raise Unsupported("write of what may not be text")
        st.events.append(("write", str(p), st_(v).sexpr(), Hold(st_(v))))
        return SInt(z3.Length(st_(v)))

    def glob(self, I, st, d, pattern):
        d = Path(d)
        if d.parent != Path(self.G.package) or d.name not in ("marks", "nodes") or not isinstance(pattern, str):
            raise Unsupported("glob in %s" % d)
        if "*" not in pattern or "/" in pattern or "**" in pattern:
            raise Unsupported("glob pattern %r" % pattern)
        t = GLOB(sval(d.name), sval(pattern))
        kind = d.name[:-1]
        pre, suf = pattern.split("*")[0], pattern.split("*")[-1]
        if not suf.endswith(".py"):
            raise Unsupported("glob pattern %r" % pattern)
        if pattern.count("*") == 1 and not re.search(r"[\[?]", pattern) and (kind + "_").startswith(pre) and ".py".endswith(suf):
            # every element module's file fits the pattern
            I.add_global([], smt.mem(t, self.P0[kind]))
        return I.new_list(st, [SegS(t, "path")])

    # -- templates --------------------------------------------------------------
    def jinja(self, I, st, f, slf, args, kwargs, conc):
        jin = self.G.jinja2
        name = getattr(f, "__name__", "")
        if isinstance(slf, jin.Template):
            if name == "render":
                return self.render(I, st, slf, args, kwargs)
            raise Unsupported("template method %s" % name)
        if not conc:
            raise Unsupported("jinja2 with computed arguments")
        if isinstance(f, type):
            r = f(*args, **kwargs)
            if isinstance(r, jin.Template):
                self.src[id(r)] = (r, args[0] if args else kwargs["source"])
            return r
        if isinstance(slf, jin.Environment):
            if name == "from_string":
                r = f(*args, **kwargs)
                self.src[id(r)] = (r, args[0] if args else kwargs["source"])
                return r
            if name == "get_template":
                r = f(*args, **kwargs)
                self.src[id(r)] = (r, slf.loader.get_source(slf, args[0])[0])
                return r
        raise Unsupported("jinja2 %s" % name)

    def render(self, I, st, tmpl, args, kwargs):
        if id(tmpl) not in self.src:
            raise Unsupported("template of unknown origin")
        env = tmpl.environment
        if env.autoescape or env.finalize or env.extensions or env.is_async:
            raise Unsupported("template environment")
        kw = dict(kwargs)
        for a in args:
            a = I.resolve(st, a)
            if not isinstance(a, Ref) or not isinstance(st.heap[a.id], DictObj):
                raise Unsupported("render arguments")
            for k, (p, v) in st.heap[a.id].entries.items():
                if p is not True:
                    raise Unsupported("render arguments")
                kw.setdefault(k, v)
        s = st.copy()
        values = {k: self.template_value(I, s, v, k) for k, v in kw.items()}
        src = self.src[id(tmpl)][1]
        code = env.compile(src, raw=True)
        tree = ast.parse(code)
        roots = [n for n in tree.body if isinstance(n, ast.FunctionDef)]
        if len(roots) != 1 or roots[0].name != "root":
            raise Unsupported("template with blocks or macros")
        ns = {"environment": env}
        exec(compile(tree, "<template>", "exec"), ns)
        jr = sys.modules["jinja2.runtime"]
        missing = jr.missing

        def resolve(I2, s2, a, k):
            if a[0] in values:
                return values[a[0]]
            return env.globals.get(a[0], missing)

        def getattr_(I2, s2, a, k):
            if isinstance(a[0], ExtObj) or not isinstance(a[0], Ref):
                return I2.getattr_(s2, a[0], a[1])
            o = s2.heap[a[0].id]
            if isinstance(o, DictObj) and not hasattr(dict, a[1]):
                return bm.get_item(I2, s2, a[0], a[1])
            return I2.getattr_(s2, a[0], a[1])

        def getitem(I2, s2, a, k):
            if isinstance(a[0], ExtObj):
                r = a[0].attr(I2, s2, "__getitem__")
                if r is None:
                    raise Unsupported("subscript in a template")
                return I2.call(s2, r, [a[1]], {})
            return bm.get_item(I2, s2, a[0], a[1])

        def undef(I2, s2, a, k):
            raise Unsupported("undefined name in a template")

        cattrs = {"resolve_or_missing": Native(resolve), "call": Native(lambda I2, s2, a, k: I2.call(s2, a[0], list(a[1:]), k)), "eval_ctx": None}
        eattrs = {"getattr": Native(getattr_), "getitem": Native(getitem), "undefined": Native(undef), "concat": Native(undef), "filters": env.filters, "tests": env.tests}
        ctx = ExtObj("context", lambda I2, s2, n: cattrs.get(n))
        envo = ExtObj("environment", lambda I2, s2, n: eattrs.get(n))
        out = I.alloc(s, ListObj((), True))
        n = self.rendered = getattr(self, "rendered", 0) + 1
        const = z3.Const("RENDERED%d" % n, S)

        def sink(s2, v):
            v = I.resolve(s2, v)
            if not is_strlike(v):
                raise Unsupported("template output that is no text")
            bm.list_append(I, s2, out, v)
            return [Out("next", s2)]

        def go(s2):
            it = I.run_body(s2, roots[0], ns, [ctx], {"missing": missing, "environment": envo}, [], {}, None, "root", None)
            return it

        saved, self.in_template = getattr(self, "in_template", False), True
        try:
            outs = []
            for o in I.explore(s, go):
                if o.kind == "raise":
                    outs.append(o)
                    continue
                node, fid = o.val.args
                outs += I.run_generator(o.st, fid, node, sink)
        finally:
            self.in_template = saved
        ok = [o for o in outs if o.kind == "next"]
        bad = [o for o in outs if o.kind != "next"]
        self.raises += bad
        if len(ok) != 1:
            raise Unsupported("template with several outcomes")
        self.renders[const.decl().name()] = (I, ok[0].st, ok[0].st.heap[out.id].segs)
        I.add_global([], z3.Length(const) >= 0)
        return SStr(const)

    def template_value(self, I, s, v, name):
        """what the template is handed: lists and maps are summarised by what is proved of them here"""
        v = I.resolve(s, v)
        if not isinstance(v, Ref):
            if isinstance(v, SVal) or isinstance(v, ExtObj):
                raise Unsupported("template argument")
            return v
        o = s.heap[v.id]
        P = I.global_facts + s.pc

        def holds(f):
            return smt.prove(P, f, 6000).ok

        if isinstance(o, MapObj):
            vl, fr = self.lists[o.fid], s.frames[o.fid]
            p, T = bt_(fr["p"]), I.seq_term(s, s.heap[vl].segs)
            nm = re.sub(r"\W", "_", name)
            items = z3.Const("ITEMS_" + nm, SeqV)
            full = [X for X in self.entries if holds(z3.Implies(self.K0 == rmod(X), z3.And(p, smt.mem(T, X))))]
            sound = [i for i, (Y, ok) in enumerate(self.sound) if holds(z3.Implies(z3.And(p, smt.mem(T, Y)), ok(Y)))]
            keyed = bool(self.sound) and holds(z3.Implies(z3.And(p, smt.mem(T, self.sound[0][0])), rmod(self.sound[0][0]) == self.K0))
            self.facts_of["item_value_" + nm] = sound
            if keyed:
                self.keyed.add("item_value_" + nm)
            val = mval(nm)

            def attr(I2, s2, n):
                if n == "items":
                    return Native(lambda *a: Iter("segs", (SegS(items, ("titem", nm)),)))
                if n == "values":
                    return Native(lambda I3, s3, a, k: I3.call(s3, map_values, [Iter("segs", (SegS(items, ("titem", nm)),))], {}))
                if n == "__contains__":
                    return Native(has)
                return None

            def has(I3, s3, a, k):
                t = I3.box(s3, I3.resolve(s3, a[0]))
                ts = []
                smt.subterms(t, set(), ts)
                if any(z3.is_app(x) and x.decl().name().endswith("_" + nm) for x in ts):
                    raise Unsupported("membership of a map's own key")
                return mkbool(smt.uf("has_key_" + nm, Val, B)(t))

            self.complete += [(X, items, val) for X in full]
            return ExtObj("map", attr, nm)
        if isinstance(o, DictObj):
            if o.base is not None or any(p is not True for p, _ in o.entries.values()):
                raise Unsupported("template argument")
            ent = {k: (True, self.template_value(I, s, x, "%s_%s" % (name, k))) for k, (_, x) in o.entries.items()}
            return I.alloc(s, DictObj(ent, None, True))
        if isinstance(o, ListObj):
            if all(isinstance(x, SegE) for x in o.segs):
                return I.new_list(s, [SegE(self.template_value(I, s, x.v, "%s_%d" % (name, i))) for i, x in enumerate(o.segs)])
            T = I.seq_term(s, o.segs)
            nm = re.sub(r"\W", "_", name)
            L = z3.Const("LIST_" + nm, SeqV)
            full = [X for X in self.entries if holds(smt.mem(T, X))]
            self.facts_of["LIST_" + nm] = [i for i, (Y, ok) in enumerate(self.sound) if holds(z3.Implies(smt.mem(T, Y), ok(Y)))]
            self.complete += [(X, L, None) for X in full]
            if I.wrap_of(o.segs) != "api":
                raise Unsupported("template argument")
            return I.new_list(s, [SegS(L, "api")])
        raise Unsupported("template argument")

    # -- maps with computed keys ---------------------------------------------------
    def to_map(self, I, st, ref, factory=None):
        o = st.heap[ref.id]
        if isinstance(o, MapObj):
            return True
        if self.K0 is None or not isinstance(o, DictObj) or not o.fresh or o.entries or o.base is not None:
            return False
        F = ("map", ref.id)
        if F not in self.lists:
            self.lists[F] = I.number(I.hctr)
        st.heap[self.lists[F]] = ListObj((), True)
        st.frames[F] = {"p": False, "$captured": True}
        st.heap[ref.id] = MapObj(F, self.K0, {}, factory)
        return True

    def at_key(self, I, st, o, k):
        k = I.resolve(st, k)
        if not is_strlike(k):
            raise Unsupported("map key")
        return st_(k), I.branch(st, st_(k) == self.K0)

    def known(self, st, ref, o, t, val):
        d = dict(o.other)
        d[t.get_id()] = (t, val)
        st.heap[ref.id] = MapObj(o.fid, o.key, d, o.factory)
        return val

    def map_has(self, I, st, ref, k):
        o = st.heap[ref.id]
        t, here = self.at_key(I, st, o, k)
        if here:
            return bt_(st.frames[o.fid]["p"])
        if t.get_id() in o.other:
            return o.other[t.get_id()][1]
        return self.known(st, ref, o, t, smt.fresh("has_other", B))

    def map_get(self, I, st, ref, k, missing=None):
        if not I.branch(st, self.map_has(I, st, ref, k)):
            if missing is not None:
                return missing(st)
            if st.heap[ref.id].factory is list:
                v = I.new_list(st, ())
                return self.map_set(I, st, ref, k, v, get=True)
            I.throw(st, KeyError, I.resolve(st, k))
        o = st.heap[ref.id]
        t, here = self.at_key(I, st, o, k)
        if here:
            return Ref(self.lists[o.fid])
        return I.new_list(st, [SegS(smt.fresh("other", SeqV), "api")])

    def map_set(self, I, st, ref, k, v, get=False):
        o = st.heap[ref.id]
        v = I.resolve(st, v)
        if not isinstance(v, Ref) or not isinstance(st.heap[v.id], ListObj):
            raise Unsupported("map value")
        t, here = self.at_key(I, st, o, k)
        if not here:
            self.known(st, ref, o, t, z3.BoolVal(True))
            return v if get else None
        VL = self.lists[o.fid]
        if v.id != VL:
            # from here on the map's list goes by one name
            I.write(st, Ref(VL), ListObj(st.heap[v.id].segs, True))
            for fr in st.frames.values():
                for n, x in list(fr.items()):
                    if isinstance(x, Ref) and x.id == v.id:
                        fr[n] = Ref(VL)
            st.heap[v.id] = ListObj((SegE(Poison("stored in a dictionary")),), True)
        st.frames[o.fid]["p"] = True
        return Ref(VL) if get else None

    def map_method(self, I, st, ref, name, args, kwargs):
        if kwargs:
            raise Unsupported("map.%s" % name)
        if name == "get":
            return self.map_get(I, st, ref, args[0], lambda s: args[1] if len(args) > 1 else None)
        if name == "setdefault" and len(args) == 2:
            return self.map_get(I, st, ref, args[0], lambda s: self.map_set(I, s, ref, args[0], args[1], get=True))
        raise Unsupported("map.%s" % name)

    # -- loop invariants -----------------------------------------------------------
    def candidates(self, I, L, comps):
        out, k = [], L.k
        base = L.base
        if getattr(self, "in_template", False):
            return out
        back = {v: f for f, v in self.lists.items()}
        for c in comps:
            s = c.cur.sort()
            guard, isp = z3.BoolVal(True), False
            if c.key[0] == "h" and c.key[1] in back:
                guard = None
            elif c.key[0] == "v" and c.key[1] in self.lists and c.key[2] == "p":
                guard, isp = None, True
            if s != SeqV and not isp:
                continue
            if isp:
                out.append(z3.Implies(c.init, c.cur))
            for X in self.entries:
                g = [] if guard is not None else [self.K0 == rmod(X)]
                goal = c.cur if isp else smt.mem(c.cur, X)
                if not isp:
                    out.append(z3.Implies(smt.mem(c.init, X), goal))
                if base is not None:
                    for W, X2 in self.watch:
                        if X2.eq(X):
                            out.append(z3.Implies(band(smt.mem(base, W), smt.idx(base, W) < k, *g), goal))
            if not isp:
                for Y, ok in self.sound:
                    out.append(z3.Implies(smt.mem(c.cur, Y), ok(Y)))
                if guard is None and self.sound:
                    Y = self.sound[0][0]
                    out.append(z3.Implies(smt.mem(c.cur, Y), rmod(Y) == self.K0))
        return out

    def elem_ok(self, t):
        """facts about the elements of what the template was handed"""
        L, k = t.children()
        n = L.decl().name()
        inb = z3.And(k >= 0, k < z3.Length(L))
        out = [z3.Implies(inb, self.sound[i][1](t)) for i in self.facts_of.get(n, ())]
        if n in self.keyed:
            out.append(z3.Implies(inb, rmod(t) == mkey(L.arg(0))))
        return out


class Hold:
    """a term in an event (events are compared with ==)"""

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Hold) and self.t.eq(o.t)

    def __hash__(self):
        return self.t.hash()


def ListOf(t):
    """a list the template only reads"""
    return Iter("segs", (SegS(t, "api"),))


def filter_members(members, predicate):
    return [(n, o) for n, o in members if predicate(o)]


def map_values(items):
    return [v for k, v in items]


# -- the generated text ---------------------------------------------------------------
class Text:
    """Parts of a generated text: chunks of whole lines, each with the loops and conditions it is under.

    At the border of a loop or a conditional part the text must be at the start of a line, or at the end of a
    finished line that a newline follows on every continuation (the state: which of the two are possible)."""

    def __init__(self, ext):
        self.ext, self.chunks, self.terms = ext, [], []

    def pieces(self, t):
        if smt.is_str_const(t):
            return smt.str_const(t)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            return "".join(self.pieces(c) for c in t.children())
        for i, u in enumerate(self.terms):
            if u.eq(t):
                return "DVPH%d_" % i
        self.terms.append(t)
        return "DVPH%d_" % (len(self.terms) - 1)

    def flush(self, buf, state, loops, conds):
        if not buf:
            return state
        if "done" in state and not buf.startswith("\n"):
            raise Unsupported("a line of the template crosses a loop or condition")
        self.variants(buf, tuple(loops), tuple(conds))
        return {"start"} if buf.endswith("\n") else {"done"}

    def variants(self, buf, loops, conds):
        """one chunk for each value that a conditional piece of text can have"""
        for m in re.finditer(r"DVPH(\d+)_", buf):
            t = self.terms[int(m.group(1))]
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                c, a, b = t.children()
                for cond, u in ((c, a), (bnot(c), b)):
                    self.variants(buf.replace(m.group(0), self.pieces(u)), loops, conds + (cond,))
                return
        self.chunks.append((buf, loops, conds))

    def walk(self, segs, state, loops, conds):
        buf = ""
        for g in segs:
            if isinstance(g, SegE):
                t = st_(g.v)
                parts = [t] if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT) else self.flat(t)
                for u in parts:
                    n = u.decl().name() if z3.is_app(u) else ""
                    if n in self.ext.renders:
                        state, buf = self.flush(buf, state, loops, conds), ""
                        state = self.walk(self.ext.renders[n][2], state, loops, conds)
                    else:
                        buf += self.pieces(u)
                continue
            state, buf = self.flush(buf, state, loops, conds), ""
            if isinstance(g, SegG):
                while True:
                    mark = len(self.chunks)
                    after = state | self.walk(g.segs, state, loops + [g.loop], conds)
                    if after == state:
                        break
                    state = after
                    del self.chunks[mark:]
            elif isinstance(g, SegC):
                state = self.walk(g.a, state, loops, conds + [g.c]) | self.walk(g.b, state, loops, conds + [bnot(g.c)])
            else:
                raise Unsupported("generated text")
        return self.flush(buf, state, loops, conds)

    def flat(self, t):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            return [x for c in t.children() for x in self.flat(c)]
        return [t]

    def term(self, name):
        m = re.fullmatch(r"DVPH(\d+)_", name)
        return self.terms[int(m.group(1))] if m else None

    def statements(self):
        """(statement, loops, conds) of every chunk"""
        for buf, loops, conds in self.chunks:
            try:
                tree = ast.parse(buf.lstrip("\n"))
            except SyntaxError:
                raise Unsupported("template text of another form: %r" % buf[:80])
            for n in tree.body:
                yield n, loops, conds


def check_text(ctx, ext, I, st, value, where):
    T = Text(ext)
    T.walk((SegE(value),), {"start"}, [], [])
    lines, static, late = [], [], []
    for n, loops, conds in T.statements():
        names = re.findall(r"DVPH\d+_", ast.unparse(n))
        if not names:
            if loops or conds:
                raise Unsupported("a statement that is not of one entry inside a loop: %s" % ast.unparse(n)[:80])
            if isinstance(n, ast.ImportFrom) and n.level == 1:
                static.append((n, len(lines)))
            elif not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                raise Unsupported("statement in the template: %s" % ast.unparse(n)[:80])
            continue
        ok = isinstance(n, ast.ImportFrom) and n.level == 1 and len(n.names) == 1 and (n.module or "").count(".") == 1
        if not ok:
            raise Unsupported("statement in the template: %s" % ast.unparse(n)[:80])
        d, m = n.module.split(".")
        m, c = T.term(m), T.term(n.names[0].name)
        if m is None or c is None:
            raise Unsupported("statement in the template: %s" % ast.unparse(n)[:80])
        lines.append((d, m, c, n.names[0].asname, loops, conds))
    obls = ctx.obls

    def prove(name, P, g):
        r = smt.prove(P, g, 8000)
        obls.append(Obl("%s: %s" % (where, name), r.ok, r.status, r.secs, "" if r.ok else "goal: %s" % g))
        return r.ok

    for n, _ in static:
        mod = importlib.import_module("atlas_doc_parser." + n.module)
        for a in n.names:
            obls.append(Obl("%s: %s has %s" % (where, n.module, a.name), hasattr(mod, a.name), "missing"))
    for n, at in static:
        if at and any(a.name[:4] in ("Mark", "Node") for a in n.names):
            raise Unsupported("a fixed import after the generated ones")
    G = I.global_facts
    good = {}
    for i, (d, m, c, alias, loops, conds) in enumerate(lines):
        if not (z3.is_app(c) and c.decl().name() == "api_cls"):
            raise Unsupported("imported name %s" % c)
        y = c.arg(0)
        P = G + [f for L in loops for f in list(L.entry_pc) + L.facts] + list(conds)
        what = "import %d" % (i + 1)
        if d not in rip_ok:
            obls.append(Obl("%s: %s: names a package of elements" % (where, what), False, "failed", 0, d))
            continue
        v = prove("%s: names the module and the class of one and the same entry, which exists" % what, P, z3.And(m == rmod(y), rip_ok[d](y)))
        v = v and alias is None
        obls.append(Obl("%s: %s: binds the class under its own name" % (where, what), alias is None, "failed", 0, str(alias)))
        base_pc = G + [f for L in loops for f in list(L.entry_pc) + L.facts]
        plain = all(not L.exits and L.slave_of is None for L in loops)
        if plain and y.decl().name() == "elem":
            good.setdefault((tuple(L.base.sexpr() if L.base is not None else "" for L in loops)), []).append((y, d, loops, conds, base_pc))
    for kind, X in ext.by_kind.items():
        d = kind + "s"
        found, why, fits = False, [], {}
        for X2, seq, val in ext.complete:
            if not X2.eq(X):
                continue
            for cands in good.values():
                for y, d2, loops, conds, P in cands:
                    if d2 != d or not loops or loops[0].base is None or not loops[0].base.eq(seq):
                        continue
                    e = smt.at(seq, loops[0].k)
                    if val is None:
                        fit = len(loops) == 1 and y.eq(e)
                    else:
                        fit = len(loops) == 2 and loops[1].base is not None and loops[1].base.eq(val(e)) and y.eq(smt.at(val(e), loops[1].k))
                    if not fit:
                        continue
                    fits.setdefault((seq.sexpr(), tuple(L.id for L in loops)), (P, []))[1].append(band(*conds))
        for P, cs in fits.values():
            r = smt.prove(P, bor(*cs), 8000)
            found = found or r.ok
            if not r.ok:
                why.append("emitted only if %s" % bor(*cs))
        obls.append(Obl("%s: an arbitrary public class of an arbitrary %s module is imported" % (where, kind), found, "unproved", 0, "; ".join(why) or "no import reaches every entry"))


# -- tasks -----------------------------------------------------------------------------
class World:
    def __init__(self):
        sys.path.append("/opt/venv/lib/python3.12/site-packages") if "jinja2" not in sys.modules else None
        import jinja2

        self.jinja2 = jinja2
        self.mod = importlib.import_module("atlas_doc_parser.gen_code")
        self.package = os.path.dirname(os.path.abspath(self.mod.__file__))
        base = importlib.import_module("atlas_doc_parser.mark_or_node")
        self.lineage = {n: getattr(base, n) for n in LINEAGE}
        for n in ("PublicAPI", "scan_module_for_public_apis", "generate_api_py", "main"):
            if not hasattr(self.mod, n):
                raise Unsupported("gen_code.%s is gone" % n)
        self.PublicAPI = self.mod.PublicAPI


def setup(ctx):
    G = World()
    I = ctx.interp(None)
    I.ext = ext = Ext(G)
    smt.EXTRA.update(LEMMAS)
    smt.EXTRA["elem"] = lambda t: elem_facts(t) + ext.elem_ok(t)
    return G, I, ext


def no_raise(ctx, name, I, outs):
    for i, o in enumerate(outs):
        if o.kind == "raise":
            r = smt.prove(I.global_facts + o.st.pc, z3.BoolVal(False), 6000)
            ctx.obls.append(Obl("%s: does not raise (path %d)" % (name, i), r.ok, r.status, r.secs, str(o.val)))


def scan(ctx, kind):
    G, I, ext = setup(ctx)
    fn = G.mod.scan_module_for_public_apis
    ps = list(inspect.signature(fn).parameters.values())
    if len(ps) < 2 or any(p.default is p.empty for p in ps[2:]):
        raise Unsupported("parameters of scan_module_for_public_apis")
    d = kind + "s"
    stem = z3.Const("STEM", S)
    full = sconcat(sval("atlas_doc_parser.%s." % d), stem)
    members = z3.Const("MEMBERS", SeqV)
    E0, Y0 = z3.Const("E0", Val), z3.Const("Y0", Val)
    o, n = mobj(E0), mname(E0)
    X0 = rec(stem, n)
    ext.target = (full, members)
    ext.entries, ext.watch = [X0], [(E0, X0)]
    ext.sound = [(Y0, lambda y: z3.And(rmod(y) == stem, HASATTR(rcls(y))))]
    folder = ExtObj("path", lambda I2, s, a: d if a in ("name", "stem") else "" if a == "suffix" else None)
    text = {"stem": SStr(stem), "name": mkstr(sconcat(stem, sval(".py"))), "suffix": ".py", "parent": folder}
    path = ExtObj("path", lambda I2, s, a: text.get(a))
    st = State()
    st.pc = [z3.PrefixOf(sval(kind + "_"), stem), smt.mem(members, E0), ISCLASS(o), OMOD(o) == full, ONAME(o) == n, SUB(o, sval("Base")), z3.Not(z3.PrefixOf(sval("_"), n))]
    name = "scan_module_for_public_apis (%s modules)" % kind

    def listed(s):
        v = I.resolve(s, I.call(s, fn, [path, (G.lineage["Base"],)], {}))
        return I.seq_term(s, bm.to_list_segs(I, s, v))

    outs = I.explore(st, listed)
    no_raise(ctx, name, I, outs)
    from .parse import prem, obl
    from .props import sane

    for i, u in enumerate(x for x in outs if x.kind == "ok"):
        T = u.val
        obl(ctx, "%s: path %d: an arbitrary public class of the module is listed" % (name, i), prem(I, u.st), smt.mem(T, X0))
        obl(ctx, "%s: path %d: every listed name is one of this module" % (name, i), prem(I, u.st) + [smt.mem(T, Y0)], ext.sound[0][1](Y0))
    from . import engine

    ctx.obls += engine.term_obligations(I, name)
    sane(ctx, name, I, outs)


def generate(ctx):
    from .props import sane
    from . import engine

    G, I, ext = setup(ctx)
    ext.P0 = {k: z3.Const("P0_" + k, Val) for k in KINDS}
    ext.by_kind = {k: z3.Const("X0_" + k, Val) for k in KINDS}
    ext.entries = list(ext.by_kind.values())
    ext.K0 = z3.Const("K0", S)
    Y0 = z3.Const("Y0", Val)

    def ok(d):
        return lambda y: z3.And(rip_ok[d](y), z3.PrefixOf(sval(d[:-1] + "_"), rmod(y)))

    ext.sound = [(Y0, ok("marks")), (Y0, ok("nodes")), (Y0, lambda y: z3.Or(ok("marks")(y), ok("nodes")(y)))]
    st = State()
    for k in KINDS:
        P, X = ext.P0[k], ext.by_kind[k]
        ext.watch += [(P, X), (X, X), (smt.bs(rmod(X)), X)]
        st.pc += [smt.mem(SCAN(P), X), pdir(P) == sval(k + "s"), z3.PrefixOf(sval(k + "_"), pstem(P))]
    fn = G.mod.scan_module_for_public_apis
    sig = inspect.signature(fn)
    pname, bname = list(sig.parameters)[:2]

    def contract(I2, s, a, k):
        try:
            b = sig.bind(*a, **k)
        except TypeError as e:
            I2.throw(s, TypeError, str(e))
        b.apply_defaults()
        p, bases = I2.resolve(s, b.arguments[pname]), I2.resolve(s, b.arguments[bname])
        if not isinstance(p, SVal) or p.tag != "path":
            raise Unsupported("scan of a computed path")
        cs = bases.items if isinstance(bases, STuple) else bases
        if not isinstance(cs, tuple):
            raise Unsupported("base classes of the scan")
        if not any(c is object or (isinstance(c, type) and issubclass(G.lineage["Base"], c)) for c in cs):
            ext.bases_ok = False
        return I2.new_list(s, [SegS(SCAN(p.t), "api")])

    I.models[fn] = contract
    name = "generate_api_py"
    outs = I.explore(st, lambda s: I.resolve(s, I.call(s, G.mod.generate_api_py, [], {})))
    ctx.obls.append(Obl("%s: every module is scanned for subclasses of Base" % name, ext.bases_ok, "failed"))
    no_raise(ctx, name, I, outs + list(ext.raises))
    oks = [o for o in outs if o.kind == "ok"]
    for i, o in enumerate(oks):
        v = o.val
        if not is_strlike(v):
            raise Unsupported("generate_api_py returns no text")
        check_text(ctx, ext, I, o.st, v, name if len(oks) == 1 else "%s: path %d" % (name, i))
    ctx.obls += engine.term_obligations(I, name)
    sane(ctx, name, I, outs)


def main(ctx):
    from .props import sane

    G, I, ext = setup(ctx)
    GEN = z3.Const("GENERATED", S)
    I.models[G.mod.generate_api_py] = lambda I2, s, a, k: SStr(GEN)
    outs = I.explore(State(), lambda s: I.call(s, G.mod.main, [], {}))
    no_raise(ctx, "main", I, outs)
    want = os.path.join(G.package, "api.py")
    for i, o in enumerate(x for x in outs if x.kind == "ok"):
        ws = [e for e in o.st.events if e[0] == "write"]
        good = len(ws) == 1 and os.path.normpath(ws[0][1]) == want
        ctx.obls.append(Obl("main: path %d: writes the package's api.py and nothing else" % i, good, "failed", 0, str(ws)))
        if good:
            T = ws[0][3].t
            g = z3.Or(T == GEN, T == sconcat(GEN, smt.NL))
            r = smt.prove(o.st.pc + I.global_facts, g, 5000)
            ctx.obls.append(Obl("main: path %d: writes the generated text" % i, r.ok, r.status, r.secs, str(ws[0][2])))
    sane(ctx, "main", I, outs)


def exports(ctx):
    """the committed API module, evaluated: a finite statement about one tree"""
    G = World()
    here = os.path.dirname(os.path.abspath(__file__))
    scratch = tempfile.mkdtemp(prefix="dvprobe-")
    env = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
    env.update(PYTHONDONTWRITEBYTECODE="1", HOME=scratch)
    try:
        p = subprocess.run(["/opt/venv/bin/python", "-B", os.path.join(here, "genprobe.py"), "probe"], cwd=os.path.dirname(G.package), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    finally:
        os.rmdir(scratch) if not os.listdir(scratch) else None
    try:
        r = json.loads(p.stdout.strip().splitlines()[-1])
    except (ValueError, IndexError):
        raise Unsupported("the probe gave no answer: " + p.stderr[-300:])
    ctx.obls.append(Obl("api.py exports every public mark, node and attribute class (%d classes, evaluated)" % r["count"], not r["missing"] and r["count"] > 0, "evaluated", 0, str(r["missing"])))
    from .interp import Interp

    ctx.interps.append(Interp())
