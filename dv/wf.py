"""Well-formed elements: the symbolic initial state of a contract, and the
contracts of child nodes and marks.

A field of an element is the same function of the element everywhere, so that a
child rendered by its contract (MD/RZ/EX, MM/RM/EM) and a child whose fields are
read directly agree.
"""
import enum
import importlib
import inspect
import sys
import z3

from . import smt
from .smt import sval
from .values import *
from .table import CLASSES
from .nesting import allowed

NODES = {v["type"]: k for k, v in CLASSES.items() if v["kind"] == "node"}
MARKS = {v["type"]: k for k, v in CLASSES.items() if v["kind"] == "mark"}

# node types whose Markdown is built from that of their children
CONTAINERS = {
    "doc", "paragraph", "heading", "bulletList", "orderedList", "listItem", "taskList", "taskItem", "decisionList",
    "decisionItem", "panel", "blockquote", "expand", "nestedExpand", "table", "tableRow", "tableCell", "tableHeader",
    "mediaSingle", "codeBlock",
}
LISTS = {"bulletList", "orderedList", "taskList"}
ENUM_CONSTRAINED = {("NodeMediaAttrs", "type"), ("NodePanelAttrs", "panelType")}


# methods that change what the language's own operations do: the executor takes their
# meaning from the language, so a class of the package that defines one is outside its reach
OVERRIDES = ("bool len eq ne lt le gt ge hash getattr getattribute setattr delattr iter next reversed getitem setitem delitem contains missing call "
             "instancecheck subclasscheck subclasshook new del get set delete add radd iadd sub mul rmul mod floordiv truediv and or ror ior xor not neg int "
             "index str repr format copy deepcopy reduce reduce_ex getstate setstate dir sizeof class_getitem").split()


def overrides():
    """special methods the package's classes define themselves"""
    bad = []
    for n in CLASSES:
        host(n)
    for m in list(sys.modules.values()):
        nm = getattr(m, "__name__", "")
        if nm != "atlas_doc_parser" and not nm.startswith("atlas_doc_parser.") or ".tests" in nm:
            continue
        for c in list(vars(m).values()):
            if not isinstance(c, type) or c.__module__ != nm:
                continue
            if type(c) not in (type, enum.EnumType):
                bad.append("%s: metaclass %s" % (c.__name__, type(c).__name__))
            for d in OVERRIDES:
                f = c.__dict__.get("__%s__" % d)
                code = getattr(inspect.unwrap(f) if callable(f) else f, "__code__", None)
                if isinstance(f, (staticmethod, classmethod)):
                    code = f.__func__.__code__
                if code is not None and code.co_filename == getattr(m, "__file__", ""):
                    bad.append("%s.__%s__" % (c.__name__, d))
            if issubclass(c, enum.Enum) and "_missing_" in c.__dict__:
                bad.append("%s._missing_" % c.__name__)
            p = c.__dict__.get("__dataclass_params__")
            if p is not None and (p.order or not p.eq):
                bad.append("%s: dataclass options" % c.__name__)
    return bad


def host(clsname):
    return getattr(importlib.import_module(CLASSES[clsname]["module"]), clsname)


def spec_of(clsname):
    return {f[0]: f for f in CLASSES[clsname]["fields"]}


def type_in(x, types):
    return bor(*[smt.typ(x) == sval(t) for t in types])


# children whose contract is used in full by a caller (their content is rendered by the caller's own
# specification); every other child is an uninterpreted rendering that its own contract describes
UNFOLD = ("taskItem", "listItem")


class World:
    """ok: children render; may_fail: children may raise (see the contract below)"""

    def __init__(self, children="ok", filtered=False, record_ie=False):
        self.children = children
        self.filtered = filtered
        self.record_ie = record_ie
        self.known = {}
        self.selftype = None

    # -- fields ---------------------------------------------------------------
    def fact(self, I, st, f):
        if not any(p.eq(f) for p in st.pc):
            st.pc.append(f)

    def gfact(self, I, guard, f):
        """a well-formedness fact that does not depend on the path: the precondition of
        the contract (the element was built from a well-formed document)"""
        f = z3.Implies(band(*guard), f) if guard else f
        key = f.get_id()
        if key not in self.known:
            self.known[key] = f
            I.global_facts.append(smt.soft(f))

    def describe(self, x):
        """(types, guard) of an element of the document, or None for an unknown term"""
        if x.decl().name() == "SELF":
            return ((self.selftype,), []) if self.selftype else None
        if x.decl().name() != "elem":
            return None
        L, k = x.children()
        if L.decl().name() != "list_of" or L.arg(0).decl().name() != "get":
            return None
        y, fld = L.arg(0).children()
        fld = smt.str_const(fld)
        d = self.describe(y)
        if d is None:
            return None
        ytypes, g = d[:2]
        groups = {}
        for t in ytypes:
            sp = spec_of(NODES[t]).get(fld) if t in NODES else None
            if sp is None or sp[2][0] != fld:
                continue
            groups.setdefault((allowed(sp[2]), sp[1] == "opt"), []).append(t)
        allt = []
        for (ts, opt) in groups:
            allt += [t for t in ts if t not in allt]
        return tuple(allt), g + [k >= 0, k < z3.Length(L)], groups, y, fld

    def declare(self, I, x):
        """the types the format allows for x, given the type of the element it belongs to"""
        if ("d", x.get_id()) in self.known:
            return self.known[("d", x.get_id())]
        d = self.describe(x)
        ok = d is not None and len(d) > 2
        self.known[("d", x.get_id())] = ok
        self.known[("keep", x.get_id())] = x
        if not ok:
            return False
        _, g, groups, y, fld = d
        for (ts, opt), yts in groups.items():
            gg = list(g)
            if len(yts) != len(self.describe(y)[0]):
                gg.append(type_in(y, yts))
            if opt:
                gg.append(smt.has(y, sval(fld)))
            self.gfact(I, gg, type_in(x, ts))
        return True

    def declare_inst(self, I, clsname, base, fs):
        """facts about the fields of an attrs object that belongs to an element"""
        if base.decl().name() != "get":
            return False
        y = base.arg(0)
        d = self.describe(y)
        if d is None:
            return False
        fld = smt.str_const(base.arg(1))
        ts, opt = [], False
        for t in d[0]:
            for cm in (NODES, MARKS):
                sp = spec_of(cm[t]).get(fld) if t in cm else None
                if sp is not None and sp[2] == ("attrs", clsname):
                    ts.append(t)
                    opt = opt or sp[1] == "opt"
        if not ts:
            return False
        gg = list(d[1])
        if len(ts) != len(d[0]):
            gg.append(type_in(y, ts))
        if opt:
            gg.append(smt.has(y, sval(fld)))
        for f in fs:
            self.gfact(I, gg, f)
        return True

    def plain(self, I, st, clsname, base, name, kt):
        g = smt.get(base, sval(name))
        k = kt[0]
        if k == "str":
            return mkstr(smt.sv(g))
        if k == "enum":
            t = smt.sv(g)
            if (clsname, name) in ENUM_CONSTRAINED:
                f = bor(*[t == sval(x) for x in kt[1]])
                if not self.declare_inst(I, clsname, base, [f]):
                    self.fact(I, st, f)
            return mkstr(t)
        if k == "int":
            return mkint(smt.iv(g))
        if k == "bool":
            return mkbool(smt.bv(g))
        if k in ("num", "json"):
            return SVal(g, "json", "borrowed")
        if k == "attrs":
            return self.make_inst(I, st, kt[1], g)
        if k in ("content", "marks"):
            tag = "node" if k == "content" else "mark"
            t = smt.lv(g)
            ref = I.alloc(st, ListObj((SegS(t, (tag, allowed(kt)), "borrowed"),), False))
            if k == "content" and self.filtered and I.side == "filtered":
                from . import specs

                return I.call(st, specs.survivors, [ref], {})
            return ref
        raise Unsupported("field kind %s" % (kt,))

    def field(self, I, st, clsname, base, fs):
        name, status, kt = fs
        if name == "type" and CLASSES[clsname]["type"] is not None:
            return CLASSES[clsname]["type"]
        v = self.plain(I, st, clsname, base, name, kt)
        if status == "opt":
            p = self.present(clsname, base, name)
            if p is True:
                return v
            return SUnion([(p, v), (bnot(p), I.OPT)])
        return v

    def present(self, clsname, base, name):
        return smt.has(base, sval(name))

    def inst_facts(self, clsname, base):
        """well-formedness facts the format promises beyond the field table"""
        g = lambda n: smt.get(base, sval(n))
        h = lambda n: smt.has(base, sval(n))
        if clsname == "NodeMediaAttrs":
            t = smt.sv(g("type"))
            return [z3.Implies(t == sval("external"), h("url")), z3.Implies(t == sval("file"), h("id"))]
        if clsname in ("NodeHeadingAttrs", "MarkIndentationAttrs"):
            return [smt.iv(g("level")) >= 1, smt.iv(g("level")) <= 6]
        if clsname == "NodeOrderedListAttrs":
            return [z3.Implies(h("order"), smt.iv(g("order")) >= 0)]
        if clsname == "NodeDateAttrs":
            t = smt.sv(g("timestamp"))
            lo, hi = -62135596800000 + 1, 253402300799999
            return [smt.int_ok(t), smt.int_val(t) >= lo, smt.int_val(t) <= hi]
        return []

    def make_inst(self, I, st, clsname, base):
        fs = self.inst_facts(clsname, base)
        if not self.declare_inst(I, clsname, base, fs):
            for f in fs:
                self.fact(I, st, f)
        fields = {}
        for fs in CLASSES[clsname]["fields"]:
            fields[fs[0]] = self.field(I, st, clsname, base, fs)
        return I.alloc(st, Inst(host(clsname), fields, False))

    def make_self(self, I, st, clsname):
        base = z3.Const("SELF", smt.Val)
        if CLASSES[clsname]["type"]:
            self.selftype = CLASSES[clsname]["type"]
            self.fact(I, st, smt.typ(base) == sval(CLASSES[clsname]["type"]))
        return self.make_inst(I, st, clsname, base)

    # -- children by contract ---------------------------------------------------
    def types_of(self, v):
        if v.ann:
            return tuple(v.ann)
        return tuple(NODES) if v.tag == "node" else tuple(MARKS)

    def classmap(self, v):
        return NODES if v.tag == "node" else MARKS

    def narrow(self, I, st, v):
        ts = self.types_of(v)
        if not self.declare(I, v.t):
            self.fact(I, st, type_in(v.t, ts))
        return ts

    def by_group(self, I, st, v, groups):
        """branch on the type of v between groups [(types, payload)]"""
        for i, (ts, p) in enumerate(groups):
            if i == len(groups) - 1:
                self.fact(I, st, type_in(v.t, ts))
                return ts, p
            if I.branch(st, type_in(v.t, ts)):
                return ts, p

    def group(self, ts, key):
        g = {}
        for t in ts:
            k, p = key(t)
            g.setdefault(k, (p, []))[1].append(t)
        return [(tuple(l), p) for k, (p, l) in g.items()]

    def virtual_attr(self, I, st, v, name, default, hasdefault):
        ts = self.narrow(I, st, v)
        cm = self.classmap(v)
        if name == "type":
            return mkstr(smt.typ(v.t))
        if name == "__class__":
            return self.class_of(I, st, v)

        def key(t):
            sp = spec_of(cm[t])
            if name in sp:
                return ("field",) + tuple(map(repr, sp[name][1:])), ("field", cm[t], sp[name])
            c, m = I.find_in_mro(host(cm[t]), name)
            if c is None:
                return ("none",), ("none", None, None)
            if name in ("to_markdown", "to_dict", "from_dict"):
                return ("contract",), ("contract", None, None)
            return ("member", id(m)), ("member", c, m)

        ts2, (k, c, m) = self.by_group(I, st, v, self.group(ts, key))
        if k == "field":
            return self.field(I, st, c, v.t, m)
        if k == "none":
            if hasdefault:
                return default
            I.throw(st, AttributeError, name)
        recv = SVal(v.t, v.tag, v.prov, ts2)
        if k == "contract":
            return VMethod(name, recv)
        return I.bind_member(st, recv, host(cm[ts2[0]]), c, m, name)

    def class_of(self, I, st, v):
        ts = self.narrow(I, st, v)
        cm = self.classmap(v)
        if len(ts) == 1:
            return host(cm[ts[0]])
        return SUnion([(smt.typ(v.t) == sval(t), host(cm[t])) for t in ts])

    def isinstance_virtual(self, I, st, v, cls):
        if v.tag == "enum":
            return cls is object or issubclass(cls, type(v.ann)) if v.ann is not None else True
        ts = self.narrow(I, st, v)
        cm = self.classmap(v)
        yes = [t for t in ts if issubclass(host(cm[t]), cls)]
        if len(yes) == len(ts):
            return True
        return type_in(v.t, yes) if yes else False

    def virtual_call(self, I, st, r, name, args, kwargs):
        if name == "to_markdown":
            return self.call_markdown(I, st, r, args, kwargs)
        if name == "to_dict":
            if args or kwargs:
                raise Unsupported("to_dict with arguments")
            I.contracts_used.add("child.to_dict")
            I.add_global([], smt.kind(smt.TD(r.t)) == smt.K["dict"])
            return SVal(smt.TD(r.t), "json", "fresh")
        raise Unsupported("method %s of a child element" % name)

    def call_markdown(self, I, st, r, args, kwargs):
        ts = self.narrow(I, st, r)
        cm = self.classmap(r)
        if r.tag == "mark":
            return self.call_mark(I, st, r, ts, args, kwargs)
        I.contracts_used.add("child.to_markdown")

        def key(t):
            f = host(cm[t]).to_markdown
            ps = [p for p in inspect.signature(f).parameters.values()][1:]
            return tuple((p.name, repr(p.default), str(p.kind)) for p in ps), ps

        ts, ps = self.by_group(I, st, r, self.group(ts, key))
        names = [p.name for p in ps]
        vals = {}
        if len(args) > len(names) or any(k not in names for k in kwargs):
            I.throw(st, TypeError, "to_markdown() got an unexpected argument")
        for n, a in zip(names, args):
            vals[n] = a
        for k, a in kwargs.items():
            if k in vals:
                I.throw(st, TypeError, "to_markdown() got multiple values")
            vals[k] = a
        for n in vals:
            if n not in ("ignore_error", "level"):
                raise Unsupported("argument %s of to_markdown" % n)
        dflt = {p.name: p.default for p in ps}
        ie = vals.get("ignore_error", dflt.get("ignore_error", False))
        lvl = vals.get("level", dflt.get("level", 0))
        iet = I.truth(st, ie)
        lvl = I.resolve(st, lvl)
        if not is_intlike(lvl):
            raise Unsupported("level argument")
        if I.side != "spec":
            for u in UNFOLD:
                if u in ts and (len(ts) == 1 or not I.feasible(st, z3.Not(smt.typ(r.t) == sval(u)))):
                    # the contract of this child's class, discharged for it under C10
                    I.contracts_used.add(cm[u] + ".to_markdown")
                    return I.call(st, getattr(importlib.import_module("dv.specs"), cm[u]), [SVal(r.t, r.tag, r.prov, (u,)), ie], {})
        return self.render(I, st, r.t, ts, iet if not isinstance(iet, bool) else z3.BoolVal(iet), it_(lvl))

    def render(self, I, st, x, ts, ie, lvl):
        leafs = [t for t in ts if t not in CONTAINERS]
        leaf = z3.BoolVal(False) if not leafs else z3.BoolVal(True) if len(leafs) == len(ts) else type_in(x, leafs)
        lists = [t for t in ts if t in LISTS]
        if not lists:
            lvl = z3.IntVal(0)
        if self.record_ie and I.side == "code":
            ok = smt.prove(I.global_facts + st.pc, bor(leaf, ie), 2000)
            I.obligations.append(("errors-ignored flag passed to a child container", bool(ok)))
        F = z3.BoolVal(False)
        if self.children == "ok":
            return SStr(smt.MD(x, F, lvl))
        ien = z3.simplify(z3.And(ie, z3.Not(leaf)))
        cond = z3.simplify(band(bor(leaf, bnot(ie)), smt.RZ(x, F, lvl)))
        if I.branch(st, cond):
            raise PyExc(SExc(smt.EX(x, F, lvl)))
        return SStr(smt.MD(x, ien, lvl))

    def fails(self, I, st, v):
        """does this child fail when errors are ignored? (specification predicate)"""
        ts = self.narrow(I, st, v)
        leafs = [t for t in ts if t not in CONTAINERS]
        if not leafs:
            return False
        leaf = z3.BoolVal(True) if len(leafs) == len(ts) else type_in(v.t, leafs)
        return mkbool(band(leaf, smt.RZ(v.t, z3.BoolVal(False), z3.IntVal(0))))

    def call_mark(self, I, st, r, ts, args, kwargs):
        I.contracts_used.add("mark.to_markdown")
        a = list(args)
        for k in kwargs:
            if k != "text":
                I.throw(st, TypeError, "to_markdown() got an unexpected argument")
            a.append(kwargs[k])
        if len(a) != 1:
            I.throw(st, TypeError, "to_markdown() arguments")
        t = I.resolve(st, a[0])
        if not is_strlike(t):
            raise Unsupported("mark applied to a non-string")
        t = st_(t)
        if "code" in ts:
            c = band(smt.typ(r.t) == sval("code"), z3.Contains(t, smt.NL))
            if I.branch(st, c):
                e = smt.EM(r.t, t)
                smt.register_exc_class(AttributeError)
                st.pc.append(z3.Not(smt.exc_isa(e, sval("AttributeError"))))
                raise PyExc(SExc(e))
        return SStr(smt.MM(r.t, t))

    def global_init(self, I, st, g):
        return None

    def interfere(self, I, st, g, o):
        return None
