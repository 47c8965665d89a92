"""Values of the symbolic interpreter.

Host (concrete) Python values are used as they are; everything symbolic or
heap-allocated is an instance of Sym.
"""
import enum
import types
import z3
from . import smt
from .smt import sval


class Unsupported(Exception):
    """the code uses a construct outside the verified subset"""


class PyExc(Exception):
    """a Python exception raised by the interpreted program"""

    def __init__(self, exc):
        self.exc = exc


class Infeasible(Exception):
    pass


class Sym:
    __slots__ = ()


class SStr(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SStr(%s)" % self.t


class SInt(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SInt(%s)" % self.t


class SReal(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class SBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SBool(%s)" % self.t


class SVal(Sym):
    """dynamically typed value; tag: node | mark | json | val; prov: imm | fresh | borrowed"""
    __slots__ = ("t", "tag", "prov", "ann")

    def __init__(self, t, tag="val", prov="imm", ann=None):
        self.t, self.tag, self.prov, self.ann = t, tag, prov, ann

    def __repr__(self):
        return "SVal(%s,%s)" % (self.t, self.tag)


class SUnion(Sym):
    """guarded alternatives with mutually exclusive, exhaustive conditions"""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "SUnion(%s)" % (self.alts,)


class STuple(Sym):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class Ref(Sym):
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("Ref", self.id))

    def __repr__(self):
        return "Ref(%s)" % (self.id,)


class SExc(Sym):
    """exception value: z3 term, and the host class when statically known"""
    __slots__ = ("t", "cls", "args")

    def __init__(self, t, cls=None, args=()):
        self.t, self.cls, self.args = t, cls, args

    def __repr__(self):
        return "SExc(%s)" % self.t


class SDate(Sym):
    """a naive or aware datetime/date: kind 'dt' (seconds as real) or 'date' (days as int)"""
    __slots__ = ("k", "t")

    def __init__(self, k, t):
        self.k, self.t = k, t


class Closure(Sym):
    __slots__ = ("node", "fid", "glob", "defaults", "kwdefaults", "defcls", "name")

    def __init__(self, node, fid, glob, defaults, kwdefaults, defcls, name):
        self.node, self.fid, self.glob = node, fid, glob
        self.defaults, self.kwdefaults, self.defcls, self.name = defaults, kwdefaults, defcls, name


class Bound(Sym):
    """bound method: host function or Closure with a receiver"""
    __slots__ = ("fn", "self_", "defcls")

    def __init__(self, fn, self_, defcls=None):
        self.fn, self.self_, self.defcls = fn, self_, defcls


class VMethod(Sym):
    """method of a builtin-typed or virtual receiver, dispatched by name"""
    __slots__ = ("name", "recv")

    def __init__(self, name, recv):
        self.name, self.recv = name, recv


class Super(Sym):
    __slots__ = ("cls", "recv", "rcls")

    def __init__(self, cls, recv, rcls):
        self.cls, self.recv, self.rcls = cls, recv, rcls


class Iter(Sym):
    """lazy iterable: range / enumerate / zip / reversed / map / dict views / generators / sets;
    `once` refers to the heap record that says whether a one-shot iterator was used already"""
    __slots__ = ("kind", "args", "once")

    def __init__(self, kind, *args):
        self.kind, self.args, self.once = kind, args, None


class CtxMgr(Sym):
    """a context manager of contextlib: suppress(*classes) or nullcontext(value)"""
    __slots__ = ("kind", "arg")

    def __init__(self, kind, arg):
        self.kind, self.arg = kind, arg


class Pending(Sym):
    """how a with-body left, delivered when its generator-based context manager ends"""
    __slots__ = ("kind", "val")

    def __init__(self, kind, val):
        self.kind, self.val = kind, val


class Native(Sym):
    """a function of the model itself: fn(I, st, args, kwargs)"""
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class ExtObj(Sym):
    """an object of the outside world, known by its contract: attr(I, st, name) -> value or None"""
    __slots__ = ("attr", "what", "data")

    def __init__(self, what, attr, data=None):
        self.what, self.attr, self.data = what, attr, data


class Poison(Sym):
    """value not tracked (loop temporary after the loop)"""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why


# -- list segments ----------------------------------------------------------
class SegE:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class SegS:
    """a symbolic sequence; wrap says how elements are unboxed"""
    __slots__ = ("t", "wrap", "prov")

    def __init__(self, t, wrap="val", prov="imm"):
        self.t, self.wrap, self.prov = t, wrap, prov


class SegG:
    """items appended by a loop (loop, appended segments at the generic index, term)"""
    __slots__ = ("loop", "segs", "t", "wrap")

    def __init__(self, loop, segs, t, wrap):
        self.loop, self.segs, self.t, self.wrap = loop, segs, t, wrap


class SegC:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, tuple(a), tuple(b)


# -- heap records (immutable; replaced on write) -----------------------------
class ListObj:
    __slots__ = ("segs", "fresh")

    def __init__(self, segs, fresh):
        self.segs, self.fresh = tuple(segs), fresh


class DictObj:
    """entries: key -> (present, value) with present True/False/z3 Bool; base: SVal or None"""
    __slots__ = ("entries", "base", "fresh", "iprov")

    def __init__(self, entries, base, fresh, iprov="fresh"):
        self.entries, self.base, self.fresh, self.iprov = entries, base, fresh, iprov


class MapObj:
    """dictionary with computed string keys, tracked exactly at one arbitrary key (a universally quantified
    constant): presence and value live in the hidden frame `fid`; `other` remembers what this path knows of other keys"""
    __slots__ = ("fid", "key", "other", "factory", "fresh")

    def __init__(self, fid, key, other, factory, fresh=True):
        self.fid, self.key, self.other, self.factory, self.fresh = fid, key, other, factory, fresh


class IterSt:
    """state of a one-shot iterator: used False, True or None (unknown); pos elements were taken one by one"""
    __slots__ = ("used", "pos")

    def __init__(self, used, pos=0):
        self.used, self.pos = used, pos


class Inst:
    __slots__ = ("cls", "fields", "fresh")

    def __init__(self, cls, fields, fresh):
        self.cls, self.fields, self.fresh = cls, fields, fresh


class GlobalDict:
    """module-level dict with history-dependent content (a cache)"""
    __slots__ = ("host", "name")

    def __init__(self, host, name):
        self.host, self.name = host, name


def is_strlike(v):
    return isinstance(v, (str, SStr))


def is_boollike(v):
    return isinstance(v, (bool, SBool))


def is_intlike(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or isinstance(v, SInt)


def st_(v):
    """string term"""
    return sval(v) if isinstance(v, str) else v.t


def it_(v):
    return z3.IntVal(v) if isinstance(v, int) else v.t


def bt_(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v.t


def mkstr(t):
    if smt.is_str_const(t):
        return smt.str_const(t)
    return SStr(t)


def mkint(t):
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


def mkbool(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def band(*cs):
    cs = [c for c in cs if c is not True and not (z3.is_expr(c) and z3.is_true(c))]
    if any(c is False or (z3.is_expr(c) and z3.is_false(c)) for c in cs):
        return z3.BoolVal(False)
    if not cs:
        return z3.BoolVal(True)
    if len(cs) == 1:
        return cs[0]
    return z3.And(*cs)


def bor(*cs):
    cs = [c for c in cs if c is not False and not (z3.is_expr(c) and z3.is_false(c))]
    if any(c is True or (z3.is_expr(c) and z3.is_true(c)) for c in cs):
        return z3.BoolVal(True)
    if not cs:
        return z3.BoolVal(False)
    if len(cs) == 1:
        return cs[0]
    return z3.Or(*cs)


def bnot(c):
    if isinstance(c, bool):
        return z3.BoolVal(not c)
    if z3.is_true(c):
        return z3.BoolVal(False)
    if z3.is_false(c):
        return z3.BoolVal(True)
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)
