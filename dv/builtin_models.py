"""Contracts of the Python built-ins and library functions the package calls.

Every model is a trusted contract (listed in the evidence); dv/selftest.py runs
the concrete counterparts against CPython.
"""
import ast
import builtins
import copy
import dataclasses
import datetime
import enum
import functools
import inspect
import io
import itertools
import contextlib
import logging
import operator
import re
import string
import textwrap
import types
import typing
import z3

from . import smt
from .smt import sval, sconcat, vconcat, fresh
from .values import *

TABLE = {}
NAMES = {}


def model(*hosts):
    def deco(f):
        for h in hosts:
            TABLE[h] = f
            NAMES[h] = getattr(h, "__qualname__", str(h))
        return f

    return deco


def lookup(f):
    try:
        m = TABLE.get(f)
    except TypeError:
        return None
    if m is not None:
        return m
    s = getattr(f, "__self__", None)
    if isinstance(s, logging.Logger):
        nm = f.__name__
        if nm in ("warning", "warn", "error", "critical", "info", "debug", "exception", "log"):
            return lambda I, st, a, k: log_call(I, st, nm, a, k)
        if nm in ("isEnabledFor", "getEffectiveLevel"):
            return lambda I, st, a, k: (_ for _ in ()).throw(Unsupported("logger level test"))
    return None


def name_of(f):
    m = getattr(f, "__module__", None) or ""
    return "%s.%s" % (m, getattr(f, "__qualname__", repr(f)))


PURE_MODULES = ("builtins", "dataclasses", "typing", "enum", "string", "re", "itertools", "functools", "inspect", "operator")


def is_concrete(v):
    if isinstance(v, Sym):
        return False
    if isinstance(v, (list, tuple, set, frozenset)):
        return all(is_concrete(x) for x in v)
    if isinstance(v, dict):
        return all(is_concrete(x) for x in v.values())
    return True


ATOMS = (
    type(None), bool, int, float, complex, str, bytes, range, types.ModuleType, types.FunctionType, types.WrapperDescriptorType, types.MethodDescriptorType,
    types.ClassMethodDescriptorType, types.GetSetDescriptorType, types.MemberDescriptorType, type(NotImplemented), type(Ellipsis), type, property, re.Pattern,
    re.Match, types.GenericAlias, types.UnionType, types.MappingProxyType, logging.Logger, functools._lru_cache_wrapper, datetime.timezone, datetime.date,
    datetime.timedelta, functools.cached_property, inspect.Signature, inspect.Parameter, dataclasses.Field, operator.attrgetter, operator.itemgetter,
    operator.methodcaller,
)
PURE_BUILTINS = ("builtins", "math", "_operator", "itertools", "_functools", "unicodedata", "_sre", "_string", "_typing", "_abc")
IMPURE = (print, open, exec, eval, input, setattr, delattr, globals, locals, vars, __import__, id, hash, compile, breakpoint, next, iter)


def inert(v, depth=0):
    """a host value that nothing can change: reading it at any time gives what it holds now"""
    if isinstance(v, enum.Enum) or isinstance(v, ATOMS) or type(v) is object:
        return True
    if isinstance(v, (tuple, frozenset)):
        return all(inert(x, depth + 1) for x in v)
    if isinstance(v, slice):
        return True
    if isinstance(v, (types.BuiltinFunctionType, types.MethodType, types.MethodWrapperType)):
        return inert(v.__self__, depth + 1)
    if isinstance(v, (classmethod, staticmethod)):
        return inert(v.__func__, depth + 1)
    if isinstance(v, functools.partial):
        return inert(v.func) and inert(v.args) and all(inert(x) for x in v.keywords.values())
    t = type(v)
    if t.__module__ in ("typing", "dataclasses", "_frozen_importlib", "__future__") or t.__name__ == "_Sentinel" and t.__module__ == "func_args.arg":
        return True
    if dataclasses.is_dataclass(v) and t.__dataclass_params__.frozen and depth < 4:
        return all(inert(x, depth + 1) for x in vars(v).values())
    return False


def plain_data(v):
    if type(v) in (list, set):
        return all(plain_data(x) for x in v)
    if type(v) is dict:
        return all(plain_data(x) for x in v.values())
    return inert(v)


def pure_function(f):
    if any(f is g for g in IMPURE):
        return False
    if isinstance(f, type):
        return f.__module__ in PURE_MODULES and f.__init__ is not type.__init__
    if isinstance(f, (types.BuiltinFunctionType, types.MethodWrapperType)):
        s = f.__self__
        if isinstance(s, types.ModuleType):
            return s.__name__ in PURE_BUILTINS and f.__name__ not in ("setitem", "delitem") and not (s.__name__ == "_operator" and f.__name__.startswith("i"))
        return inert(s) and not f.__name__.startswith(("__set", "__del", "__init")) and (not isinstance(s, type) or s.__module__ == "builtins")
    if isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType)):
        return f.__objclass__ in (str, bytes, int, float, bool, tuple, frozenset)
    return (getattr(f, "__module__", None) or "").split(".")[0] in PURE_MODULES and inert(f)


def host_call(I, st, f, args, kwargs):
    if callable(f) and pure_function(f):
        vs = list(args) + list(kwargs.values())
        if all(is_concrete(a) for a in vs) and all(plain_data(a) for a in vs):
            try:
                r = f(*args, **kwargs)
            except Exception as e:
                I.throw(st, type(e), *[a for a in e.args if isinstance(a, (str, int))])
            if type(r) in (list, dict, set):
                return to_heap(I, st, r)
            if isinstance(r, types.GeneratorType) or hasattr(r, "__next__"):
                xs = list(itertools.islice(r, 1001))
                if len(xs) > 1000:
                    raise Unsupported("an endless iterator")
                return I.one_shot(st, Iter("segs", tuple(SegE(x) for x in xs)))
            if not inert(r) and I.ext is None:
                raise Unsupported("an object of class %s made by the host" % type(r).__name__)
            return r
    return NotImplemented


def to_heap(I, st, r):
    if isinstance(r, list):
        return I.new_list(st, [SegE(x) for x in r])
    if isinstance(r, dict):
        return I.alloc(st, DictObj({k: (True, v) for k, v in r.items()}, None, True))
    return frozenset(r) if isinstance(r, set) else r


# ---------------------------------------------------------------- logging ---
def log_call(I, st, nm, args, kwargs):
    if nm in ("info", "debug"):
        return None
    if nm == "log":
        import logging

        if not args or args[0] not in (logging.WARNING, logging.ERROR, logging.CRITICAL):
            raise Unsupported("logger.log")
        nm = {logging.WARNING: "warning", logging.ERROR: "error"}.get(args[0], "critical")
        args = args[1:]
    msg = args[0]
    if len(args) > 1:
        msg = percent_format(I, st, msg, STuple(args[1:]) if len(args) > 2 else args[1])
    else:
        msg = py_str(I, st, msg)
    if getattr(I, "log_hook", None) is not None:
        I.log_hook(I, st, "warning" if nm == "warn" else nm, msg)
        return None
    if nm != "warning" and nm != "warn":
        msg = mkstr(sconcat(sval("<%s>" % nm), st_(msg)))
    if "LOG" not in st.heap:
        raise Unsupported("logging without a log model")
    list_append(I, st, Ref("LOG"), msg)
    return None


# ------------------------------------------------------------ conversions ---
def py_str(I, st, v):
    if isinstance(v, SUnion):
        t = None
        try:
            for c, w in reversed(v.alts):
                s = st_(py_str(I, st, w))
                t = s if t is None else z3.If(c, s, t)
            return mkstr(t)
        except Unsupported:
            v = I.resolve(st, v)
    if isinstance(v, (str, SStr)):
        return v
    if isinstance(v, SBool):
        return mkstr(z3.If(v.t, sval("True"), sval("False")))
    if isinstance(v, SInt):
        return SStr(smt.itos(v.t))
    if isinstance(v, SVal):
        if v.tag in ("node", "mark"):
            raise Unsupported("str() of an element")
        return SStr(smt.val_str(v.t))
    if isinstance(v, SDate):
        if v.k == "date":
            return SStr(smt.iso_day(v.t))
        raise Unsupported("str of datetime")
    if isinstance(v, SExc):
        if v.cls is not None and len(v.args) == 1 and v.cls.__str__ is BaseException.__str__ and not is_custom_exc(v.cls):
            return py_str(I, st, v.args[0])
        return SStr(smt.exc_str(v.t))
    if isinstance(v, Sym):
        raise Unsupported("str() of %r" % (v,))
    return str(v)


def is_custom_exc(cls):
    return "__init__" in cls.__dict__ and cls.__module__ != "builtins"


def py_repr(I, st, v):
    v = I.resolve(st, v)
    if not isinstance(v, Sym):
        return repr(v)
    if isinstance(v, SInt):
        return SStr(smt.itos(v.t))
    try:
        t = I.box(st, v)
    except Unsupported:
        t = fresh("repr", smt.Val)
    return SStr(smt.uf("py_repr", smt.Val, smt.S)(t))


def format_spec(I, st, v, spec):
    v = I.resolve(st, v)
    if not isinstance(v, Sym) and not isinstance(spec, Sym):
        return format(v, spec)
    if isinstance(spec, str) and spec in ("", "s", "d"):
        return py_str(I, st, v)
    return SStr(smt.uf("py_format", smt.Val, smt.S, smt.S)(I.box(st, v), st_(spec)))


def as_str(I, st, v, what="string operation"):
    v = I.resolve(st, v)
    if isinstance(v, SVal) and v.tag not in ("node", "mark"):
        if I.branch(st, smt.kind(v.t) == smt.K["str"]):
            return mkstr(smt.sv(v.t))
        I.throw(st, TypeError, what)
    if not is_strlike(v):
        I.throw(st, TypeError, what)
    return v


def as_int(I, st, v, what="integer operation"):
    v = I.resolve(st, v)
    if isinstance(v, SVal) and v.tag not in ("node", "mark"):
        if I.branch(st, smt.kind(v.t) == smt.K["int"]):
            return mkint(smt.iv(v.t))
        I.throw(st, TypeError, what)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, SBool):
        return mkint(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
    if not is_intlike(v):
        I.throw(st, TypeError, what)
    return v


@model(str)
def m_str(I, st, a, k):
    if not a:
        return ""
    return py_str(I, st, a[0])


@model(repr)
def m_repr(I, st, a, k):
    return py_repr(I, st, a[0])


@model(int)
def m_int(I, st, a, k):
    v = I.resolve(st, a[0]) if a else 0
    if len(a) > 1 or k:
        raise Unsupported("int with base")
    if isinstance(v, SVal):
        v = I.kind_fork(st, v)
    if isinstance(v, SVal) and v.tag not in ("node", "mark") and I.branch(st, smt.kind(v.t) == smt.K["float"]):
        v = SReal(smt.uf("float_of", smt.Val, smt.R)(v.t))
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            I.throw(st, ValueError, "int")
    if isinstance(v, SStr):
        if I.branch(st, smt.int_ok(v.t)):
            return SInt(smt.int_val(v.t))
        I.throw(st, ValueError, "int")
    if isinstance(v, (SInt, int)) and not isinstance(v, bool):
        return v
    if isinstance(v, (bool, SBool)):
        return as_int(I, st, v)
    if isinstance(v, SReal):
        return mkint(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
    if isinstance(v, Sym):
        I.throw(st, TypeError, "int")
    return int(v)


@model(float)
def m_float(I, st, a, k):
    v = I.resolve(st, a[0])
    if isinstance(v, SVal):
        v = I.kind_fork(st, v)
    if isinstance(v, SStr):
        # only integral numerals are within the model
        if I.branch(st, smt.int_ok(v.t)):
            return SReal(z3.ToReal(smt.int_val(v.t)))
        raise Unsupported("float of text")
    if isinstance(v, SInt):
        return SReal(z3.ToReal(v.t))
    if isinstance(v, SReal):
        return v
    if isinstance(v, Sym):
        raise Unsupported("float")
    return float(v)


@model(bool)
def m_bool(I, st, a, k):
    if not a:
        return False
    return mkbool(I.truth(st, a[0]))


@model(len)
def m_len(I, st, a, k):
    v = I.resolve(st, a[0])
    if isinstance(v, str):
        return len(v)
    if isinstance(v, SStr):
        return mkint(z3.simplify(z3.Length(v.t)))
    if isinstance(v, STuple):
        return len(v.items)
    if isinstance(v, Ref):
        o = st.heap[v.id]
        if isinstance(o, ListObj):
            return seg_len(I, st, o.segs)
        if isinstance(o, DictObj) and o.base is None:
            t = z3.IntVal(0)
            for p, _ in o.entries.values():
                t = t + (1 if p is True else z3.If(bt_(p) if isinstance(p, bool) else p, 1, 0))
            return mkint(z3.simplify(t))
        raise Unsupported("len")
    if isinstance(v, SVal):
        if v.tag in ("node", "mark"):
            I.throw(st, TypeError, "len")
        if v.tag == "jsonlist" or I.branch(st, smt.kind(v.t) == smt.K["list"]):
            return SInt(z3.Length(smt.lv(v.t)))
        if I.branch(st, smt.kind(v.t) == smt.K["str"]):
            return SInt(z3.Length(smt.sv(v.t)))
        raise Unsupported("len of dynamic value")
    if isinstance(v, GlobalRefT()):
        raise Unsupported("len of a mutable module-level object")
    if isinstance(v, (Iter, Pending, ExtObj, Poison, Native)):
        raise Unsupported("len of %r" % (v,))
    if isinstance(v, Sym):
        I.throw(st, TypeError, "len")
    try:
        return len(v)
    except TypeError:
        I.throw(st, TypeError, "len")


def seg_len(I, st, segs):
    n, t = 0, None
    for s in segs:
        if isinstance(s, SegE):
            n += 1
        else:
            l = z3.Length(I.seg_term(st, s))
            t = l if t is None else t + l
    if t is None:
        return n
    return mkint(z3.simplify(t + n) if n else t)


# ------------------------------------------------------------ type tests ----
def isinst(I, st, v, cls):
    """bool or z3 Bool"""
    if isinstance(cls, STuple):
        return bor(*[_b(isinst(I, st, v, c)) for c in cls.items])
    if isinstance(cls, tuple):
        return bor(*[_b(isinst(I, st, v, c)) for c in cls])
    if isinstance(cls, types.UnionType):
        return bor(*[_b(isinst(I, st, v, c)) for c in cls.__args__])
    if not isinstance(cls, type):
        org = typing.get_origin(cls)
        if org is None:
            raise Unsupported("isinstance with %r" % (cls,))
        I.throw(st, TypeError, "isinstance")
    if isinstance(v, SUnion):
        return bor(*[band(c, _b(isinst(I, st, w, cls))) for c, w in v.alts])
    if isinstance(v, (str, SStr)):
        return issubclass(str, cls)
    if isinstance(v, SBool):
        return issubclass(bool, cls)
    if isinstance(v, SInt):
        return issubclass(int, cls)
    if isinstance(v, SReal):
        return issubclass(float, cls)
    if isinstance(v, STuple):
        return issubclass(tuple, cls)
    if isinstance(v, Ref):
        o = st.heap[v.id]
        if isinstance(o, ListObj):
            return issubclass(list, cls)
        if isinstance(o, DictObj):
            return issubclass(dict, cls) or cls.__name__ in ("Mapping", "MutableMapping")
        return issubclass(o.cls, cls)
    if isinstance(v, GlobalRefT()):
        return isinstance(v.host, cls)
    if isinstance(v, SVal):
        if I.ext is not None and v.tag in I.ext.tags:
            return I.ext.isinstance_(I, st, v, cls)
        if v.tag in ("node", "mark", "enum"):
            return I.world.isinstance_virtual(I, st, v, cls)
        if cls is object:
            return True
        ks = {str: ["str"], int: ["int", "bool"], bool: ["bool"], float: ["float"], list: ["list"], dict: ["dict"], type(None): ["none"]}.get(cls)
        if ks is None:
            if cls is I.OPT.__class__:
                ks = ["opt", "req"]
            elif cls.__name__ in ("Mapping", "MutableMapping"):
                ks = ["dict"]
            elif cls.__name__ in ("Sequence",):
                ks = ["list", "str"]
            elif cls is tuple or cls is set or issubclass(cls, enum.Enum) or dataclasses.is_dataclass(cls):
                return False
            elif cls.__name__ in ("Number", "Real"):
                ks = ["int", "float", "bool"]
            else:
                raise Unsupported("isinstance of dynamic value with %s" % cls.__name__)
        return z3.Or(*[smt.kind(v.t) == smt.K[x] for x in ks])
    if isinstance(v, SExc):
        return I._emb(st, v, cls)
    if isinstance(v, SDate):
        return issubclass(datetime.datetime if v.k == "dt" else datetime.date, cls)
    if isinstance(v, (Closure, Bound)):
        return cls in (types.FunctionType, object)
    if isinstance(v, Iter):
        return False
    if isinstance(v, Sym):
        raise Unsupported("isinstance of %r" % (v,))
    return isinstance(v, cls)


def GlobalRefT():
    from .interp import GlobalRef

    return GlobalRef


def _b(r):
    return z3.BoolVal(r) if isinstance(r, bool) else r


@model(isinstance)
def m_isinstance(I, st, a, k):
    v = a[0]
    if not isinstance(v, SUnion):
        v = I.resolve(st, v)
    r = isinst(I, st, v, I.resolve(st, a[1]))
    return mkbool(r)


@model(issubclass)
def m_issubclass(I, st, a, k):
    c, d = I.resolve(st, a[0]), I.resolve(st, a[1])
    from .interp import ExcType

    if isinstance(c, ExcType):
        return mkbool(I.exc_match(st, c.e, d))
    if isinstance(d, STuple):
        d = d.items
    return issubclass(c, d)


@model(callable)
def m_callable(I, st, a, k):
    v = I.resolve(st, a[0])
    if isinstance(v, (Closure, Bound, VMethod)):
        return True
    if isinstance(v, Sym):
        return False
    return callable(v)


@model(type)
def m_type(I, st, a, k):
    if len(a) != 1:
        raise Unsupported("type() with 3 arguments")
    v = I.resolve(st, a[0])
    if isinstance(v, Ref):
        o = st.heap[v.id]
        return list if isinstance(o, ListObj) else dict if isinstance(o, DictObj) else o.cls
    if isinstance(v, SStr):
        return str
    if isinstance(v, SInt):
        return int
    if isinstance(v, SBool):
        return bool
    if isinstance(v, STuple):
        return tuple
    if isinstance(v, SExc):
        from .interp import ExcType

        return v.cls if v.cls is not None else ExcType(v)
    if isinstance(v, SVal) and v.tag in ("node", "mark"):
        return I.world.class_of(I, st, v)
    if isinstance(v, SVal):
        w = I.kind_fork(st, v)
        if not isinstance(w, SVal):
            return m_type(I, st, [w], {})
        for kk, ty in (("list", list), ("dict", dict), ("float", float)):
            if I.branch(st, smt.kind(v.t) == smt.K[kk]):
                return ty
    if isinstance(v, Sym):
        raise Unsupported("type of %r" % (v,))
    return type(v)


@model(getattr)
def m_getattr(I, st, a, k):
    nm = I.resolve(st, a[1])
    if not isinstance(nm, str):
        raise Unsupported("getattr with a computed name")
    if len(a) > 2:
        return getattr_default(I, st, a[0], nm, a[2])
    return I.getattr_(st, a[0], nm)


def getattr_default(I, st, v, nm, d):
    v = I.resolve(st, v)
    return I.getattr_(st, v, nm, d, True)


class _Missing(Sym):
    __slots__ = ()


MISSING = _Missing()


@model(hasattr)
def m_hasattr(I, st, a, k):
    nm = I.resolve(st, a[1])
    if not isinstance(nm, str):
        raise Unsupported("hasattr with a computed name")
    v = I.resolve(st, a[0])
    if isinstance(v, Ref) and isinstance(st.heap[v.id], Inst):
        o = st.heap[v.id]
        return nm in o.fields or I.find_in_mro(o.cls, nm)[0] is not None
    if not isinstance(v, Sym):
        return hasattr(v, nm)
    r = I.getattr_(st, v, nm, MISSING, True)
    return r is not MISSING


@model(setattr)
def m_setattr(I, st, a, k):
    nm = I.resolve(st, a[1])
    I.setattr_(st, I.resolve(st, a[0]), nm, a[2])


@model(object.__setattr__)
def m_osetattr(I, st, a, k):
    nm = I.resolve(st, a[1])
    if not isinstance(nm, str):
        raise Unsupported("computed attribute name")
    I.setattr_(st, I.resolve(st, a[0]), nm, a[2], force=True)


@model(id)
def m_id(I, st, a, k):
    raise Unsupported("id()")


@model(iter)
def m_iter(I, st, a, k):
    if len(a) == 1:
        v = I.resolve(st, a[0])
        if isinstance(v, Iter) and v.once is not None:
            return v
        if isinstance(v, Iter):
            r = Iter(v.kind, *v.args)
        else:
            r = Iter("segs", to_list_segs(I, st, v))
            if isinstance(v, Ref):
                r.args += ((v.id, st.heap[v.id]),)
        return I.one_shot(st, r)
    raise Unsupported("iter with sentinel")


@model(next)
def m_next(I, st, a, k):
    # next(generator[, default]): first element of a freshly created iterable
    from . import specs

    v = I.resolve(st, a[0])
    if not isinstance(v, Iter):
        if not isinstance(v, (Sym, Ref)) and hasattr(v, "__next__"):
            note(st, ("frame", "an element taken from a stored iterator", type(v).__name__))
        raise Unsupported("next on a stored iterator")
    if v.kind == "count":
        return I.call(st, v.args[0], [], {})
    if v.kind == "segs" and v.once is not None:
        rec = st.heap[v.once.id]
        pos = I.use_once(st, v)  # the element taken is accounted for below
        if pos is None:
            if len(a) > 1:
                return a[1]
            I.throw(st, StopIteration)
        n = z3.Length(I.seq_term(st, v.args[0]))
        if I.branch(st, it_(pos) < n):
            st.heap[v.once.id] = IterSt(False, mkint(z3.simplify(it_(pos) + 1)))
            return seq_index(I, st, v.args[0], pos)
        st.heap[v.once.id] = rec
        if len(a) > 1:
            return a[1]
        I.throw(st, StopIteration)
    if len(a) > 1:
        return I.call(st, specs._first, [v, a[1]], {})
    r = I.call(st, specs._first_or_stop, [v], {})
    return r


@model(any)
def m_any(I, st, a, k):
    from . import specs

    return I.call(st, specs._any, [a[0]], {})


@model(all)
def m_all(I, st, a, k):
    from . import specs

    return I.call(st, specs._all, [a[0]], {})


@model(sum)
def m_sum(I, st, a, k):
    from . import specs

    return I.call(st, specs._sum, [a[0], a[1] if len(a) > 1 else k.get("start", 0)], {})


@model(min)
def m_min(I, st, a, k):
    return minmax(I, st, a, k, True)


@model(max)
def m_max(I, st, a, k):
    return minmax(I, st, a, k, False)


def minmax(I, st, a, k, mn):
    if k or len(a) < 2:
        raise Unsupported("min/max of an iterable")
    vs = [as_int(I, st, x) for x in a]
    t = it_(vs[0])
    for v in vs[1:]:
        t = z3.If((it_(v) < t) if mn else (it_(v) > t), it_(v), t)
    return mkint(z3.simplify(t))


@model(divmod)
def m_divmod(I, st, a, k):
    return STuple([binop(I, st, ast.FloorDiv(), *a), binop(I, st, ast.Mod(), *a)])


@model(abs)
def m_abs(I, st, a, k):
    v = as_int(I, st, a[0])
    return mkint(z3.simplify(z3.If(it_(v) < 0, -it_(v), it_(v))))


# ------------------------------------------------------------- containers ---
def to_list_segs(I, st, v):
    v = I.resolve(st, v)
    s = try_list_segs(I, st, v)
    if s is None:
        I.throw(st, TypeError, "not iterable")
    return s


def try_list_segs(I, st, v):
    v = I.resolve(st, v)
    if isinstance(v, STuple):
        return tuple(SegE(x) for x in v.items)
    if isinstance(v, GlobalRefT()):
        raise Unsupported("contents of a mutable module-level object")
    if isinstance(v, (list, tuple)):
        return tuple(SegE(x) for x in v)
    if isinstance(v, (set, frozenset)):
        if len(v) > 1:
            raise Unsupported("iteration order of a set")
        return tuple(SegE(x) for x in v)
    if isinstance(v, dict):
        return tuple(SegE(x) for x in v)
    if isinstance(v, type) and issubclass(v, enum.Enum):
        return tuple(SegE(x) for x in v)
    if isinstance(v, str):
        return tuple(SegE(x) for x in v)
    if isinstance(v, Ref):
        o = st.heap[v.id]
        if isinstance(o, ListObj):
            return o.segs
        if isinstance(o, DictObj):
            if o.base is not None:
                raise Unsupported("use of a dictionary with unknown keys as a sequence")
            return dict_key_segs(o)
        return None
    if isinstance(v, SVal):
        if v.tag in ("node", "mark"):
            I.throw(st, TypeError, "not iterable")
        if v.tag == "jsonlist" or I.branch(st, smt.kind(v.t) == smt.K["list"]):
            return (SegS(smt.lv(v.t), "json", v.prov),)
        if I.branch(st, z3.Or(*[smt.kind(v.t) == smt.K[x] for x in ("none", "int", "bool", "float", "opt", "req")])):
            I.throw(st, TypeError, "not iterable")
        raise Unsupported("iteration over a dynamic value")
    if isinstance(v, Iter):
        if v.kind == "segs":
            pos = I.use_once(st, v, True)
            if pos is None:
                return ()
            if isinstance(pos, int) and pos == 0:
                return v.args[0]
            return seq_slice(I, st, v.args[0], pos, None)
        if v.kind == "count":
            raise Unsupported("an endless iterator")
        return materialize(I, st, v)
    if isinstance(v, (SInt, SBool, SReal, SExc, SDate)):
        I.throw(st, TypeError, "not iterable")
    if v is None or isinstance(v, (int, float, bool)):
        I.throw(st, TypeError, "not iterable")
    if isinstance(v, SStr):
        raise Unsupported("iteration over the characters of a string")
    if v is I.OPT or v is I.REQ:
        I.throw(st, TypeError, "not iterable")
    if hasattr(v, "__iter__") and not isinstance(v, Sym):
        return tuple(SegE(x) for x in v)
    return None


def dict_key_segs(o):
    segs = []
    for kk, (p, _) in o.entries.items():
        if p is True:
            segs.append(SegE(kk))
        elif p is not False:
            segs.append(SegC(p, (SegE(kk),), ()))
    return tuple(segs)


def dict_item_segs(o, which):
    segs = []
    for kk, (p, v) in o.entries.items():
        e = SegE(STuple((kk, v)) if which == "items" else v if which == "values" else kk)
        if p is True:
            segs.append(e)
        elif p is not False:
            segs.append(SegC(p, (e,), ()))
    return tuple(segs)


def materialize(I, st, v):
    """run a lazy iterable into a list"""

    def thunk(s):
        acc = I.new_list(s)

        def f(s2, x):
            return I.simple(s2, lambda s3: list_append(I, s3, acc, x))

        from .interp import Out

        outs = I.iterate(s, None, v, f, "iter")
        return I.merge_outs([Out("ok", o.st, acc) if o.kind == "next" else o for o in outs])

    # frames for counters
    cf = I.number(I.fctr)
    st.frames[cf] = {}

    def thunk2(s):
        acc = I.new_list(s)

        def f(s2, x):
            return I.simple(s2, lambda s3: list_append(I, s3, acc, x))

        from .interp import Out

        outs = I.iterate(s, cf, v, f, "iter")
        for o in outs:
            if cf in o.st.frames:
                o.st.frames.pop(cf)
        return I.merge_outs([Out("ok", o.st, acc) if o.kind == "next" else o for o in outs])

    r = I.choose_outcome(st, thunk2)
    return st.heap[r.id].segs


@model(list)
def m_list(I, st, a, k):
    if not a:
        return I.new_list(st)
    d = open_keys(I, st, a[0])
    if d is not None:
        return d
    return I.new_list(st, to_list_segs(I, st, a[0]))


@model(tuple)
def m_tuple(I, st, a, k):
    if not a:
        return STuple(())
    d = open_keys(I, st, a[0])
    if d is not None:
        return d
    segs = to_list_segs(I, st, a[0])
    if all(isinstance(s, SegE) for s in segs):
        return STuple([s.v for s in segs])
    return I.new_list(st, segs)


@model(set, frozenset)
def m_set(I, st, a, k):
    if not a:
        return frozenset()
    d = open_keys(I, st, a[0])
    if d is not None and d.args[0][1] == "keys":
        return d
    segs = to_list_segs(I, st, a[0])
    if all(isinstance(s, SegE) and not isinstance(s.v, Sym) for s in segs):
        return frozenset(s.v for s in segs)
    return Iter("set", tuple(segs))


@model(dict)
def m_dict(I, st, a, k):
    ref = I.alloc(st, DictObj({}, None, True))
    if a:
        v = I.resolve(st, a[0])
        if isinstance(v, Ref) and isinstance(st.heap[v.id], ListObj) or isinstance(v, (Iter, STuple, list, tuple)):
            segs = to_list_segs(I, st, v)
            for s in segs:
                if not isinstance(s, SegE):
                    raise Unsupported("dict() of a symbolic list")
                kv = I.resolve(st, s.v)
                items = kv.items if isinstance(kv, STuple) else tuple(kv)
                set_item(I, st, ref, items[0], items[1])
        else:
            dict_update(I, st, ref, v)
    for kk, v in k.items():
        from .interp import Maybe

        o = st.heap[ref.id]
        e = dict(o.entries)
        e[kk] = (v.p, v.v) if isinstance(v, Maybe) else (True, v)
        st.heap[ref.id] = DictObj(e, o.base, o.fresh, o.iprov)
    return ref


@model(contextlib.nullcontext)
def m_nullcontext(I, st, a, k):
    return CtxMgr("null", a[0] if a else k.get("enter_result"))


@model(contextlib.suppress)
def m_suppress(I, st, a, k):
    classes = [I.resolve(st, x) for x in a]
    return CtxMgr("suppress", lambda s, e: bor(*[I.exc_match(s, e, c) for c in classes]))


@model(enumerate)
def m_enumerate(I, st, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    return I.one_shot(st, Iter("enumerate", a[0], as_int(I, st, start)))


@model(zip)
def m_zip(I, st, a, k):
    return I.one_shot(st, Iter("zip", *a))


@model(map)
def m_map(I, st, a, k):
    if len(a) != 2:
        raise Unsupported("map with several iterables")
    return I.one_shot(st, Iter("map", a[0], a[1]))


@model(filter)
def m_filter(I, st, a, k):
    return I.one_shot(st, Iter("filter", a[0], a[1]))


@model(range)
def m_range(I, st, a, k):
    vs = [as_int(I, st, x) for x in a]
    if len(vs) == 1:
        return Iter("range", 0, vs[0], 1)
    if len(vs) == 2:
        return Iter("range", vs[0], vs[1], 1)
    return Iter("range", *vs)


@model(reversed)
def m_reversed(I, st, a, k):
    v = I.resolve(st, a[0])
    r = Iter("segs", reverse_segs(I, st, to_list_segs(I, st, v)))
    if isinstance(v, Ref):
        r.args += ((v.id, st.heap[v.id]),)
    return I.one_shot(st, r)


def reverse_segs(I, st, segs):
    if all(isinstance(s, SegE) for s in segs):
        return tuple(reversed(segs))
    out = []
    for s in reversed(segs):
        if isinstance(s, SegE):
            out.append(s)
        elif isinstance(s, SegC):
            out.append(SegC(s.c, reverse_segs(I, st, s.a), reverse_segs(I, st, s.b)))
        else:
            r = I.mirror.get(s.t.get_id())
            if r is None or r.wrap != s.wrap:
                t = smt.reverse(s.t)
                r = SegS(t, s.wrap, s.prov if isinstance(s, SegS) else "imm")
                I.mirror[t.get_id()] = s
                I.mirror[s.t.get_id()] = r
            out.append(r)
    return tuple(out)


@model(sorted)
def m_sorted(I, st, a, k):
    v = I.resolve(st, a[0])
    if isinstance(v, (set, frozenset)):
        a = [sorted(v)]
    d = None if k else open_keys(I, st, a[0])
    if d is not None and d.args[0][1] == "keys":
        return d
    segs = to_list_segs(I, st, a[0])
    if not k and all(isinstance(s, SegE) and not isinstance(s.v, Sym) for s in segs):
        return I.new_list(st, [SegE(x) for x in sorted(s.v for s in segs)])
    if I.ext is not None:
        return I.ext.sorted(I, st, segs, k)
    raise Unsupported("sorted")


@model(itertools.chain)
def m_chain(I, st, a, k):
    segs = []
    for x in a:
        segs += list(to_list_segs(I, st, x))
    return I.one_shot(st, Iter("segs", tuple(segs)))


@model(itertools.islice)
def m_islice(I, st, a, k):
    v = I.resolve(st, a[0])
    if isinstance(v, Iter) and v.once is not None:
        raise Unsupported("islice of an iterator")
    lo, hi = (None, a[1]) if len(a) == 2 else (a[1], a[2])
    if len(a) > 3 and I.resolve(st, a[3]) not in (None, 1):
        raise Unsupported("islice step")
    bounds = [None if x is None else as_int(I, st, x) for x in (I.resolve(st, lo), I.resolve(st, hi))]
    for x in bounds:
        if x is not None and I.branch(st, it_(x) < 0):
            I.throw(st, ValueError, "islice")
    return I.one_shot(st, Iter("segs", tuple(seq_slice(I, st, to_list_segs(I, st, v), bounds[0] or 0, bounds[1]))))


@model(itertools.count)
def m_count(I, st, a, k):
    from . import prelude

    start = a[0] if a else k.get("start", 0)
    step = a[1] if len(a) > 1 else k.get("step", 1)
    return Iter("count", I.call_function(st, prelude.count, [start, step], {}, None))


def from_prelude(name):
    def m(I, st, a, k):
        from . import prelude

        f = getattr(prelude, name)
        if isinstance(f, type):
            if a or k:
                raise Unsupported("%s with an initial value" % name)
            return I.construct(st, f, a, k)
        if name in ("attrgetter", "itemgetter") and (len(a) != 1 or "." in str(a[0])):
            raise Unsupported("operator.%s of several fields" % name)
        return I.call_function(st, f, a, k, None)

    return m


for host in (functools.partial, operator.methodcaller, operator.attrgetter, operator.itemgetter, io.StringIO):
    TABLE[host] = from_prelude(host.__name__)
    NAMES[host] = host.__qualname__


@model(itertools.chain.from_iterable)
def m_chain2(I, st, a, k):
    from . import specs

    return I.call(st, specs._flatten, [a[0]], {})


@model(functools.reduce)
def m_reduce(I, st, a, k):
    from . import specs

    if len(a) != 3:
        raise Unsupported("reduce without initial value")
    return I.call(st, specs._reduce, list(a), {})


# --------------------------------------------------------------- copying ----
@model(copy.deepcopy)
def m_deepcopy(I, st, a, k):
    return deep(I, st, a[0])


def deep(I, st, v):
    if isinstance(v, SUnion):
        return SUnion([(c, deep(I, st, w)) for c, w in v.alts])
    if isinstance(v, SVal):
        if v.tag == "json":
            return SVal(v.t, v.tag, "fresh", v.ann)
        return SVal(v.t, v.tag, "fresh", v.ann)
    if isinstance(v, STuple):
        return STuple([deep(I, st, x) for x in v.items])
    if isinstance(v, Ref):
        o = st.heap[v.id]
        if isinstance(o, ListObj):
            return I.alloc(st, ListObj(deep_segs(I, st, o.segs), True))
        if isinstance(o, DictObj):
            e = {kk: (p, deep(I, st, x)) for kk, (p, x) in o.entries.items()}
            b = SVal(o.base.t, o.base.tag, "fresh", o.base.ann) if o.base is not None else None
            return I.alloc(st, DictObj(e, b, True, "fresh"))
        return I.alloc(st, Inst(o.cls, {kk: deep(I, st, x) for kk, x in o.fields.items()}, True))
    if isinstance(v, Sym):
        return v
    if isinstance(v, (list, dict)):
        return to_heap(I, st, copy.deepcopy(v))
    return v


def deep_segs(I, st, segs):
    out = []
    for s in segs:
        if isinstance(s, SegE):
            out.append(SegE(deep(I, st, s.v)))
        elif isinstance(s, SegS):
            out.append(SegS(s.t, s.wrap, "fresh"))
        elif isinstance(s, SegC):
            out.append(SegC(s.c, deep_segs(I, st, s.a), deep_segs(I, st, s.b)))
        else:
            out.append(s)
    return tuple(out)


@model(copy.copy)
def m_copy(I, st, a, k):
    v = I.resolve(st, a[0])
    if isinstance(v, Ref):
        o = st.heap[v.id]
        if isinstance(o, ListObj):
            return I.new_list(st, o.segs)
        if isinstance(o, DictObj):
            return I.alloc(st, DictObj(dict(o.entries), o.base, True, o.iprov))
        return I.alloc(st, Inst(o.cls, dict(o.fields), True))
    if isinstance(v, SVal) and v.tag == "json":
        return json_dict(I, st, v, fresh_=True)
    return v


def json_dict(I, st, v, fresh_=False):
    """a heap view of a dynamic dictionary value"""
    if not I.branch(st, smt.kind(v.t) == smt.K["dict"]):
        I.throw(st, TypeError, "not a mapping")
    return I.alloc(st, DictObj({}, SVal(v.t, "json", v.prov), fresh_, v.prov if v.prov != "imm" else "borrowed"))


# ------------------------------------------------------------ dataclasses ---
@model(dataclasses.fields)
def m_fields(I, st, a, k):
    v = I.resolve(st, a[0])
    if isinstance(v, Ref):
        v = st.heap[v.id].cls
    if isinstance(v, SVal):
        v = I.world.class_of(I, st, v)
    return dataclasses.fields(v)


@model(dataclasses.is_dataclass)
def m_isdc(I, st, a, k):
    v = I.resolve(st, a[0])
    if isinstance(v, Ref):
        o = st.heap[v.id]
        return isinstance(o, Inst) and dataclasses.is_dataclass(o.cls)
    if isinstance(v, SVal):
        return v.tag in ("node", "mark")
    return dataclasses.is_dataclass(v)


@model(dataclasses.asdict)
def m_asdict(I, st, a, k):
    if len(a) > 1 or k:
        raise Unsupported("asdict dict_factory")
    v = I.resolve(st, a[0])
    if isinstance(v, SVal):
        return SVal(smt.uf("asdict_of", smt.Val, smt.Val)(v.t), "json", "fresh")
    return asdict(I, st, v)


def asdict(I, st, v):
    if isinstance(v, SUnion):
        return SUnion([(c, asdict(I, st, w)) for c, w in v.alts])
    if isinstance(v, Ref):
        o = st.heap[v.id]
        if isinstance(o, Inst) and dataclasses.is_dataclass(o.cls):
            return I.alloc(
                st, DictObj({f.name: (True, asdict(I, st, o.fields[f.name])) for f in dataclasses.fields(o.cls)}, None, True)
            )
        if isinstance(o, ListObj):
            out = []
            for s in o.segs:
                if isinstance(s, SegE):
                    out.append(SegE(asdict(I, st, s.v)))
                elif isinstance(s, SegS) and s.wrap in ("json", "str", "val"):
                    out.append(SegS(s.t, s.wrap, "fresh"))
                else:
                    out.append(SegS(smt.uf("asdict_list", smt.SeqV, smt.SeqV)(I.seg_term(st, s)), "json", "fresh"))
            return I.alloc(st, ListObj(out, True))
    if isinstance(v, SVal) and v.tag in ("node", "mark"):
        return SVal(smt.uf("asdict_of", smt.Val, smt.Val)(v.t), "json", "fresh")
    return deep(I, st, v)


@model(dataclasses.replace)
def m_replace(I, st, a, k):
    v = I.resolve(st, a[0])
    if not (isinstance(v, Ref) and isinstance(st.heap[v.id], Inst)):
        raise Unsupported("dataclasses.replace")
    o = st.heap[v.id]
    f = dict(o.fields)
    f.update(k)
    return I.construct_dataclass(st, o.cls, [], f)


# ----------------------------------------------------------------- text -----
@model(textwrap.indent)
def m_indent(I, st, a, k):
    names = ["text", "prefix", "predicate"]
    kw = dict(zip(names, a))
    kw.update(k)
    text = as_str(I, st, kw["text"])
    prefix = as_str(I, st, kw["prefix"])
    pred = I.resolve(st, kw.get("predicate"))
    if pred is None:
        return SStr(smt.indent_ne(st_(text), st_(prefix)))
    line = SStr(fresh("line", smt.S))
    r = mkbool(I.truth(st, I.call(st, pred, [line], {})))
    if r is True:
        return SStr(smt.indent(st_(text), st_(prefix)))
    if r is False:
        return text
    some = [line.t != smt.ES]  # the lines, with their ends, are not empty
    if smt.prove(some, r.t, 2000):
        return SStr(smt.indent(st_(text), st_(prefix)))
    if smt.prove(some, r.t == (smt.strip(line.t) != smt.ES), 2000):
        return SStr(smt.indent_ne(st_(text), st_(prefix)))
    raise Unsupported("textwrap.indent with a line-dependent predicate")


@model(textwrap.dedent)
def m_dedent(I, st, a, k):
    return SStr(smt.uf("dedent", smt.S, smt.S)(st_(as_str(I, st, a[0]))))


def re_collapse(pat):
    return pat in (r"\n{3,}", "\n{3,}", r"\n\n\n+", "\n\n\n+", r"\n\n\n\n*", r"(\n){3,}", r"(?:\n){3,}")


@model(re.sub)
def m_resub(I, st, a, k):
    if len(a) != 3 or k:
        raise Unsupported("re.sub options")
    pat, rep, s = a
    s = as_str(I, st, s)
    return re_sub(I, st, pat, rep, s)


def re_sub(I, st, pat, rep, s):
    if isinstance(pat, re.Pattern):
        if pat.flags & ~re.UNICODE:
            raise Unsupported("re flags")
        pat = pat.pattern
    if isinstance(pat, str) and isinstance(rep, str):
        if isinstance(s, str):
            return re.sub(pat, rep, s)
        if re_collapse(pat) and rep == "\n\n":
            return SStr(smt.collapse(st_(s)))
        if len(pat) == 1 and pat not in ".^$*+?{}[]\\|()" and "\\" not in rep:
            return str_replace(s, pat, rep)
        if pat in (r"\|",) and rep in (r"\\|", "\\\\|"):
            return str_replace(s, "|", "\\|")
    raise Unsupported("regular expression %r" % (pat,))


# -------------------------------------------------------------- datetime ----
UTC = datetime.timezone.utc


def as_real(I, st, v):
    v = I.resolve(st, v)
    if isinstance(v, SReal):
        return v.t
    if isinstance(v, float):
        return z3.RealVal(repr(v))
    return z3.ToReal(it_(as_int(I, st, v)))


LOCAL = smt.uf("local_offset", smt.R, smt.R)


def from_ts(I, st, a, k):
    sec = as_real(I, st, a[0])
    tz = a[1] if len(a) > 1 else k.get("tz")
    tz = I.resolve(st, tz)
    if tz is None:
        return SDate("dt", sec + LOCAL(sec))
    if tz is UTC:
        return SDate("dt", sec)
    raise Unsupported("time zone")


def utc_from_ts(I, st, a, k):
    return SDate("dt", as_real(I, st, a[0]))


def date_from_ts(I, st, a, k):
    sec = as_real(I, st, a[0])
    return SDate("date", z3.ToInt((sec + LOCAL(sec)) / 86400))


def _bind_dt():
    TABLE[datetime.datetime.fromtimestamp] = from_ts
    TABLE[datetime.datetime.utcfromtimestamp] = utc_from_ts
    TABLE[datetime.date.fromtimestamp] = date_from_ts


_bind_dt()


@model(datetime.timedelta)
def m_timedelta(I, st, a, k):
    names = ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"]
    kw = dict(zip(names, a))
    kw.update(k)
    mul = {"days": "86400", "seconds": "1", "microseconds": "1/1000000", "milliseconds": "1/1000", "minutes": "60", "hours": "3600", "weeks": "604800"}
    t = z3.RealVal(0)
    for n, v in kw.items():
        t = t + as_real(I, st, v) * z3.RealVal(mul[n])
    return SDate("td", z3.simplify(t))


def host_dt(v):
    if isinstance(v, datetime.datetime):
        if v.tzinfo is UTC:
            return SDate("dt", z3.RealVal(repr(v.timestamp())))
        if v.tzinfo is None:
            return SDate("dt", z3.RealVal(repr(v.replace(tzinfo=UTC).timestamp())))
        return None
    if isinstance(v, datetime.date):
        return SDate("date", z3.IntVal((v - datetime.date(1970, 1, 1)).days))
    if isinstance(v, datetime.timedelta):
        return SDate("td", z3.RealVal(repr(v.total_seconds())))
    return None


@model(datetime.datetime)
def m_datetime(I, st, a, k):
    if all(is_concrete(x) for x in a) and all(is_concrete(x) for x in k.values()):
        d = datetime.datetime(*a, **k)
        return host_dt(d) or d
    raise Unsupported("symbolic datetime")


@model(datetime.date)
def m_date(I, st, a, k):
    if all(is_concrete(x) for x in a) and all(is_concrete(x) for x in k.values()):
        return host_dt(datetime.date(*a, **k))
    raise Unsupported("symbolic date")


def strftime_day(d):
    # %Y is not zero-padded for years below 1000
    return SStr(z3.If(d >= -354285, smt.iso_day(d), smt.uf("strftime_day", smt.I, smt.S)(d)))


def date_method(I, st, v, name, args, kwargs):
    if v.k == "dt":
        if name == "date":
            return SDate("date", z3.ToInt(v.t / 86400))
        if name == "strftime" and args and args[0] == "%Y-%m-%d":
            return strftime_day(z3.ToInt(v.t / 86400))
        if name == "isoformat" and not args and not kwargs:
            raise Unsupported("datetime.isoformat")
        if name == "astimezone":
            if args and args[0] is UTC:
                return v
            raise Unsupported("astimezone")
        if name == "timestamp":
            return SReal(v.t)
    if v.k == "date":
        if name == "isoformat":
            return SStr(smt.iso_day(v.t))
        if name == "strftime" and args and args[0] == "%Y-%m-%d":
            return strftime_day(v.t)
    raise Unsupported("date method %s" % name)


# -------------------------------------------------------------- operators ---
def order(I, st, op, a, b):
    a, b = I.resolve(st, a), I.resolve(st, b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        try:
            return {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}[type(op)](a, b)
        except TypeError:
            I.throw(st, TypeError, "ordering")
    if isinstance(a, SVal) and a.tag not in ("node", "mark"):
        a = I.kind_fork(st, a)
    if isinstance(b, SVal) and b.tag not in ("node", "mark"):
        b = I.kind_fork(st, b)
    if isinstance(a, SReal) or isinstance(b, SReal) or isinstance(a, float) or isinstance(b, float):
        x, y = as_real(I, st, a), as_real(I, st, b)
    elif is_strlike(a) and is_strlike(b):
        x, y = st_(a), st_(b)
        if isinstance(op, (ast.Gt, ast.GtE)):
            x, y = y, x
        return x < y if isinstance(op, (ast.Lt, ast.Gt)) else x <= y
    else:
        x, y = it_(as_int(I, st, a)), it_(as_int(I, st, b))
    return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]


def mk_repeat(s, n):
    if isinstance(s, str) and isinstance(n, int):
        return s * n
    if isinstance(s, str):
        return "" if s == "" else SStr(smt.repeat_of(s, it_(n)))
    if isinstance(n, int):
        if n <= 0:
            return ""
        if n <= 8:
            return mkstr(sconcat(*[st_(s)] * n))
    return SStr(smt.repeat(st_(s), it_(n)))


def binop(I, st, op, a, b):
    a, b = I.resolve(st, a), I.resolve(st, b)
    if not isinstance(a, Sym) and not isinstance(b, Sym) and not isinstance(a, (list, dict)) and not isinstance(b, (list, dict)):
        import operator as o

        fn = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv, ast.Mod: o.mod, ast.Pow: o.pow, ast.BitOr: o.or_, ast.BitAnd: o.and_, ast.BitXor: o.xor, ast.LShift: o.lshift, ast.RShift: o.rshift}.get(type(op))
        if fn is None:
            raise Unsupported("operator")
        try:
            return fn(a, b)
        except TypeError:
            I.throw(st, TypeError, "operands")
        except ZeroDivisionError:
            I.throw(st, ZeroDivisionError, "division by zero")
    if isinstance(op, ast.Mod) and is_strlike(a):
        return percent_format(I, st, a, b)
    if isinstance(op, (ast.Sub, ast.BitAnd, ast.BitOr)):
        r = set_op(I, st, op, a, b)
        if r is not None:
            return r
    if isinstance(op, ast.BitOr):
        return dict_or(I, st, a, b)
    if isinstance(a, SDate) or isinstance(b, SDate):
        x = a if isinstance(a, SDate) else host_dt(a)
        y = b if isinstance(b, SDate) else host_dt(b)
        if x is not None and y is not None:
            if x.k == "dt" and y.k == "td":
                return SDate("dt", x.t + y.t if isinstance(op, ast.Add) else x.t - y.t)
            if x.k == "td" and y.k == "dt" and isinstance(op, ast.Add):
                return SDate("dt", x.t + y.t)
            if x.k == "dt" and y.k == "dt" and isinstance(op, ast.Sub):
                return SDate("td", x.t - y.t)
            if x.k == "date" and y.k == "date" and isinstance(op, ast.Sub):
                return SDate("td", z3.ToReal((x.t - y.t) * 86400))
            if {x.k, y.k} == {"date", "td"}:
                d, td = (x, y) if x.k == "date" else (y, x)
                n = z3.ToInt(td.t / 86400)
                if isinstance(op, ast.Add):
                    return SDate("date", d.t + n)
                if isinstance(op, ast.Sub) and x.k == "date":
                    return SDate("date", d.t - n)
        raise Unsupported("date arithmetic")
    # lists
    la, lb = is_list(I, st, a), is_list(I, st, b)
    if la != lb and isinstance(b if la else a, SVal):
        v = b if la else a
        if v.tag not in ("node", "mark") and not (I.ext is not None and v.tag in I.ext.tags):
            v = I.kind_fork(st, v)
            if isinstance(v, SVal) and I.branch(st, smt.kind(v.t) == smt.K["list"]):
                v = I.new_list(st, (SegS(smt.lv(v.t), "json" if v.tag == "json" else "val", v.prov),))
            elif isinstance(v, SVal) and v.tag != "json":
                raise Unsupported("arithmetic on a dynamic value")
            a, b = (a, v) if la else (v, b)
            la, lb = is_list(I, st, a), is_list(I, st, b)
    if isinstance(op, ast.Add) and la and lb:
        return I.new_list(st, tuple(to_list_segs(I, st, a)) + tuple(to_list_segs(I, st, b)))
    if isinstance(op, ast.Mult) and (la or lb):
        l, n = (a, b) if la else (b, a)
        n = as_int(I, st, n)
        segs = to_list_segs(I, st, l)
        if isinstance(n, int):
            return I.new_list(st, tuple(segs) * max(n, 0))
        t = smt.lrep(I.seq_term(st, segs), it_(n))
        return I.new_list(st, (SegS(t, I.wrap_of(segs) or "val"),))
    if la or lb:
        I.throw(st, TypeError, "list operand")
    if isinstance(a, STuple) and isinstance(b, STuple) and isinstance(op, ast.Add):
        return STuple(a.items + b.items)
    if isinstance(a, STuple) or isinstance(b, STuple):
        aa = a if isinstance(a, STuple) else STuple(a) if isinstance(a, tuple) else None
        bb = b if isinstance(b, STuple) else STuple(b) if isinstance(b, tuple) else None
        if aa is not None and bb is not None and isinstance(op, ast.Add):
            return STuple(aa.items + bb.items)
        raise Unsupported("tuple arithmetic")
    if isinstance(a, SVal):
        if a.tag in ("node", "mark"):
            I.throw(st, TypeError, "operand")
        a = I.kind_fork(st, a)
    if isinstance(b, SVal):
        if b.tag in ("node", "mark"):
            I.throw(st, TypeError, "operand")
        b = I.kind_fork(st, b)
    if isinstance(a, SVal) or isinstance(b, SVal):
        if is_strlike(a) or is_strlike(b):
            I.throw(st, TypeError, "operand")
        raise Unsupported("arithmetic on a dynamic value")
    if isinstance(op, ast.Add) and is_strlike(a) and is_strlike(b):
        return mkstr(sconcat(st_(a), st_(b)))
    if isinstance(op, ast.Mult) and (is_strlike(a) or is_strlike(b)):
        s, n = (a, b) if is_strlike(a) else (b, a)
        if is_strlike(n):
            I.throw(st, TypeError, "operand")
        return mk_repeat(s, as_int(I, st, n))
    if is_strlike(a) or is_strlike(b):
        I.throw(st, TypeError, "operand")
    num = lambda v: is_intlike(v) or is_boollike(v) or isinstance(v, (SReal, float))
    if not (num(a) and num(b)):
        I.throw(st, TypeError, "operand")
    if isinstance(op, ast.Div) or isinstance(a, (SReal, float)) or isinstance(b, (SReal, float)):
        x, y = as_real(I, st, a), as_real(I, st, b)
        if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)):
            if I.branch(st, y == 0):
                I.throw(st, ZeroDivisionError, "division by zero")
        if isinstance(op, ast.Div):
            return SReal(x / y)
        if isinstance(op, ast.Add):
            return SReal(x + y)
        if isinstance(op, ast.Sub):
            return SReal(x - y)
        if isinstance(op, ast.Mult):
            return SReal(x * y)
        if isinstance(op, ast.FloorDiv):
            return SReal(z3.ToReal(z3.ToInt(x / y)))
        if isinstance(op, ast.Mod):
            return SReal(x - y * z3.ToReal(z3.ToInt(x / y)))
        raise Unsupported("float operator")
    a, b = as_int(I, st, a), as_int(I, st, b)
    x, y = it_(a), it_(b)
    if isinstance(op, ast.Add):
        return mkint(z3.simplify(x + y))
    if isinstance(op, ast.Sub):
        return mkint(z3.simplify(x - y))
    if isinstance(op, ast.Mult):
        return mkint(z3.simplify(x * y))
    if isinstance(op, (ast.FloorDiv, ast.Mod)):
        if I.branch(st, y == 0):
            I.throw(st, ZeroDivisionError, "division by zero")
        if isinstance(b, int) and b > 0:
            return mkint(z3.simplify(x / y if isinstance(op, ast.FloorDiv) else x % y))
        q = -x / -y if isinstance(b, int) else z3.If(y > 0, x / y, -x / -y)
        return mkint(z3.simplify(q if isinstance(op, ast.FloorDiv) else x - y * q))
    raise Unsupported("integer operator")


def is_list(I, st, v):
    if isinstance(v, Ref):
        return isinstance(st.heap[v.id], ListObj)
    if isinstance(v, GlobalRefT()):
        return isinstance(v.host, list)
    return isinstance(v, list)


def dict_or(I, st, a, b):
    ref = I.alloc(st, DictObj({}, None, True))
    dict_update(I, st, ref, a)
    dict_update(I, st, ref, b)
    return ref


# ---------------------------------------------------------- format strings ---
def percent_format(I, st, fmt, arg):
    fmt = I.resolve(st, fmt)
    if not isinstance(fmt, str):
        raise Unsupported("% formatting with a symbolic format")
    arg = I.resolve(st, arg)
    args = list(arg.items) if isinstance(arg, STuple) else list(arg) if isinstance(arg, tuple) else [arg]
    parts, i, pos = [], 0, 0
    for m in re.finditer(r"%(.)", fmt):
        parts.append(sval(fmt[pos : m.start()]))
        pos = m.end()
        c = m.group(1)
        if c == "%":
            parts.append(sval("%"))
        elif c in "sdr":
            if i >= len(args):
                I.throw(st, TypeError, "not enough arguments")
            v = args[i]
            i += 1
            parts.append(st_(py_repr(I, st, v) if c == "r" else py_str(I, st, v if c == "s" else as_int(I, st, v))))
        else:
            raise Unsupported("format directive")
    parts.append(sval(fmt[pos:]))
    if i != len(args):
        I.throw(st, TypeError, "not all arguments converted")
    return mkstr(sconcat(*parts))


def str_format(I, st, fmt, args, kwargs):
    if not isinstance(fmt, str):
        raise Unsupported("format with a symbolic template")
    parts, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit:
            parts.append(sval(lit))
        if field is None:
            continue
        m = re.match(r"^(\w*)((?:\.\w+|\[[^\]]*\])*)$", field)
        if not m:
            raise Unsupported("format field")
        nm = m.group(1)
        if nm == "":
            v = args[auto] if auto < len(args) else I.throw(st, IndexError, "format")
            auto += 1
        elif nm.isdigit():
            v = args[int(nm)] if int(nm) < len(args) else I.throw(st, IndexError, "format")
        else:
            if nm not in kwargs:
                I.throw(st, KeyError, nm)
            v = kwargs[nm]
        for part in re.findall(r"\.(\w+)", m.group(2)):
            v = I.getattr_(st, v, part)
        if "[" in m.group(2):
            raise Unsupported("format index")
        if spec:
            v = format_spec(I, st, v, spec)
        elif conv == "r":
            v = py_repr(I, st, v)
        else:
            v = py_str(I, st, v)
        parts.append(st_(v))
    return mkstr(sconcat(*parts))


# ---------------------------------------------------------------- strings ---
def str_replace(s, a, b):
    if isinstance(s, str) and isinstance(a, str) and isinstance(b, str):
        return s.replace(a, b)
    if not isinstance(a, str) or a == "":
        raise Unsupported("replace with a symbolic or empty pattern")
    if a == b:
        return s
    return SStr(smt.replace(st_(s), st_(a), st_(b)))


def str_join(I, st, sep, segs):
    """sep.join(segs)"""
    segs = tuple(segs)
    if all(isinstance(x, SegE) for x in segs):
        parts = []
        for i, x in enumerate(segs):
            if i:
                parts.append(st_(sep))
            parts.append(st_(as_str(I, st, x.v, "join of a non-string")))
        return mkstr(sconcat(*parts)) if parts else ""
    segs = tuple(check_str_seg(I, st, s) for s in segs)
    if isinstance(sep, str) and sep == "":
        parts = []
        for x in segs:
            if isinstance(x, SegE):
                parts.append(st_(x.v))
            elif isinstance(x, SegC):
                parts.append(z3.If(x.c, st_(str_join(I, st, "", x.a)), st_(str_join(I, st, "", x.b))))
            else:
                parts.append(smt.join(smt.ES, I.seg_term(st, x)))
        return mkstr(sconcat(*parts))
    return SStr(smt.join(st_(sep), I.seq_term(st, segs)))


def check_str_seg(I, st, s):
    if isinstance(s, SegE):
        return SegE(as_str(I, st, s.v, "join of a non-string"))
    if isinstance(s, SegC):
        return SegC(s.c, tuple(check_str_seg(I, st, x) for x in s.a), tuple(check_str_seg(I, st, x) for x in s.b))
    if s.wrap != "str":
        raise Unsupported("join of values not known to be strings")
    return s


STR_UF = {"title", "capitalize", "swapcase", "casefold", "expandtabs"}
STR_PRED = {"isdigit", "isalpha", "isalnum", "isupper", "islower", "isnumeric", "isdecimal", "isidentifier", "istitle", "isascii", "isprintable"}


def str_method(I, st, s, name, args, kwargs):
    args = [I.resolve(st, a) for a in args]
    kwargs = {kk: I.resolve(st, v) for kk, v in kwargs.items()}
    if name == "format":
        return str_format(I, st, s, args, kwargs)
    if name == "format_map" and len(args) == 1 and isinstance(args[0], Ref) and isinstance(st.heap[args[0].id], DictObj) and st.heap[args[0].id].base is None:
        e = st.heap[args[0].id].entries
        if all(p is True for p, _ in e.values()):
            return str_format(I, st, s, [], {kk: v for kk, (_, v) in e.items()})
    if name == "join":
        return str_join(I, st, s, to_list_segs(I, st, args[0]))
    if isinstance(s, str) and all(is_concrete(a) for a in args) and all(is_concrete(a) for a in kwargs.values()):
        try:
            r = getattr(s, name)(*args, **kwargs)
        except Exception as e:
            I.throw(st, type(e), "str." + name)
        if isinstance(r, list):
            return I.new_list(st, [SegE(x) for x in r])
        return r
    t = st_(s)
    if name in ("strip", "lstrip", "rstrip"):
        if not args or args[0] is None:
            return SStr({"strip": smt.strip, "lstrip": smt.lstrip, "rstrip": smt.rstrip}[name](t))
        c = as_str(I, st, args[0])
        return SStr({"strip": smt.cstrip, "lstrip": smt.clstrip, "rstrip": smt.crstrip}[name](t, st_(c)))
    if name in ("upper", "lower"):
        return SStr({"upper": smt.upper, "lower": smt.lower}[name](t))
    if name == "replace":
        if len(args) > 2 or kwargs:
            raise Unsupported("replace count")
        return str_replace(s, as_str(I, st, args[0]), as_str(I, st, args[1]))
    if name == "split":
        sep = args[0] if args else kwargs.get("sep")
        mx = args[1] if len(args) > 1 else kwargs.get("maxsplit", -1)
        if sep is None:
            if mx != -1:
                raise Unsupported("split()")
            return I.new_list(st, (SegS(smt.uf("split_ws", smt.S, smt.SeqV)(t), "str"),))
        sep = as_str(I, st, sep)
        if not (isinstance(sep, str) and sep):
            raise Unsupported("split with a symbolic separator")
        if mx == 1:
            h, m, tl = partition(I, st, s, sep)
            if I.branch(st, z3.Contains(t, sval(sep))):
                return I.new_list(st, (SegE(h), SegE(tl)))
            return I.new_list(st, (SegE(s),))
        if mx != -1:
            raise Unsupported("split with maxsplit")
        return I.new_list(st, (SegS(smt.split(t, sval(sep)), "str"),))
    if name == "splitlines":
        keep = args[0] if args else kwargs.get("keepends", False)
        if I.branch(st, I.truth(st, keep)):
            return I.new_list(st, (SegS(smt.uf("splitlines_keep", smt.S, smt.SeqV)(t), "str"),))
        return I.new_list(st, (SegS(smt.splitlines(t), "str"),))
    if name == "partition":
        sep = as_str(I, st, args[0])
        if not isinstance(sep, str) or not sep:
            raise Unsupported("partition")
        return STuple(partition(I, st, s, sep))
    if name in ("startswith", "endswith"):
        f = z3.PrefixOf if name == "startswith" else z3.SuffixOf
        if len(args) != 1:
            raise Unsupported(name)
        ps = args[0].items if isinstance(args[0], STuple) else args[0] if isinstance(args[0], tuple) else (args[0],)
        return mkbool(bor(*[f(st_(as_str(I, st, p)), t) for p in ps]))
    if name == "removeprefix":
        p = st_(as_str(I, st, args[0]))
        return mkstr(z3.If(z3.PrefixOf(p, t), z3.SubString(t, z3.Length(p), z3.Length(t) - z3.Length(p)), t))
    if name == "removesuffix":
        p = st_(as_str(I, st, args[0]))
        return mkstr(z3.If(z3.And(p != smt.ES, z3.SuffixOf(p, t)), z3.SubString(t, z3.IntVal(0), z3.Length(t) - z3.Length(p)), t))
    if name == "isspace":
        return mkbool(z3.And(t != smt.ES, smt.strip(t) == smt.ES))
    if name in STR_PRED:
        return SBool(smt.uf("str_" + name, smt.S, smt.B)(t))
    if name == "find":
        if len(args) == 1:
            return SInt(z3.IndexOf(t, st_(as_str(I, st, args[0])), z3.IntVal(0)))
        raise Unsupported("find")
    if name == "count" and len(args) == 1:
        return SInt(smt.uf("str_count", smt.S, smt.S, smt.I)(t, st_(as_str(I, st, args[0]))))
    if name in ("ljust", "rjust", "center", "zfill") and 1 <= len(args) <= 2 and not kwargs:
        w = it_(as_int(I, st, args[0]))
        fill = as_str(I, st, args[1]) if len(args) > 1 else "0" if name == "zfill" else " "
        if not isinstance(fill, str):
            raise Unsupported("str.%s with a computed fill character" % name)
        if len(fill) != 1 or (name == "zfill" and len(args) > 1):
            I.throw(st, TypeError, "str." + name)
        pad = z3.simplify(w - z3.Length(t))
        if name == "ljust":
            return mkstr(sconcat(t, smt.repeat_of(fill, pad)))
        if name == "rjust":
            return mkstr(sconcat(smt.repeat_of(fill, pad), t))
        if name == "zfill":
            head = z3.SubString(t, z3.IntVal(0), z3.IntVal(1))
            signed = z3.Or(head == sval("+"), head == sval("-"))
            z = smt.repeat_of("0", pad)
            return mkstr(z3.If(signed, sconcat(head, z, z3.SubString(t, z3.IntVal(1), z3.Length(t) - 1)), sconcat(z, t)))
        left = pad / 2 + z3.If(z3.And(pad % 2 == 1, w % 2 == 1), 1, 0)
        return mkstr(z3.If(pad <= 0, t, sconcat(smt.repeat_of(fill, left), t, smt.repeat_of(fill, pad - left))))
    if name in STR_UF:
        ts = [t] + [I.box(st, a) for a in args]
        return SStr(smt.uf("str_%s_%d" % (name, len(args)), *([smt.S] + [smt.Val] * len(args) + [smt.S]))(*ts))
    if name in ("__str__", "__format__"):
        return s
    if name == "__len__":
        return SInt(z3.Length(t))
    if name == "__add__":
        return mkstr(sconcat(t, st_(as_str(I, st, args[0]))))
    if name == "__contains__":
        return mkbool(z3.Contains(t, st_(as_str(I, st, args[0]))))
    raise Unsupported("str.%s" % name)


def partition(I, st, s, sep):
    t, p = st_(s), sval(sep)
    i = z3.IndexOf(t, p, z3.IntVal(0))
    c = z3.Contains(t, p)
    h = mkstr(z3.If(c, z3.SubString(t, z3.IntVal(0), i), t))
    m = mkstr(z3.If(c, p, smt.ES))
    j = i + len(sep)
    tl = mkstr(z3.If(c, z3.SubString(t, j, z3.Length(t) - j), smt.ES))
    return h, m, tl


# ------------------------------------------------------------------ lists ---
def list_append(I, st, ref, v):
    v = I.prune(st, v)
    o = st.heap[ref.id]
    I.write(st, ref, ListObj(o.segs + (SegE(v),), o.fresh))


def list_extend(I, st, ref, v):
    segs = tuple(to_list_segs(I, st, v))
    o = st.heap[ref.id]
    I.write(st, ref, ListObj(o.segs + segs, o.fresh))


def list_method(I, st, ref, name, args, kwargs):
    o = st.heap[ref.id]
    if name == "append":
        return list_append(I, st, ref, args[0])
    if name == "extend":
        return list_extend(I, st, ref, args[0])
    if name == "copy":
        return I.new_list(st, o.segs)
    if name == "clear":
        I.write(st, ref, ListObj((), o.fresh))
        return None
    if name == "insert":
        i = as_int(I, st, args[0])
        if i == 0:
            I.write(st, ref, ListObj((SegE(args[1]),) + o.segs, o.fresh))
            return None
        if isinstance(i, int) and 0 < i <= len(o.segs) and all(isinstance(s, SegE) for s in o.segs[:i]):
            I.write(st, ref, ListObj(o.segs[:i] + (SegE(args[1]),) + o.segs[i:], o.fresh))
            return None
        head, tail = seq_slice(I, st, o.segs, 0, args[0] if isinstance(args[0], SInt) else i), seq_slice(I, st, o.segs, args[0] if isinstance(args[0], SInt) else i, None)
        I.write(st, ref, ListObj(tuple(head) + (SegE(args[1]),) + tuple(tail), o.fresh))
        return None
    if name == "pop":
        i = as_int(I, st, args[0]) if args else -1
        v = seq_index(I, st, o.segs, i)
        if isinstance(i, int) and i == 0:
            rest = seq_slice(I, st, o.segs, 1, None)
        elif isinstance(i, int) and i == -1:
            rest = seq_slice(I, st, o.segs, 0, -1)
        else:
            rest = without(I, st, o.segs, i)
        I.write(st, ref, ListObj(tuple(rest), o.fresh))
        return v
    if name == "reverse":
        I.write(st, ref, ListObj(reverse_segs(I, st, o.segs), o.fresh))
        return None
    if name in ("remove", "index") and len(args) == 1 and is_strlike(args[0]) and I.wrap_of(o.segs) in ("str", None):
        # a list of strings: equality is identity of values
        if not I.branch(st, contains(I, st, ref, args[0])):
            I.throw(st, ValueError, "not in list")
        t = I.seq_term(st, o.segs)
        x = smt.bs(st_(args[0]))
        j = smt.idx(t, x)
        I.add_global(st.pc, z3.And(j >= 0, j < z3.Length(t), smt.at(t, j) == x, z3.Not(smt.mem(z3.SubSeq(t, 0, j), x))))
        if name == "index":
            return SInt(j)
        I.write(st, ref, ListObj(without(I, st, o.segs, SInt(j)), o.fresh))
        return None
    if name == "__len__":
        return seg_len(I, st, o.segs)
    raise Unsupported("list.%s" % name)


def without(I, st, segs, i):
    """the list without its element at i, which exists"""
    if isinstance(i, int) and not isinstance(i, bool):
        return tuple(seq_slice(I, st, segs, 0, i)) + tuple(() if i == -1 else seq_slice(I, st, segs, i + 1, None))
    j = it_(i)
    j = SInt(z3.If(j < 0, z3.Length(I.seq_term(st, segs)) + j, j))
    return tuple(seq_slice(I, st, segs, 0, j)) + tuple(seq_slice(I, st, segs, SInt(j.t + 1), None))


def seq_index(I, st, segs, i):
    segs = tuple(segs)
    if isinstance(i, int):
        if i >= 0:
            if i < len(segs) and all(isinstance(s, SegE) for s in segs[: i + 1]):
                return segs[i].v
        else:
            if -i <= len(segs) and all(isinstance(s, SegE) for s in segs[i:]):
                return segs[i].v
        if all(isinstance(s, SegE) for s in segs):
            I.throw(st, IndexError, "list index out of range")
    t = I.seq_term(st, segs)
    n = z3.Length(t)
    j = it_(i)
    idx = j if (isinstance(i, int) and i >= 0) else n + j if isinstance(i, int) else z3.If(j < 0, n + j, j)
    if not I.branch(st, z3.And(idx >= 0, idx < n)):
        I.throw(st, IndexError, "list index out of range")
    wrap = I.wrap_of(segs) or "val"
    prov = "imm"
    for s in segs:
        if isinstance(s, SegS) and s.prov == "borrowed":
            prov = "borrowed"
    # index into a symbolic tail after a known prefix
    return I.unbox(I.nth(t, z3.simplify(idx)), wrap, prov)


def seq_slice(I, st, segs, lo, hi):
    segs = tuple(segs)
    if lo is None:
        lo = 0
    if isinstance(lo, int) and lo >= 0 and hi is None:
        n = 0
        while lo > 0 and n < len(segs) and isinstance(segs[n], SegE):
            n += 1
            lo -= 1
        segs = segs[n:]
        if lo == 0 or not segs:
            return segs
    elif all(isinstance(s, SegE) for s in segs) and isinstance(lo, int) and (hi is None or isinstance(hi, int)):
        return segs[lo:hi]
    elif lo == 0 and isinstance(hi, int) and hi < 0 and -hi <= len(segs) and all(isinstance(s, SegE) for s in segs[hi:]):
        return segs[:hi]
    t = I.seq_term(st, segs)
    n = z3.Length(t)

    def norm(x):
        if isinstance(x, int):
            if x >= 0:
                return z3.If(z3.IntVal(x) > n, n, z3.IntVal(x))
            return z3.If(n + x < 0, z3.IntVal(0), n + x)
        y = it_(x)
        y = z3.If(y < 0, n + y, y)
        return z3.If(y < 0, z3.IntVal(0), z3.If(y > n, n, y))

    if hi is None and isinstance(lo, int) and lo >= 0:
        r = z3.SubSeq(t, z3.IntVal(lo), n - lo)
    else:
        a = norm(lo)
        b = n if hi is None else norm(hi)
        r = z3.SubSeq(t, a, z3.If(b > a, b - a, z3.IntVal(0)))
    prov = "borrowed" if any(isinstance(s, SegS) and s.prov == "borrowed" for s in segs) else "imm"
    return (SegS(r, I.wrap_of(segs) or "val", prov),)


def get_item(I, st, c, k):
    k = I.resolve(st, k)
    if isinstance(c, (str, SStr)):
        return str_index(I, st, c, k)
    if isinstance(c, STuple):
        if isinstance(k, int):
            try:
                return c.items[k]
            except IndexError:
                I.throw(st, IndexError, "tuple index")
        raise Unsupported("tuple index")
    if isinstance(c, GlobalRefT()):
        return global_get(I, st, c, k)
    if isinstance(c, Ref):
        o = st.heap[c.id]
        if isinstance(o, ListObj):
            return seq_index(I, st, o.segs, as_int(I, st, k))
        if isinstance(o, MapObj):
            return I.ext.map_get(I, st, c, k)
        if isinstance(o, DictObj):
            return dict_get(I, st, o, k)
        I.throw(st, TypeError, "not subscriptable")
    if isinstance(c, SVal):
        if c.tag in ("node", "mark"):
            I.throw(st, TypeError, "not subscriptable")
        if c.tag == "jsondict" or (not is_intlike(k) and I.branch(st, smt.kind(c.t) == smt.K["dict"])):
            return dict_get(I, st, DictObj({}, SVal(c.t, "json", c.prov), False, c.prov), k)
        if is_intlike(k):
            if c.tag == "jsonlist" or I.branch(st, smt.kind(c.t) == smt.K["list"]):
                return seq_index(I, st, (SegS(smt.lv(c.t), "json", c.prov),), k)
            if I.branch(st, smt.kind(c.t) == smt.K["str"]):
                return str_index(I, st, mkstr(smt.sv(c.t)), k)
        I.throw(st, TypeError, "not subscriptable")
    if isinstance(c, dict):
        return host_dict_get(I, st, c, k)
    if isinstance(c, type) and issubclass(c, enum.Enum):
        if isinstance(k, str):
            try:
                return c[k]
            except KeyError:
                I.throw(st, KeyError, k)
        return enum_by(I, st, {m.name: m for m in c}, k, KeyError)
    if isinstance(c, (list, tuple)):
        if isinstance(k, int):
            try:
                return c[k]
            except IndexError:
                I.throw(st, IndexError, "index")
        return seq_index(I, st, tuple(SegE(x) for x in c), k)
    if isinstance(c, (Iter, Pending, ExtObj, Poison, Native)):
        raise Unsupported("subscript of %r" % (c,))
    if isinstance(c, Sym) or c is None or isinstance(c, (int, float)) or c is I.OPT or c is I.REQ:
        I.throw(st, TypeError, "not subscriptable")
    raise Unsupported("subscript of %r" % (c,))


def str_index(I, st, s, k):
    if isinstance(s, str) and isinstance(k, int):
        try:
            return s[k]
        except IndexError:
            I.throw(st, IndexError, "string index")
    t = st_(s)
    k = as_int(I, st, k)
    n = z3.Length(t)
    j = it_(k)
    idx = j if isinstance(k, int) and k >= 0 else (n + j if isinstance(k, int) else z3.If(j < 0, n + j, j))
    if not I.branch(st, z3.And(idx >= 0, idx < n)):
        I.throw(st, IndexError, "string index")
    return SStr(z3.SubString(t, idx, z3.IntVal(1)))


def get_slice(I, st, c, lo, hi, step):
    lo, hi, step = [I.resolve(st, x) for x in (lo, hi, step)]
    if step not in (None, 1):
        if isinstance(c, (str, list, tuple)) and all(x is None or isinstance(x, int) for x in (lo, hi, step)):
            return c[lo:hi:step]
        raise Unsupported("slice step")
    if isinstance(c, SVal) and c.tag not in ("node", "mark"):
        if I.branch(st, smt.kind(c.t) == smt.K["str"]):
            c = mkstr(smt.sv(c.t))
        elif I.branch(st, smt.kind(c.t) == smt.K["list"]):
            return I.new_list(st, seq_slice(I, st, (SegS(smt.lv(c.t), "json", c.prov),), lo, hi))
        else:
            I.throw(st, TypeError, "slice")
    if isinstance(c, str) and all(x is None or isinstance(x, int) for x in (lo, hi)):
        return c[lo:hi]
    if isinstance(c, (str, SStr)):
        t = st_(c)
        n = z3.Length(t)

        def norm(x, d):
            if x is None:
                return d
            x = as_int(I, st, x)
            if isinstance(x, int):
                if x >= 0:
                    return z3.If(z3.IntVal(x) > n, n, z3.IntVal(x))
                return z3.If(n + x < 0, z3.IntVal(0), n + x)
            y = it_(x)
            y = z3.If(y < 0, n + y, y)
            return z3.If(y < 0, z3.IntVal(0), z3.If(y > n, n, y))

        a, b = norm(lo, z3.IntVal(0)), norm(hi, n)
        return mkstr(z3.SubString(t, a, z3.If(b > a, b - a, z3.IntVal(0))))
    if isinstance(c, STuple):
        return STuple(c.items[lo:hi])
    if isinstance(c, (list, tuple)):
        r = c[lo:hi]
        return to_heap(I, st, r) if isinstance(r, list) else r
    if isinstance(c, Ref) and isinstance(st.heap[c.id], ListObj):
        return I.new_list(st, seq_slice(I, st, st.heap[c.id].segs, lo, hi))
    if isinstance(c, (Iter, GlobalRefT(), Pending, ExtObj, Poison, Native)):
        raise Unsupported("slice of %r" % (c,))
    I.throw(st, TypeError, "slice")


# ------------------------------------------------------------------ dicts ---
def keyconst(k):
    return not isinstance(k, Sym)


def GenKeyT():
    from .interp import GenKey

    return GenKey


def generic_lookup(I, o, k):
    """(present, value) of an arbitrary key of the dictionary being iterated over"""
    if k in o.entries:
        return o.entries[k]
    if any(not isinstance(x, str) for x in o.entries):
        raise Unsupported("dictionary lookup with a computed key")
    k.lits.update(o.entries)
    if o.base is None:
        return False, None
    if o.base.t.eq(k.base):
        return True, SVal(smt.get(k.base, k.t), "json", o.iprov)
    raise Unsupported("dictionary lookup with a computed key")


def open_dict(I, st, v):
    """the dictionary object when v is a dictionary with unknown keys"""
    if isinstance(v, Ref):
        o = st.heap[v.id]
        return o if isinstance(o, DictObj) and o.base is not None else None
    if isinstance(v, SVal) and (v.tag == "jsondict" or v.tag == "json" and I.branch(st, smt.kind(v.t) == smt.K["dict"])):
        return DictObj({}, SVal(v.t, "json", v.prov), False, v.prov)
    return None


def open_keys(I, st, v):
    """list(d), tuple(d), sorted(d), set(d) of a dictionary with unknown keys: a snapshot in
    some order (the iteration model does not depend on the order)"""
    v = I.resolve(st, v)
    if isinstance(v, Iter) and v.kind == "jsonitems":
        o, view, live, excl, only = v.args[0]
        if live is not None and st.heap[live] is not o:
            raise Unsupported("a view of a dictionary changed before it is used")
        return Iter("jsonitems", (o, view, None, excl, only))
    d = open_dict(I, st, v)
    return None if d is None else Iter("jsonitems", (d, "keys", None, frozenset(), None))


def set_view(I, st, v):
    """a set of constants with presence conditions, or the keys of an open dictionary"""
    v = I.resolve(st, v)
    if isinstance(v, (set, frozenset)):
        return {x: True for x in v}
    if isinstance(v, Iter) and v.kind == "jsonitems" and v.args[0][1] == "keys":
        return open_keys(I, st, v)
    if isinstance(v, Iter) and v.kind in ("set", "segs") and v.once is None:
        r = {}
        for s in v.args[0]:
            if isinstance(s, SegE) and not isinstance(s.v, Sym):
                r[s.v] = True
            elif isinstance(s, SegC) and len(s.a) == 1 and not s.b and isinstance(s.a[0], SegE) and not isinstance(s.a[0].v, Sym):
                r[s.a[0].v] = bor(r.get(s.a[0].v, False), s.c)
            else:
                return None
        return r
    return None


def set_op(I, st, op, a, b):
    if not any(isinstance(x, (Iter, set, frozenset)) for x in (a, b)):
        return None
    x, y = set_view(I, st, a), set_view(I, st, b)
    if x is None or y is None:
        return None
    op = type(op)
    if isinstance(x, Iter) and isinstance(y, Iter):
        raise Unsupported("set operation on two dictionaries with unknown keys")
    if isinstance(y, Iter) and op is ast.BitAnd:
        x, y = y, x
    if isinstance(x, Iter):
        o, view, live, excl, only = x.args[0]
        if any(c is not True for c in y.values()):
            raise Unsupported("set operation on a dictionary with unknown keys")
        if op is ast.Sub:
            return Iter("jsonitems", (o, view, None, excl | set(y), only))
        if op is ast.BitAnd:
            return Iter("jsonitems", (o, view, None, excl, frozenset(y) if only is None else only & set(y)))
        raise Unsupported("set operation on a dictionary with unknown keys")
    if isinstance(y, Iter):
        y = {k: contains(I, st, y, k) for k in x}
        if op is not ast.Sub:
            raise Unsupported("set operation on a dictionary with unknown keys")
    r = {}
    for k in list(x) + [k for k in y if k not in x]:
        p, q = x.get(k, False), y.get(k, False)
        c = {ast.Sub: lambda: band(p, bnot(q)), ast.BitAnd: lambda: band(p, q), ast.BitOr: lambda: bor(p, q)}.get(op)
        if c is None:
            raise Unsupported("set operation")
        c = c()
        c = c if isinstance(c, bool) else z3.simplify(c)
        if c is True or not isinstance(c, bool) and z3.is_true(c):
            r[k] = True
        elif not (c is False or z3.is_false(c)):
            r[k] = c
    if all(c is True for c in r.values()):
        return frozenset(r)
    return Iter("set", tuple(SegE(k) if c is True else SegC(c, (SegE(k),), ()) for k, c in r.items()))


def set_method(I, st, r, name, args):
    if name == "copy":
        return r
    if name == "__contains__":
        return mkbool(contains(I, st, r, args[0]))
    others = [m_set(I, st, [x], {}) for x in args]
    op = {"difference": ast.Sub(), "intersection": ast.BitAnd(), "union": ast.BitOr()}.get(name)
    if op is not None:
        for o in others:
            x = set_op(I, st, op, r, o)
            if x is None:
                raise Unsupported("set.%s" % name)
            r = x
        return r
    if name in ("issubset", "issuperset"):
        a, b = (r, others[0]) if name == "issubset" else (others[0], r)
        x = set_order(I, st, ast.LtE(), a, b)
        return mkbool(x) if x is not None else a <= b
    if name == "isdisjoint":
        x = set_op(I, st, ast.BitAnd(), r, others[0])
        if x is not None:
            return mkbool(bnot(I._tb(st, x)))
    raise Unsupported("set.%s" % name)


def set_order(I, st, op, a, b):
    """subset tests"""
    a, b = I.resolve(st, a), I.resolve(st, b)
    if not any(isinstance(x, Iter) for x in (a, b)):
        return None
    if isinstance(op, (ast.Gt, ast.GtE)):
        a, b = b, a
    x, y = set_view(I, st, a), set_view(I, st, b)
    if x is None or y is None or isinstance(op, (ast.Lt, ast.Gt)):
        raise Unsupported("comparison of sets")
    if isinstance(x, Iter):
        raise Unsupported("comparison of sets")
    return band(*[bor(bnot(p), contains(I, st, y, k) if isinstance(y, Iter) else y.get(k, False)) for k, p in x.items()])


def dict_get(I, st, o, k, default=None, hasdefault=False):
    if isinstance(k, Ref) and isinstance(st.heap[k.id], (ListObj, DictObj)):
        I.throw(st, TypeError, "unhashable")
    if not keyconst(k):
        I.hashable(st, k)
        if isinstance(k, GenKeyT()):
            p, v = generic_lookup(I, o, k)
            if p:
                return v
            if hasdefault:
                return default
            I.throw(st, KeyError, k)
        if o.base is None:
            return union_get(I, st, [(kk, p, v) for kk, (p, v) in o.entries.items()], k, default, hasdefault)
        raise Unsupported("dictionary lookup with a computed key")
    p, v = I.dict_lookup(o, k)
    if p is True:
        return v
    if p is not False and I.branch(st, p):
        return v
    if hasdefault:
        return default
    I.throw(st, KeyError, k)


def host_dict_get(I, st, d, k, default=None, hasdefault=False):
    if keyconst(k):
        try:
            if k in d:
                return d[k]
        except TypeError:
            I.throw(st, TypeError, "unhashable")
        if hasdefault:
            return default
        I.throw(st, KeyError, k)
    I.hashable(st, k)
    return union_get(I, st, [(kk, True, v) for kk, v in d.items()], k, default, hasdefault)


def union_get(I, st, items, k, default, hasdefault):
    alts, conds = [], []
    for kk, p, v in items:
        c = I._eb(st, kk, k)
        if p is not True:
            c = band(c, p if not isinstance(p, bool) else z3.BoolVal(p))
        c = z3.simplify(c)
        if z3.is_false(c):
            continue
        alts.append((c, v))
        conds.append(c)
    hit = bor(*conds)
    if not I.branch(st, hit):
        if hasdefault:
            return default
        I.throw(st, KeyError, "computed key")
    merged = []
    for c, v in alts:
        for i, (d, w) in enumerate(merged):
            from .interp import same

            if same(v, w) or (not isinstance(v, Sym) and not isinstance(w, Sym) and v is w):
                merged[i] = (bor(d, c), w)
                break
        else:
            merged.append((c, v))
    if len(merged) == 1:
        return merged[0][1]
    if all(is_strlike(v) for _, v in merged):
        t = st_(merged[-1][1])
        for c, v in reversed(merged[:-1]):
            t = z3.If(c, st_(v), t)
        return mkstr(t)
    return SUnion(merged)


def set_item(I, st, c, k, v):
    k = I.resolve(st, k)
    if isinstance(c, GlobalRefT()):
        return global_set(I, st, c, k, v)
    if isinstance(c, Ref):
        o = st.heap[c.id]
        if isinstance(o, MapObj):
            return I.ext.map_set(I, st, c, k, v)
        if isinstance(o, DictObj):
            if not keyconst(k) and not isinstance(k, GenKeyT()):
                if I.ext is not None and I.ext.to_map(I, st, c):
                    return I.ext.map_set(I, st, c, k, v)
                # a key drawn from a finite table
                raise Unsupported("dictionary store with a computed key")
            e = dict(o.entries)
            e[k] = (True, v)
            I.write(st, c, DictObj(e, o.base, o.fresh, o.iprov))
            return
        if isinstance(o, ListObj):
            i = as_int(I, st, k)
            if isinstance(i, int) and 0 <= i < len(o.segs) and all(isinstance(s, SegE) for s in o.segs[: i + 1]):
                I.write(st, c, ListObj(o.segs[:i] + (SegE(v),) + o.segs[i + 1 :], o.fresh))
                return
            if i == -1 and o.segs and isinstance(o.segs[-1], SegE):
                I.write(st, c, ListObj(o.segs[:-1] + (SegE(v),), o.fresh))
                return
            if isinstance(i, int) and not isinstance(k, (SInt,)):
                t = I.seq_term(st, o.segs)
                n = z3.Length(t)
                if not I.branch(st, n > i if i >= 0 else n >= -i):
                    I.throw(st, IndexError, "list assignment index out of range")
                if i >= 0:
                    head, tail = (() if i == 0 else seq_slice(I, st, o.segs, 0, i)), seq_slice(I, st, o.segs, i + 1, None)
                else:
                    head, tail = seq_slice(I, st, o.segs, 0, i), (() if i == -1 else seq_slice(I, st, o.segs, i + 1, None))
                I.write(st, c, ListObj(tuple(head) + (SegE(v),) + tuple(tail), o.fresh))
                return
            raise Unsupported("list item assignment")
        I.throw(st, TypeError, "item assignment")
    if isinstance(c, SVal) and c.tag in ("json", "jsondict"):
        if c.prov == "borrowed":
            note(st, ("frame", "write into a dictionary that existed before the call", str(k)))
        raise Unsupported("store into a nested dynamic dictionary")
    if isinstance(c, (list, dict)):
        note(st, ("frame", "store into a module-level %s" % type(c).__name__, ""))
    raise Unsupported("item assignment")


def del_item(I, st, c, k):
    k = I.resolve(st, k)
    if isinstance(c, (list, dict, GlobalRefT())):
        note(st, ("frame", "deletion from a module-level object", ""))
    elif isinstance(c, Ref) and not getattr(st.heap[c.id], "fresh", True):
        note(st, ("frame", "deletion from an object that existed before the call", ""))
    if isinstance(c, Ref) and isinstance(st.heap[c.id], DictObj) and (keyconst(k) or isinstance(k, GenKeyT())):
        o = st.heap[c.id]
        dict_get(I, st, o, k)
        e = dict(o.entries)
        e[k] = (False, None)
        I.write(st, c, DictObj(e, o.base, o.fresh, o.iprov))
        return
    if isinstance(c, Ref) and isinstance(st.heap[c.id], ListObj):
        list_method(I, st, c, "pop", [k], {})
        return
    raise Unsupported("del item")


def dict_update(I, st, ref, v):
    v = I.resolve(st, v)
    o = st.heap[ref.id]
    if isinstance(v, dict):
        src = DictObj({k: (True, x) for k, x in v.items()}, None, True)
    elif isinstance(v, Ref) and isinstance(st.heap[v.id], DictObj):
        src = st.heap[v.id]
    elif isinstance(v, SVal) and v.tag in ("json", "jsondict"):
        if v.tag == "json" and not I.branch(st, smt.kind(v.t) == smt.K["dict"]):
            I.throw(st, TypeError, "not a mapping")
        src = DictObj({}, SVal(v.t, "json", v.prov), False, v.prov)
    else:
        raise Unsupported("update with %r" % (v,))
    if src.base is not None:
        if o.base is not None or o.entries:
            raise Unsupported("merging two open dictionaries")
        I.write(st, ref, DictObj(dict(src.entries), src.base, o.fresh, src.iprov))
        return
    e = dict(o.entries)
    for k, (p, x) in src.entries.items():
        if p is True:
            e[k] = (True, x)
        elif p is not False:
            q, y = I.dict_lookup(DictObj(e, o.base, True, o.iprov), k)
            if q is False:
                e[k] = (p, x)
            else:
                e[k] = (True if q is True else bor(p, q), I.merge_values(p, x, y))
    I.write(st, ref, DictObj(e, o.base, o.fresh, o.iprov))


def dict_method(I, st, recv, name, args, kwargs):
    if isinstance(recv, dict):
        if name == "get":
            k = I.resolve(st, args[0])
            return host_dict_get(I, st, recv, k, args[1] if len(args) > 1 else None, True)
        if name in ("items", "keys", "values"):
            if name == "items":
                return Iter("segs", tuple(SegE(STuple((k, v))) for k, v in recv.items()))
            return Iter("segs", tuple(SegE(x) for x in getattr(recv, name)()))
        if name == "copy":
            return to_heap(I, st, dict(recv))
        if name == "__contains__":
            return mkbool(contains(I, st, recv, args[0]))
        if name == "__getitem__":
            return host_dict_get(I, st, recv, I.resolve(st, args[0]))
        raise Unsupported("dict.%s on a module-level constant" % name)
    ref = recv
    if isinstance(recv, SVal):
        o = DictObj({}, SVal(recv.t, "json", recv.prov), False, recv.prov)
    else:
        o = st.heap[recv.id]
    if name == "get":
        return dict_get(I, st, o, I.resolve(st, args[0]), args[1] if len(args) > 1 else kwargs.get("default"), True)
    if name in ("items", "keys", "values"):
        if o.base is not None:
            return Iter("jsonitems", (o, name, recv.id if isinstance(recv, Ref) else None, frozenset(), None))
        if isinstance(recv, Ref):
            return Iter("segs", dict_item_segs(o, name), (recv.id, o))
        return Iter("segs", dict_item_segs(o, name))
    if name == "copy":
        return I.alloc(st, DictObj(dict(o.entries), o.base, True, o.iprov))
    if name == "__contains__":
        return mkbool(contains(I, st, recv, args[0]))
    if isinstance(recv, SVal):
        if name in ("pop", "update", "setdefault", "clear", "popitem"):
            if recv.prov == "borrowed":
                note(st, ("frame", "dict.%s on a dictionary that existed before the call" % name, ""))
            raise Unsupported("mutating a nested dynamic dictionary")
        raise Unsupported("dict.%s" % name)
    if name == "pop":
        k = I.resolve(st, args[0])
        if isinstance(k, GenKeyT()):
            r = dict_get(I, st, o, k, args[1] if len(args) > 1 else None, len(args) > 1)
            if dict_has(I, st, o, k):
                e = dict(o.entries)
                e[k] = (False, None)
                I.write(st, ref, DictObj(e, o.base, o.fresh, o.iprov))
            return r
        if not keyconst(k):
            raise Unsupported("pop with computed key")
        if len(args) > 1:
            p, v = I.dict_lookup(o, k)
            if p is False:
                return args[1]
            r = v if p is True else I.merge_values(p, v, args[1])
        else:
            r = dict_get(I, st, o, k)
        e = dict(st.heap[ref.id].entries)
        e[k] = (False, None)
        I.write(st, ref, DictObj(e, o.base, o.fresh, o.iprov))
        return r
    if name == "setdefault":
        k = I.resolve(st, args[0])
        d = args[1] if len(args) > 1 else None
        p, v = I.dict_lookup(o, k)
        if p is True:
            return v
        r = d if p is False else I.merge_values(p, v, d)
        e = dict(o.entries)
        e[k] = (True, r)
        I.write(st, ref, DictObj(e, o.base, o.fresh, o.iprov))
        return r
    if name == "update":
        if args:
            dict_update(I, st, ref, args[0])
        for kk, v in kwargs.items():
            set_item(I, st, ref, kk, v)
        return None
    if name == "clear":
        I.write(st, ref, DictObj({}, None, o.fresh, o.iprov))
        return None
    raise Unsupported("dict.%s" % name)


# module-level mutable objects ------------------------------------------------
MUTATORS = ("append", "extend", "insert", "pop", "clear", "remove", "sort", "reverse", "update", "setdefault", "popitem", "add", "discard",
            "intersection_update", "difference_update", "symmetric_difference_update")
NOTED = []  # writes to objects that existed before the call, also on paths the executor had to give up


def note(st, ev):
    st.events.append(ev)
    if ev[0] == "frame" or ev[0] == "global" and ev[2] != "store":
        NOTED.append(ev)


def shared_object(I, st, v, key):
    """a mutable list or dictionary that outlives the call: dictionaries by the property's
    invariant, lists of unknown contents where the property is only about what is written"""
    from .interp import GlobalRef

    g = GlobalRef(v, key)
    if isinstance(v, list):
        if not getattr(I.world, "open_globals", False):
            raise Unsupported("mutable module-level list %s.%s" % tuple(key))
        cell = ("cell",) + tuple(key)
        if cell not in st.glob:
            i = "G:" + ".".join(map(str, key))
            st.heap[i] = ListObj((SegS(z3.Const(i, smt.SeqV), "json", "borrowed"),), False)
            st.glob[cell] = Ref(i)
        return st.glob[cell]
    return g


def global_cell(I, st, g, write=None):
    key = ("cell",) + tuple(g.key)
    if key not in st.glob:
        init = I.world.global_init(I, st, g) if I.world is not None else None
        if init is None:
            if write:
                note(st, ("frame", "%s.%s on a module-level object" % (type(g.host).__name__, write), "%s.%s" % tuple(g.key)))
            raise Unsupported("mutable module-level object %s.%s" % tuple(g.key))
        i = "G:" + ".".join(map(str, g.key))
        st.heap[i] = init
        st.glob[key] = Ref(i)
    r = st.glob[key]
    if I.world is not None:
        o = I.world.interfere(I, st, g, st.heap[r.id])
        if o is not None:
            st.heap[r.id] = o
    return r


def publish(I, st, v):
    """an object reachable from module-level state: later writes to it are visible to all"""
    for w in [w for c, w in v.alts] if isinstance(v, SUnion) else [v]:
        if not isinstance(w, Ref):
            continue
        o = st.heap[w.id]
        if not getattr(o, "fresh", False):
            continue
        if isinstance(o, DictObj):
            st.heap[w.id] = DictObj(o.entries, o.base, False, o.iprov)
            for p, x in o.entries.values():
                publish(I, st, x)
        elif isinstance(o, ListObj):
            st.heap[w.id] = ListObj(o.segs, False)
            for s in o.segs:
                if isinstance(s, SegE):
                    publish(I, st, s.v)
        elif isinstance(o, Inst):
            st.heap[w.id] = Inst(o.cls, o.fields, False)


def global_get(I, st, g, k):
    if isinstance(g.host, dict):
        return dict_get(I, st, st.heap[global_cell(I, st, g).id], k)
    raise Unsupported("module-level list")


def global_set(I, st, g, k, v):
    if isinstance(g.host, dict):
        r = global_cell(I, st, g, "item assignment")
        o = st.heap[r.id]
        if not keyconst(k):
            raise Unsupported("computed key")
        e = dict(o.entries)
        e[k] = (True, v)
        st.heap[r.id] = DictObj(e, o.base, o.fresh, o.iprov)
        note(st, ("global", "%s.%s" % tuple(g.key), "store"))
        publish(I, st, v)
        return
    raise Unsupported("module-level list")


# ------------------------------------------------------------- membership ---
def contains(I, st, c, x):
    from . import specs

    c = I.resolve(st, c)
    if isinstance(c, (str, SStr)):
        x = as_str(I, st, x)
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        return z3.Contains(st_(c), st_(x))
    if isinstance(c, GlobalRefT()):
        if isinstance(c.host, dict):
            o = st.heap[global_cell(I, st, c).id]
            return dict_has(I, st, o, I.resolve(st, x))
        raise Unsupported("membership in a mutable module-level object")
    if isinstance(c, Ref):
        o = st.heap[c.id]
        if isinstance(o, MapObj):
            return I.ext.map_has(I, st, c, I.resolve(st, x))
        if isinstance(o, DictObj):
            return dict_has(I, st, o, I.resolve(st, x))
        if isinstance(o, ListObj):
            if all(isinstance(s, SegE) for s in o.segs):
                return bor(*[I._eb(st, s.v, x) for s in o.segs])
            r = I.call(st, specs._contains, [c, x], {})
            return r if isinstance(r, bool) else bt_(r)
        I.throw(st, TypeError, "in")
    if isinstance(c, STuple):
        return bor(*[I._eb(st, s, x) for s in c.items])
    if isinstance(c, dict):
        if keyconst(x):
            return x in c
        return bor(*[I._eb(st, s, x) for s in c])
    if isinstance(c, (set, frozenset)):
        I.hashable(st, x)
    if isinstance(c, (list, tuple, set, frozenset)):
        return bor(*[I._eb(st, s, x) for s in c])
    if isinstance(c, Iter):
        if c.kind == "set":
            I.hashable(st, x)
            if all(isinstance(s, SegE) for s in c.args[0]):
                return bor(*[I._eb(st, s.v, x) for s in c.args[0]])
            c = I.new_list(st, c.args[0])
        if isinstance(c, Iter) and c.kind == "segs" and all(isinstance(s, SegE) for s in c.args[0]):
            if I.use_once(st, c) != 0:
                raise Unsupported("membership in a used iterator")
            return bor(*[I._eb(st, s.v, x) for s in c.args[0]])
        if isinstance(c, Iter) and c.kind == "jsonitems" and c.args[0][1] == "keys":
            o, _, _, excl, only = open_keys(I, st, c).args[0]
            x = I.resolve(st, x)
            p = dict_has(I, st, o, x)
            for k in excl:
                p = band(p, bnot(I._eb(st, x, k)))
            if only is not None:
                p = band(p, bor(*[I._eb(st, x, k) for k in only]))
            return p
        r = I.call(st, specs._contains, [c, x], {})
        return r if isinstance(r, bool) else bt_(r)
    if isinstance(c, SVal):
        if c.tag in ("node", "mark"):
            I.throw(st, TypeError, "in")
        if c.tag == "jsondict" or I.branch(st, smt.kind(c.t) == smt.K["dict"]):
            return dict_has(I, st, DictObj({}, SVal(c.t, "json", c.prov), False, c.prov), I.resolve(st, x))
        if I.branch(st, smt.kind(c.t) == smt.K["str"]):
            return z3.Contains(smt.sv(c.t), st_(as_str(I, st, x)))
        if I.branch(st, smt.kind(c.t) == smt.K["list"]):
            r = I.call(st, specs._contains, [SVal(c.t, "jsonlist", c.prov), x], {})
            return r if isinstance(r, bool) else bt_(r)
        I.throw(st, TypeError, "in")
    if isinstance(c, type) and issubclass(c, enum.Enum):
        x = I.resolve(st, x)
        if not isinstance(x, Sym):
            return x in c
        raise Unsupported("membership in an enum")
    if isinstance(c, ExtObj):
        f = c.attr(I, st, "__contains__")
        if f is not None:
            return bt_(I.call(st, f, [x], {}))
    if isinstance(c, (Iter, Pending, ExtObj, Poison, Native)):
        raise Unsupported("membership in %r" % (c,))
    I.throw(st, TypeError, "in")


def dict_has(I, st, o, k):
    if not keyconst(k):
        I.hashable(st, k)
        if isinstance(k, GenKeyT()):
            return generic_lookup(I, o, k)[0]
        if o.base is None:
            return bor(*[band(I._eb(st, kk, k), p if not isinstance(p, bool) else z3.BoolVal(p)) for kk, (p, _) in o.entries.items()])
        if is_strlike(k):
            return smt.has(o.base.t, st_(k))
        raise Unsupported("membership with a computed key")
    p, _ = I.dict_lookup(o, k)
    return p


# ------------------------------------------------------------------ enums ---
def enum_lookup(I, st, cls, args, kwargs):
    v = I.resolve(st, args[0])
    if not isinstance(v, Sym):
        try:
            return cls(v)
        except ValueError:
            I.throw(st, ValueError, "not a valid %s" % cls.__name__)
    return enum_by(I, st, {m.value: m for m in cls}, v, ValueError)


def enum_by(I, st, table, k, exc):
    alts = []
    for kk, m in table.items():
        c = I._eb(st, kk, k)
        if not z3.is_false(z3.simplify(c)):
            alts.append((c, m))
    if not I.branch(st, bor(*[c for c, _ in alts])):
        I.throw(st, exc, "enum")
    return SUnion(alts)


# ---------------------------------------------------------------- methods ---
def call_method(I, st, m, args, kwargs):
    r, name = m.recv, m.name
    if isinstance(r, (str, SStr)):
        return str_method(I, st, r, name, args, kwargs)
    if isinstance(r, Ref):
        o = st.heap[r.id]
        if isinstance(o, ListObj):
            return list_method(I, st, r, name, args, kwargs)
        if isinstance(o, DictObj) and name in ("setdefault", "get") and not keyconst(I.resolve(st, args[0])) and I.ext is not None:
            I.ext.to_map(I, st, r)
            o = st.heap[r.id]
        if isinstance(o, MapObj):
            return I.ext.map_method(I, st, r, name, args, kwargs)
        if isinstance(o, DictObj):
            return dict_method(I, st, r, name, args, kwargs)
    if isinstance(r, GlobalRefT()):
        if isinstance(r.host, dict):
            if name in ("get", "items", "keys", "values", "copy", "__contains__", "setdefault", "pop", "update"):
                ref = global_cell(I, st, r, name if name in MUTATORS else None)
                if name in ("setdefault", "pop", "update"):
                    note(st, ("global", "%s.%s" % tuple(r.key), "store" if name == "setdefault" else name))
                    o = st.heap[ref.id]
                    # recorded as an event of its own: not a write to a caller's object
                    st.heap[ref.id] = DictObj(o.entries, o.base, True, o.iprov)
                    res = dict_method(I, st, ref, name, args, kwargs)
                    o = st.heap[ref.id]
                    st.heap[ref.id] = DictObj(o.entries, o.base, False, o.iprov)
                    for a in list(args[1:]) + ([res] if name == "setdefault" else []):
                        publish(I, st, a)
                    return res
                return dict_method(I, st, ref, name, args, kwargs)
        if name in MUTATORS:
            note(st, ("frame", "%s.%s on a module-level object" % (type(r.host).__name__, name), "%s.%s" % tuple(r.key)))
        raise Unsupported("method %s of a mutable module-level object" % name)
    if isinstance(r, SVal):
        if r.tag in ("node", "mark"):
            return I.world.virtual_call(I, st, r, name, args, kwargs)
        if r.tag == "jsondict":
            return dict_method(I, st, r, name, args, kwargs)
        if r.tag == "jsonlist":
            if name in ("append", "extend", "insert", "pop", "clear", "remove", "sort", "reverse"):
                if r.prov == "borrowed":
                    note(st, ("frame", "list.%s on a list that existed before the call" % name, ""))
                raise Unsupported("mutating a nested dynamic list")
            if name == "copy":
                return I.new_list(st, (SegS(smt.lv(r.t), "json", r.prov),))
        raise Unsupported("method %s" % name)
    if isinstance(r, (frozenset, Iter)):
        return set_method(I, st, r, name, args)
    if isinstance(r, SDate):
        return date_method(I, st, r, name, args, kwargs)
    if isinstance(r, dict):
        if name in MUTATORS:
            note(st, ("frame", "dict.%s on a module-level dictionary" % name, ""))
            raise Unsupported("mutating a module-level dictionary")
        return dict_method(I, st, r, name, args, kwargs)
    if isinstance(r, (STuple, tuple)):
        items = r.items if isinstance(r, STuple) else r
        if name == "index":
            raise Unsupported("tuple.index")
        if name == "__contains__":
            return mkbool(contains(I, st, r, args[0]))
        raise Unsupported("tuple.%s" % name)
    if isinstance(r, list):
        if name in MUTATORS:
            note(st, ("frame", "list.%s on a module-level list" % name, ""))
            raise Unsupported("mutating a module-level list")
        if name == "copy":
            return to_heap(I, st, list(r))
        raise Unsupported("list.%s" % name)
    if isinstance(r, (SInt, SBool, SReal)):
        raise Unsupported("number method %s" % name)
    if name == "exc_init":
        if isinstance(r, Ref) and isinstance(st.heap[r.id], Inst):
            I.setattr_(st, r, "$args", STuple(args), force=True)
        return None
    if isinstance(r, SExc):
        raise Unsupported("exception method")
    raise Unsupported("method %s of %r" % (name, r))
