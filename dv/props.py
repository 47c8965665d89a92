"""Per-property proof obligations.

TASKS[pid] is a list of (task name, function, args); each task runs in its own
process and returns a list of engine.Obl together with what it relied on.
"""
import os
import sys
import time
import traceback
import z3

from . import smt, specs, wf, engine
from .engine import Obl, compare
from .interp import State
from .table import CLASSES
from .values import *

IE = lambda: SBool(z3.Const("IE", smt.B))


def typ_of(cls):
    return CLASSES[cls]["type"]


def md_args(I, W, st, cls, me, ie):
    a, kw = [me, ie], {"ignore_error": ie}
    if typ_of(cls) in wf.LISTS:
        lv = SInt(z3.Const("LEVEL", smt.I))
        st.pc.append(lv.t >= 0)
        a.append(lv)
        kw["level"] = lv
    return a, kw


def to_md(I, s, me, args, kw):
    return I.call(s, I.getattr_(s, me, "to_markdown"), args, kw)


class Ctx:
    """what one task used and produced"""

    def __init__(self):
        self.obls = []
        self.interps = []

    def interp(self, world, **cfg):
        I = engine.make_interp(world, **cfg)
        self.interps.append(I)
        return I


def sane(ctx, name, I, outs):
    """vacuity guard: at least one execution path satisfies the precondition"""
    ok = False
    for o in outs:
        r = smt.check(I.global_facts + o.st.pc, 4000)
        if r.status != "unsat":
            ok = True
            break
    ctx.obls.append(Obl(name + ": precondition satisfiable (vacuity guard)", ok, "" if ok else "vacuous"))


# -- rendering ------------------------------------------------------------------
def node_format(ctx, cls, children="ok"):
    W = wf.World(children)
    I = ctx.interp(W)
    st = State()
    me = W.make_self(I, st, cls)
    a, kw = md_args(I, W, st, cls, me, IE())
    sp = getattr(specs, cls)
    o, so, co = compare(I, st, cls + ".to_markdown", lambda s: I.call(s, sp, a, {}), lambda s: to_md(I, s, me, [], kw))
    ctx.obls += o
    sane(ctx, cls, I, so)
    defaults(ctx, cls)


def defaults(ctx, cls):
    """the documented defaults of the rendering parameters"""
    import inspect

    f = wf.host(cls).to_markdown
    ps = list(inspect.signature(f).parameters.values())[1:]
    want = {"ignore_error": False, "level": 0}
    for p in ps:
        if p.name in want:
            ctx.obls.append(Obl("%s.to_markdown: default of %s" % (cls, p.name), p.default is want[p.name] or (p.name == "level" and p.default == 0 and p.default is not False)))


def mark_format(ctx, cls):
    W = wf.World()
    I = ctx.interp(W)
    st = State()
    me = W.make_self(I, st, cls)
    text = SStr(z3.Const("TEXT", smt.S))
    sp = getattr(specs, cls, specs.identity_mark)
    o, so, co = compare(I, st, cls + ".to_markdown", lambda s: I.call(s, sp, [me, text], {}), lambda s: to_md(I, s, me, [text], {}))
    ctx.obls += o
    sane(ctx, cls, I, so)


def node_marks(ctx, cls):
    """marks are applied once each, in order, to what the element renders to without them"""
    W = wf.World("ok")
    I = ctx.interp(W)
    st = State()
    me = W.make_self(I, st, cls)
    ie = IE()
    if cls == "NodeMedia":
        st.pc.append(z3.Or(*[smt.sv(smt.get(smt.get(SELF, smt.sval("attrs")), smt.sval("type"))) == smt.sval(t) for t in ("file", "external")]))
    if cls == "NodeParagraph":
        # the marks belong inside the line, in front of the paragraph's final newline
        sp = specs.marked_paragraph
    else:
        sp = specs.marked
    I.models[specs.without_marks] = lambda I, s, a, k: unmarked(I, s, a[0])
    o, so, co = compare(I, st, cls + ": marks applied in order", lambda s: I.call(s, sp, [me, ie], {}), lambda s: to_md(I, s, me, [], {"ignore_error": ie}))
    ctx.obls += o
    sane(ctx, cls, I, so)


SELF = z3.Const("SELF", smt.Val)


def unmarked(I, s, me):
    ob = s.heap[me.id]
    f = dict(ob.fields)
    f["marks"] = I.OPT
    return I.alloc(s, Inst(ob.cls, f, False))


def lenient(ctx, cls):
    W = wf.World("may_fail", filtered=True, record_ie=True)
    I = ctx.interp(W)
    st = State()
    me = W.make_self(I, st, cls)
    a, kw = md_args(I, W, st, cls, me, True)

    def filt(s):
        return to_md(I, s, W.make_self(I, s, cls), [], kw)

    o, so, co = compare(I, st, cls + ": same as with the failing children left out", filt, lambda s: to_md(I, s, me, [], kw), spec_side="filtered")
    ctx.obls += o
    bad = [x for x in co if x.kind != "ok"]
    ctx.obls.append(Obl(cls + ": never raises when errors are ignored", not bad, "" if not bad else "raising path", 0, str([x.val for x in bad])))
    flags = [x for x in I.obligations]
    ctx.obls += [Obl("%s: %s" % (cls, w), ok, "" if ok else "unproved") for w, ok in flags]
    sane(ctx, cls, I, co)


def strict(ctx, cls):
    W = wf.World("may_fail")
    I = ctx.interp(W)
    st = State()
    me = W.make_self(I, st, cls)
    a, kw = md_args(I, W, st, cls, me, False)
    sp = getattr(specs, cls)
    o, so, co = compare(
        I, st, cls + ": error of the first failing child", lambda s: I.call(s, sp, a, {}), lambda s: to_md(I, s, me, [], kw), exc_only=True
    )
    ctx.obls += o
    sane(ctx, cls, I, so)


def leaf(ctx, cls):
    """a leaf's outcome does not depend on the flag (the children's contract says so)"""
    W = wf.World("may_fail")
    I = ctx.interp(W)
    st = State()
    me = W.make_self(I, st, cls)
    o, so, co = compare(
        I, st, cls + ": outcome independent of the flag", lambda s: to_md(I, s, me, [], {"ignore_error": False}),
        lambda s: to_md(I, s, me, [], {"ignore_error": True}), spec_side="spec",
    )
    ctx.obls += o
    sane(ctx, cls, I, so)


def no_blank_runs(ctx, cls):
    W = wf.World("ok")
    I = ctx.interp(W)
    st = State()
    me = W.make_self(I, st, cls)
    co = engine.run(I, "code", st, lambda s: to_md(I, s, me, [], {"ignore_error": IE()}))
    for i, c in enumerate(co):
        nm = "%s: path %d: no three consecutive newlines" % (cls, i)
        if c.kind != "ok":
            ctx.obls.append(Obl(nm, False, "raises"))
            continue
        r = smt.prove(I.global_facts + c.st.pc, z3.Not(z3.Contains(engine.str_term(c.val), smt.NL3)), 8000)
        ctx.obls.append(Obl(nm, r.ok, r.status, r.secs))
    ctx.obls += engine.term_obligations(I, cls)
    sane(ctx, cls, I, co)


def cell_grid(ctx, cls):
    node_format(ctx, cls)
    W = wf.World("ok")
    I = ctx.interp(W, allfree=["\n"])
    st = State()
    me = W.make_self(I, st, cls)
    co = engine.run(I, "code", st, lambda s: to_md(I, s, me, [], {"ignore_error": IE()}))
    for i, c in enumerate(co):
        nm = "%s: path %d: no newline in the cell" % (cls, i)
        if c.kind != "ok":
            ctx.obls.append(Obl(nm, False, "raises"))
            continue
        r = smt.prove(I.global_facts + c.st.pc, z3.Not(z3.Contains(engine.str_term(c.val), smt.NL)), 8000)
        ctx.obls.append(Obl(nm, r.ok, r.status, r.secs))


# ---------------------------------------------------------------------------------
RENDERED = [c for c in CLASSES if CLASSES[c]["kind"] == "node" and hasattr(specs, c)]
CONTAINER = [c for c in RENDERED if typ_of(c) in wf.CONTAINERS]
LEAF = [c for c in CLASSES if CLASSES[c]["kind"] == "node" and typ_of(c) not in wf.CONTAINERS]
MARKS = [c for c in CLASSES if CLASSES[c]["kind"] == "mark"]
FORMATTING = ["MarkStrong", "MarkEm", "MarkStrike", "MarkCode", "MarkLink"]


def each(fn, classes):
    return [("%s:%s" % (fn.__name__, c), fn, (c,)) for c in classes]


TASKS = {
    "C08": each(mark_format, FORMATTING),
    "C09": each(node_marks, ["NodeText", "NodeParagraph", "NodeMedia"]) + each(mark_format, [m for m in MARKS if m not in FORMATTING]),
    "C10": each(node_format, ["NodeParagraph", "NodeHeading", "NodeListItem", "NodeTaskItem", "NodeMediaSingle"]),
    "C11": each(lenient, CONTAINER) + each(leaf, LEAF),
    "C12": each(strict, CONTAINER),
    "C13": each(no_blank_runs, ["NodeDoc", "NodeExpand", "NodeNestedExpand"]),
    "C14": each(node_format, ["NodeDoc", "NodeExpand", "NodeNestedExpand"]),
    "C15": each(node_format, ["NodeBulletList"]),
    "C16": each(node_format, ["NodeOrderedList"]),
    "C17": each(node_format, ["NodeTaskList"]),
    "C18": each(cell_grid, ["NodeTableCell", "NodeTableHeader"]),
    "C19": each(node_format, ["NodeTableRow", "NodeTable"]),
    "C20": each(node_format, ["NodeBlockquote", "NodePanel"]),
    "C21": each(node_format, ["NodeDecisionItem", "NodeDecisionList"]),
    "C22": each(node_format, ["NodeCodeBlock"]),
    "C23": each(node_format, ["NodeText", "NodeMention", "NodeEmoji", "NodeStatus", "NodeHardBreak", "NodeRule", "NodeDate"]),
    "C24": each(node_format, ["NodeInlineCard", "NodeBlockCard", "NodeEmbedCard", "NodeMedia", "NodeExtension", "NodeMediaInline", "NodeMediaGroup", "NodeCaption"]),
}


def with_parse():
    from . import parse as P

    every = list(CLASSES)
    els = [c for c in every if CLASSES[c]["kind"] in ("node", "mark")]
    lists = [c for c in every if P.seq_of(c, "content") or P.seq_of(c, "marks")]

    def kind(fn):
        return each(fn, ["node", "mark"])

    def lone(fn):
        return [(fn.__name__, fn, ())]

    TASKS["C01"] = kind(P.registry) + lone(P.error_class) + each(P.own_class, every)
    TASKS["C02"] = each(P.children, lists)
    TASKS["C03"] = each(P.warnings, lists) + lone(P.warning_default)
    TASKS["C04"] = each(P.fields, every) + lone(P.unset_test)
    TASKS["C05"] = each(P.required, every)
    TASKS["C06"] = each(P.to_dict, every)
    frame = each(P.pure_parse, every) + each(P.pure_render, els) + kind(P.pure_dispatch)
    TASKS["C07"] = each(P.pure_to_dict, every) + frame
    TASKS["C25"] = lone(P.field_lookup) + each(P.fields_untouched, every)
    TASKS["C26"] = lone(P.type_test)
    from . import gencode

    TASKS["C28"] = each(gencode.scan, gencode.KINDS) + lone(gencode.generate) + lone(gencode.main) + lone(gencode.exports)
    TASKS["C27"] = lone(P.field_lookup_shared) + each(P.pure_to_dict, every) + frame


with_parse()


def run_task(name, fn, args):
    """executed in a fresh process; returns a picklable summary"""
    t = time.time()
    ctx = Ctx()
    if os.environ.get("DV_CROSS"):
        smt.DUMP = []
    res = {"task": name, "unsupported": None, "error": None}
    try:
        bad = wf.overrides()
        if bad:
            raise Unsupported("special methods of the package's classes: " + ", ".join(bad[:5]))
        fn(ctx, *args)
    except Unsupported as e:
        res["unsupported"] = str(e)
    except RecursionError:
        res["unsupported"] = "recursion limit of the executor"
    except Exception as e:
        res["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__, limit=-6))
    res["obls"] = [(o.name, o.ok, o.status, round(o.secs, 3), o.detail[:2000]) for o in ctx.obls]
    res["functions"] = sorted(set().union(*[I.inlined for I in ctx.interps])) if ctx.interps else []
    res["contracts"] = sorted(map(str, set().union(*[I.contracts_used for I in ctx.interps]))) if ctx.interps else []
    res["external"] = sorted(map(str, set().union(*[I.external_used for I in ctx.interps]))) if ctx.interps else []
    res["stats"] = {"queries": smt.STATS["queries"], "time": smt.STATS["time"], "unknown": smt.STATS["unknown"], "by": dict(smt.STATS["by"])}
    res["cross"] = smt.second_opinion(float(os.environ["DV_CROSS"])) if smt.DUMP is not None else None
    res["secs"] = time.time() - t
    return res

NOTES = {
    "C28": "generator, its helper functions and main against contracts for an arbitrary set of modules and members; the template is compiled by jinja2 and the result executed symbolically; "
           "the structure of the generated text is what is compared; file system, import system and jinja2 by assumed contracts (evidence file)",
    "C27": "rely/guarantee: frame obligations on every parsing, serialising and rendering function (nothing shared is written), and the field cache's invariant "
           "proved under arbitrary interference by other threads between its atomic operations; children by contract; assumptions in the evidence file",
}
