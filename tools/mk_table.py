"""One-off generator of dv/table.py from the reviewed tree (the output is committed and reviewed;
checks read the committed table, never the package, for what is documented)."""
import sys, dataclasses, typing as T, pprint
sys.path.insert(0, "/repo"); sys.path.insert(0, "/opt/venv/lib/python3.12/site-packages")
from atlas_doc_parser.nodes.parse_node import NODE_TYPE_TO_CLASS_MAPPING as N
from atlas_doc_parser.marks.parse_mark import MARK_TYPE_TO_CLASS_MAPPING as M
from func_args.api import REQ, OPT
name2type = {c.__name__: t for t, c in list(N.items()) + list(M.items())}
out = {}

def kind(f, cls):
    t = f.type
    if dataclasses.is_dataclass(t):
        if f.name == "attrs":
            return ("attrs", t.__name__)
        return ("json",)
    if f.name == "content":
        a = T.get_args(t)[0]
        names = [getattr(x, "__forward_arg__", x) for x in (T.get_args(a) or (a,))]
        return ("content", tuple(sorted(name2type[n] for n in names if n in name2type)))
    if f.name == "marks":
        a = T.get_args(t)
        if not a:
            return ("marks", tuple(sorted(M)))
        a = a[0]
        names = [x.__forward_arg__ if hasattr(x, "__forward_arg__") else x for x in (T.get_args(a) or (a,))]
        return ("marks", tuple(sorted(name2type[n] for n in names)))
    if t is str: return ("str",)
    if t is int: return ("int",)
    if t is bool: return ("bool",)
    if t is float: return ("num",)
    if T.get_origin(t) is T.Literal: return ("enum", tuple(T.get_args(t)))
    return ("json",)

def add(cls, k, typ):
    if cls.__name__ in out: return
    fs = []
    for f in dataclasses.fields(cls):
        d = f.default
        st = "req" if d is REQ or d is dataclasses.MISSING else "opt" if d is OPT else ("default", d)
        kd = kind(f, cls)
        fs.append((f.name, st, kd))
    out[cls.__name__] = dict(kind=k, module=cls.__module__, type=typ, fields=fs)
    for f in dataclasses.fields(cls):
        if f.name == "attrs": add(f.type, "attrs", None)

for t, c in N.items(): add(c, "node", t)
for t, c in M.items(): add(c, "mark", t)
import importlib
from atlas_doc_parser.nodes import node_block_card as b
for n in ("NodeBlockCardAttrsDatasourceView", "NodeBlockCardAttrsDatasource"): add(getattr(b, n), "attrs", None)
with open("/verif/dv/table.py", "w") as fh:
    fh.write('"""Documented element classes: type string, fields, required/optional, kinds.\n\nCommitted and reviewed by hand; the checks never derive it from the package.\nStatus of a field: req, opt, or ("default", value).\n"""\n')
    fh.write("CLASSES = " + pprint.pformat(out, width=130, sort_dicts=False) + "\n")
