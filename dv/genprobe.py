"""Run inside a scratch copy of the package (project's Python): regenerate api.py, then report what it does not export.

  genprobe.py generate|probe     (cwd and sys.path[0] = the scratch directory; prints one JSON line)
"""
import importlib
import json
import os
import sys


def classes(pkg, kinds=("mark", "node")):
    """(module, class name, class) for every public element or attribute class that the package's mark and node modules define"""
    base = importlib.import_module("atlas_doc_parser.mark_or_node").Base
    for k in kinds:
        d = os.path.join(pkg, k + "s")
        for f in sorted(os.listdir(d)):
            if f.startswith(k + "_") and f.endswith(".py"):
                mod = importlib.import_module("atlas_doc_parser.%ss.%s" % (k, f[:-3]))
                for n, v in sorted(vars(mod).items()):
                    if isinstance(v, type) and issubclass(v, base) and v.__module__ == mod.__name__ and not n.startswith("_"):
                        yield mod.__name__, n, v


def missing(pkg, limit=20):
    """names that the API module does not export (or exports as something else)"""
    try:
        api = importlib.import_module("atlas_doc_parser.api")
    except Exception as e:
        return {"count": 0, "missing": ["the API module cannot be imported: %r" % e]}
    out, n, later = [], 0, {}
    for m, name, v in classes(pkg):
        later[name] = v  # of two classes with one name only one can be exported
    for m, name, v in classes(pkg):
        n += 1
        if later[name] is v and getattr(api, name, None) is not v:
            out.append("%s.%s" % (m, name))
    return {"count": n, "missing": out[:limit]}


if __name__ == "__main__":
    here = os.getcwd()
    sys.path.insert(0, here)
    sys.path[:] = [here] + [p for p in sys.path if p not in (here, os.path.dirname(os.path.abspath(__file__)))]
    pkg = os.path.join(here, "atlas_doc_parser")
    out = sys.stdout
    sys.stdout = sys.stderr
    if sys.argv[1] == "generate":
        try:
            g = importlib.import_module("atlas_doc_parser.gen_code")
            assert os.path.dirname(os.path.abspath(g.__file__)) == pkg
            g.main()
            r = {"ok": True}
        except Exception as e:
            r = {"ok": False, "error": repr(e)}
    else:
        r = missing(pkg)
    out.write(json.dumps(r) + "\n")
