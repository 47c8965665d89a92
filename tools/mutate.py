"""Systematic mutants of the package that the test suite lets through, and what the checks say.

mutate.py gen OUT.json        enumerate mutants, keep those that pass the tests
mutate.py run OUT.json [file...]   run the proof tasks each survivor can touch; MISSED = every obligation still holds
"""
import ast, copy, glob, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
R = "/repo/atlas_doc_parser"


def files():
    fs = [R + "/" + f for f in ("mark_or_node.py", "markdown_helpers.py", "type_enum.py", "exc.py", "settings.py")]
    return fs + sorted(glob.glob(R + "/nodes/*.py")) + sorted(glob.glob(R + "/marks/*.py"))


def replace(src, node, new):
    lines = src.splitlines(True)
    # ast columns are in utf-8 bytes
    b = [l.encode() for l in lines]
    i, j = node.lineno - 1, node.end_lineno - 1
    head = b"".join(b[:i]) + b[i][: node.col_offset]
    tail = b[j][node.end_col_offset :] + b"".join(b[j + 1 :])
    return (head + new.encode() + tail).decode()


CMP = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
STRIPS = {"rstrip": ["lstrip", "strip"], "lstrip": ["strip", "rstrip"], "strip": ["rstrip"]}


def mutants(src):
    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.add(id(n.body[0].value))
            skip.add(id(n.body[0]))
        if isinstance(n, ast.If) and ast.unparse(n.test) == "T.TYPE_CHECKING":
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.AnnAssign):
            skip |= {id(x) for x in ast.walk(n.annotation)}
        if isinstance(n, (ast.FunctionDef,)):
            for a in n.args.args:
                if a.annotation:
                    skip |= {id(x) for x in ast.walk(a.annotation)}
            if n.returns:
                skip |= {id(x) for x in ast.walk(n.returns)}
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and (t.id.startswith("T_") or t.id == "ATLASSIAN_LANG_TO_MARKDOWN_LANG_MAPPING") for t in n.targets):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.JoinedStr):
            for x in n.values:
                if isinstance(x, ast.Constant):
                    skip.add(id(x))
    out = []
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        U = ast.unparse
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                out.append((n, "%s %s %s" % (U(n.left), o, U(n.comparators[0]))))
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            out.append((n, "(" + op.join("(%s)" % U(v) for v in n.values) + ")"))
            for v in n.values:
                out.append((n, "(%s)" % U(v)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append((n, "(%s)" % U(n.operand)))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                out.append((n, str(not n.value)))
            elif isinstance(n.value, int):
                out += [(n, str(n.value + 1)), (n, str(n.value - 1))]
            elif isinstance(n.value, str):
                out.append((n, repr(n.value + " ")))
                if n.value:
                    out.append((n, repr(n.value[:-1])))
        elif isinstance(n, ast.JoinedStr):
            for k, x in enumerate(n.values):
                if isinstance(x, ast.Constant):
                    m = copy.deepcopy(n)
                    m.values[k].value = x.value[:-1]
                    out.append((n, U(m)))
                    m = copy.deepcopy(n)
                    m.values[k].value = x.value + " "
                    out.append((n, U(m)))
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in STRIPS:
                out.append((n, U(f.value)))
                for s in STRIPS[f.attr]:
                    m = copy.deepcopy(n)
                    m.func.attr = s
                    out.append((n, U(m)))
                if not n.args:
                    m = copy.deepcopy(n)
                    m.args = [ast.Constant("\n")]
                    out.append((n, U(m)))
            for k in range(len(n.keywords)):
                m = copy.deepcopy(n)
                del m.keywords[k]
                out.append((n, U(m)))
            if isinstance(f, (ast.Name, ast.Attribute)) and (getattr(f, "id", "") or getattr(f, "attr", "")) in ("strip_double_empty_line", "add_style_to_markdown", "deepcopy", "str", "int", "list", "asdict") and n.args:
                out.append((n, U(n.args[0])))
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            t = U(n.type)
            for x in ("Exception", "(ValueError, NotImplementedError)"):
                if x != t:
                    out.append((n.type, x))
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not isinstance(getattr(n, "value", None), ast.Constant):
            if n.col_offset > 0:
                out.append((n, "pass"))
        elif isinstance(n, ast.If):
            out += [(n.test, "True"), (n.test, "False")]
        elif isinstance(n, ast.IfExp):
            out += [(n, U(n.body)), (n, U(n.orelse))]
        elif isinstance(n, ast.Raise):
            out.append((n, "pass"))
            if n.exc is not None:
                out.append((n, "raise RuntimeError('x')"))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in ("REQ", "OPT"):
            out.append((n, "OPT" if n.id == "REQ" else "REQ"))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            out.append((n, U(n.value)))
        elif isinstance(n, ast.BinOp):
            out += [(n, U(n.left)), (n, U(n.right))]
        elif isinstance(n, ast.Continue):
            out.append((n, "pass"))
            out.append((n, "break"))
    seen, res = set(), []
    for n, new in out:
        s = replace(src, n, new)
        if s in seen or s == src:
            continue
        try:
            ast.parse(s)
        except SyntaxError:
            continue
        if ast.dump(ast.parse(s)) == ast.dump(tree):
            continue
        seen.add(s)
        old = ast.unparse(n) if not isinstance(n, ast.ExceptHandler) else ""
        res.append((n.lineno, old[:100], new[:100], s))
    return res


def gen(out):
    work = []
    for f in files():
        src = open(f).read()
        for k, (ln, old, new, s) in enumerate(mutants(src)):
            work.append(dict(file=os.path.relpath(f, R), line=ln, old=old, new=new, src=s))
    print(len(work), "mutants")
    base = tempfile.mkdtemp(prefix="mut-")
    dirs = []
    for i in range(8):
        d = os.path.join(base, "r%d" % i)
        subprocess.run(["cp", "-a", "/repo", d], check=True)
        dirs.append(d)
    import queue
    q = queue.Queue()
    for d in dirs:
        q.put(d)

    def test(m):
        d = q.get()
        p = os.path.join(d, "atlas_doc_parser", m["file"])
        keep = open(p).read()
        try:
            open(p, "w").write(m["src"])
            env = dict(os.environ, PYTHONPATH=d, CI="true", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
            try:
                r = subprocess.run([PY, "-m", "pytest", "tests", "-q", "-x", "-p", "no:cacheprovider"], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
                return r.returncode == 0
            except subprocess.TimeoutExpired:
                return False
        finally:
            open(p, "w").write(keep)
            q.put(d)

    with ThreadPoolExecutor(8) as ex:
        ok = list(ex.map(test, work))
    shutil.rmtree(base)
    surv = [m for m, k in zip(work, ok) if k]
    print(len(surv), "survive the tests")
    json.dump(surv, open(out, "w"))


def tasks_for(f, props):
    """the proof tasks a change of this file can touch, cheapest selection"""
    b = os.path.basename(f)
    T = props.TASKS
    some = ["NodeHeading", "NodeText", "NodeMediaInline", "MarkLink", "NodeDoc", "NodeExtensionAttrs", "MarkStrong", "NodeExtension"]

    def pick(pids, classes=None):
        return [(p,) + t for p in pids for t in T[p] if not t[2] or classes is None or t[2][0] in classes or t[2][0] in ("node", "mark")]

    PP = ["C01", "C05", "C04", "C06", "C02", "C03", "C25", "C27", "C07"]
    if b == "mark_or_node.py":
        return pick(PP, some) + pick(["C12", "C11"], ["NodeMediaGroup", "NodeMediaInline"])
    if b == "markdown_helpers.py":
        return pick(["C14", "C10", "C13", "C09", "C20", "C12", "C11", "C27"], ["NodeDoc", "NodeParagraph", "NodePanel", "NodeText", "NodeMedia", "NodeHeading", "NodeExpand"])
    if b == "type_enum.py":
        return pick(["C26", "C01", "C14", "C15", "C16", "C17", "C19", "C21"])
    if b in ("exc.py", "parse_node.py", "parse_mark.py"):
        return pick(["C01", "C03"], ["node", "mark", "NodeDoc", "NodeText"])
    if b == "settings.py":
        return pick(["C03"], ["NodeDoc"])
    cls = "".join(x.capitalize() for x in b[:-3].split("_"))
    return [(p,) + t for p, ts in T.items() for t in ts if t[2] and str(t[2][0]).startswith(cls)]


def one(m):
    """in its own process"""
    tmp = tempfile.mkdtemp(prefix="mutrun-")
    d = os.path.join(tmp, "repo")
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    open(os.path.join(d, "atlas_doc_parser", m["file"]), "w").write(m["src"])
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        res = "MISSED"
        try:
            os.environ["DV_REPO"] = d
            sys.path[:0] = [V, d]
            sys.path.append("/opt/venv/lib/python3.12/site-packages")
            sys.setrecursionlimit(20000)
            sys.dont_write_bytecode = True
            from dv import props

            odd = ""
            for p, name, fn, args in tasks_for(m["file"], props):
                r = props.run_task(name, fn, args)
                bad = [o for o in r["obls"] if not o[1]]
                if bad:
                    res = "caught %s %s: %s" % (p, name, bad[0][0][:100])
                    break
                if r["unsupported"] or r["error"]:
                    odd = odd or "standin %s %s: %s" % (p, name, (r["unsupported"] or r["error"].strip().splitlines()[-1])[:120])
            else:
                res = odd or res
        except BaseException as e:
            res = "import fails: %r" % (e,)
        os.write(wr, res.encode()[:2000])
        os._exit(0)
    os.close(wr)
    out = b""
    while True:
        x = os.read(rd, 4096)
        if not x:
            break
        out += x
    os.close(rd)
    os.waitpid(pid, 0)
    shutil.rmtree(tmp)
    print("%-8s %s:%d  %s  ->  %s   [%s]" % (out.decode().split()[0] if out else "died", m["file"], m["line"], m["old"].replace("\n", "\\n"), m["new"].replace("\n", "\\n"), out.decode()), flush=True)


def run(out, only):
    surv = [m for m in json.load(open(out)) if not only or any(o in m["file"] for o in only)]
    random.Random(1).shuffle(surv)
    from multiprocessing.pool import ThreadPool

    def go(m):
        subprocess.run([sys.executable, __file__, "one"], input=json.dumps(m).encode(), timeout=1200)

    with ThreadPool(int(os.environ.get("JOBS", "7"))) as tp:
        tp.map(go, surv, chunksize=1)


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(sys.argv[2])
    elif sys.argv[1] == "one":
        one(json.load(sys.stdin))
    else:
        run(sys.argv[2], sys.argv[3:])
