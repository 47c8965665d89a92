"""Create seeded bugs: plant.py SPEC.py  (SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, what)])

Every bug is confirmed in a scratch copy: applies, builds, the tests pass, the demo
passes without and fails with the change.
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, timeout=300):
    r = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def original_lines(path):
    r = subprocess.run(["git", "-C", "/repo", "show", "a59f782:" + path], stdout=subprocess.PIPE, text=True)
    return r.stdout.splitlines()


def plant(b):
    tmp = tempfile.mkdtemp(prefix="plant-")
    d = os.path.join(tmp, "repo")
    out = os.path.join(V, "seeded", b["id"])
    try:
        subprocess.run(["cp", "-a", "/repo", d], check=True)
        for f, old, new in b["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], "edit matches %d times in %s: %r" % (s.count(old), f, old)
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh(["git", "diff"], d)
        orig = [l for f, _, _ in b["edits"] for l in original_lines(f)]
        removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        warn = "" if not removed or any(l in orig for l in removed) else " [WARNING: changes only lines of fix commits]"
        env = {"PYTHONPATH": d, "CI": "true", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}
        rc, o = sh([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-x"], d, env)
        if rc:
            return b["id"], "tests fail: " + o[-600:]
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        rc1, o1 = sh(["bash", os.path.join(out, "demo.sh")], "/repo")
        rc2, o2 = sh(["bash", os.path.join(out, "demo.sh")], d)
        if rc1 or not rc2:
            shutil.rmtree(out)
            return b["id"], "demo: unchanged rc=%d changed rc=%d\n%s\n%s" % (rc1, rc2, o1[-800:], o2[-800:])
        return b["id"], "ok" + warn + "  " + (o2.strip().splitlines() or [""])[-1][:150]
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    g = {}
    exec(open(sys.argv[1]).read(), g)
    bugs = [b for b in g["BUGS"] if len(sys.argv) < 3 or b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(plant, bugs):
            print(*r)
