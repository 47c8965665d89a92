"""Behaviour-preserving edits on which every check must stay quiet.

refactor.py SPEC.py [ids...]   SPEC.py defines REFACTORINGS = [dict(id, edits=[(file, old, new)], props=[...])]
Each edit is made in a scratch copy; the tests must pass there; then the checks run against it.
"""
import os, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import PY, sh

PARSING = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C25", "C27"]
RENDERING = ["C07"] + ["C%02d" % i for i in range(8, 25)]


def run(b):
    tmp = tempfile.mkdtemp(prefix="refactor-")
    d = os.path.join(tmp, "repo")
    try:
        subprocess.run(["cp", "-a", "/repo", d], check=True)
        for f, old, new in b["edits"]:
            p = os.path.join(d, "atlas_doc_parser", f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "edit matches %d times in %s: %r" % (s.count(old), f, old))
                return
            open(p, "w").write(s.replace(old, new))
        env = {"PYTHONPATH": d, "CI": "true", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}
        rc, o = sh([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-x"], d, env)
        if rc:
            print(b["id"], "tests fail:", o[-500:])
            return
        props = b["props"]
        if isinstance(props, str):
            props = {"parsing": PARSING, "rendering": RENDERING}[props]
        for pid in props:
            t = time.time()
            env = dict(os.environ, DV_REPO=d, DV_OUT=tmp, VERIF_SEED="1", VERIF_TIER="quick", PYTHONDONTWRITEBYTECODE="1")
            r = subprocess.run(["python3-vt", "-m", "dv.check", pid], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            ls = r.stdout.splitlines()
            v = [l for l in ls if l.startswith("VIOLATION")]
            st = [l for l in ls if "bounded stand-in:" in l]
            fo = [l for l in ls if "failed obligation:" in l]
            what = "quiet" if r.returncode == 0 else "ALARM" + ("(no input)" if v and v[0].endswith("found") else "") if v else "ERROR %d" % r.returncode
            print(b["id"], pid, what, "stand-ins %d failed %d %.0fs" % (len(st), len(fo), time.time() - t), flush=True)
            for l in (st + fo)[:4]:
                print("     ", l[:260], flush=True)
            if what.startswith("ERROR") or what == "ALARM":
                print(r.stdout[-1500:])
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    g = {}
    exec(open(sys.argv[1]).read(), g)
    for b in g["REFACTORINGS"]:
        if len(sys.argv) == 2 or b["id"] in sys.argv[2:] or b["id"].split("-")[0] in sys.argv[2:]:
            run(b)
