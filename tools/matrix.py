"""Run each seeded bug's check against a scratch copy with the bug applied: matrix.py [--all-props] [ids...]"""
import json, os, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(bid, patch, pids):
    tmp = tempfile.mkdtemp(prefix="matrix-")
    d = os.path.join(tmp, "repo")
    res = []
    try:
        subprocess.run(["cp", "-a", "/repo", d], check=True)
        if patch:
            subprocess.run(["git", "apply", patch], cwd=d, check=True)
        for pid in pids:
            t = time.time()
            env = dict(os.environ, DV_REPO=d, DV_OUT=tmp, VERIF_SEED="1", VERIF_TIER="quick", PYTHONDONTWRITEBYTECODE="1")
            r = subprocess.run(["python3-vt", "-m", "dv.check", pid], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            nf = r.stdout.count("failed obligation:")
            bs = r.stdout.count("bounded stand-in:")
            res.append((pid, r.returncode, "CAUGHT" if r.returncode == 1 and v else "quiet" if r.returncode == 0 else "ERROR",
                        "no-input" if v and v[0].endswith("found") else "", "%d failed obl" % nf, "%d stand-in" % bs, "%.0fs" % (time.time() - t)))
            if os.environ.get("SHOW"):
                print(r.stdout)
    finally:
        shutil.rmtree(tmp)
    return res


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    root = os.path.join(V, "seeded")
    for b in sorted(os.listdir(root)):
        if ids and b not in ids:
            continue
        m = json.load(open(os.path.join(root, b, "meta.json")))
        for r in run(b, os.path.join(root, b, "patch.diff"), [m["property"]]):
            print(b, *r, flush=True)
