"""Decide one property on /repo's current working tree.

  python3-vt -m dv.check C14 [--tier quick|thorough] [--seed N]

1. every task of the property (dv/props.py) generates its proof obligations from the
   functions' current source and discharges them; tasks run in separate processes;
2. next to it a witness search runs the real code on generated documents;
3. a failed obligation is a violation: the witness search is deepened to find an input
   that shows it on the real code, and the replay file holds that input, or else the
   failed obligation and the verifier's output;
4. functions outside the verifier's reach (a construct it does not translate, a time
   limit) are covered by the witness search alone, and the evidence says so.
"""
import argparse
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DV_REPO", "/repo")
SITE = "/opt/venv/lib/python3.12/site-packages"
OUT = os.environ.get("DV_OUT", VERIF)  # where evidence/, replay/ and scratch/ go
PROJECT_PYTHON = "/opt/venv/bin/python"
sys.path[:0] = [VERIF, REPO]
sys.path.append(SITE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
CORES = min(8, os.cpu_count() or 1)

TIERS = {
    # per task cap, cap for all tasks, witness budget next to the proofs, deep search: budget x processes
    "quick": dict(task=240, total=420, witness=5, deep=45, procs=8),
    "thorough": dict(task=700, total=3600, witness=60, deep=240, procs=8),
}


def child(conn, i, pid):
    """one proof task in its own process"""
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    try:
        from dv import props

        name, fn, args = props.TASKS[pid][i]
        conn.send(props.run_task(name, fn, args))
    except BaseException as e:  # reported, never swallowed
        conn.send({"task": str(i), "error": repr(e), "unsupported": None, "obls": [], "functions": [], "contracts": [], "external": [], "stats": None, "secs": 0})
    conn.close()


def run_proofs(pid, names, cap, total):
    t0 = time.time()
    pending, live, done = list(range(len(names))), {}, {}
    ctx = mp.get_context("fork")
    while pending or live:
        while pending and len(live) < CORES and time.time() - t0 < total:
            i = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, i, pid))
            p.start()
            b.close()
            live[i] = (p, a, time.time())
        if pending and not live:
            break
        for i, (p, a, t) in list(live.items()):
            r = None
            if a.poll(0.02):
                try:
                    r = a.recv()
                except EOFError:
                    r = {"unsupported": "the verifier's process ended (exit status %s)" % p.exitcode}
            elif not p.is_alive():
                r = {"unsupported": "the verifier's process ended (exit status %s)" % p.exitcode}
            elif time.time() - t > cap or time.time() - t0 > total:
                r = {"unsupported": "time limit of %d s" % cap}
            if r is not None:
                if p.is_alive():
                    p.kill() if "obls" not in r else None
                p.join(5)
                a.close()
                for k, v in dict(task=names[i], error=None, obls=[], functions=[], contracts=[], external=[], stats=None, secs=time.time() - t).items():
                    r.setdefault(k, v)
                done[i] = r
                del live[i]
    for i in pending:
        done[i] = dict(task=names[i], unsupported="time limit of all tasks", error=None, obls=[], functions=[], contracts=[], external=[], stats=None, secs=0)
    return [done[i] for i in sorted(done)]


def start_witness(pid, seed, budget, out):
    cmd = [PROJECT_PYTHON, "-B", os.path.join(VERIF, "dv", "witness.py"), "--property", pid, "--seed", str(seed), "--budget", str(budget), "--out", out]
    env = dict(os.environ, DV_REPO=REPO, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    return subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, cwd=VERIF)


def witness_result(p, out, budget):
    try:
        p.wait(budget + 60)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
    try:
        with open(out) as f:
            return json.load(f)
    except (OSError, ValueError):
        return {"cases": 0, "nontrivial": 0, "violation": None, "secs": 0, "samples": [], "crash": "the search ended without an answer"}
    finally:
        if os.path.exists(out):
            os.unlink(out)


def deep_search(pid, seed, budget, procs, scratch):
    ps = []
    for k in range(procs):
        out = os.path.join(scratch, "deep-%s-%d-%d.json" % (pid, os.getpid(), k))
        ps.append((start_witness(pid, "%s.%d" % (seed, k + 1), budget, out), out))
    t0, res, left = time.time(), [], list(ps)
    while left:
        for p, out in list(left):
            if p.poll() is not None or time.time() - t0 > budget + 60:
                left.remove((p, out))
                r = witness_result(p, out, 1)
                res.append(r)
                if r["violation"]:
                    for q, o in left:
                        q.kill()
                        q.wait()
                        if os.path.exists(o):
                            os.unlink(o)
                    return res
        time.sleep(0.05)
    return res


LEMMAS = os.path.join(VERIF, "dv", "lemmas.lean")


def start_lemmas():
    try:
        return subprocess.Popen(["lean", LEMMAS], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=os.path.join(OUT, "scratch"))
    except OSError:
        return None


def lemmas_result(p):
    """(did Lean accept every theorem, text for the evidence)"""
    if p is None:
        return False, "lean could not be started: the lemmas are assumed"
    try:
        out, _ = p.communicate(timeout=120)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return False, "no answer from lean: the lemmas are assumed"
    with open(LEMMAS) as f:
        n = sum(l.startswith("theorem ") for l in f)
    if p.returncode or out.strip():
        return False, "lean did not accept dv/lemmas.lean (the lemmas are assumed): " + out.strip()[:200]
    return True, "%d theorems of dv/lemmas.lean accepted by lean" % n


def trusted_base_trial(seed):
    """thorough tier: the assumed lemmas and contracts of built-ins against CPython (dv/selftest.py)"""
    n = int(seed) if str(seed).isdigit() else 1
    try:
        r = subprocess.run([sys.executable, "-B", "-m", "dv.selftest", str(n), "3000", "6"], cwd=VERIF, capture_output=True, text=True, timeout=900)
    except subprocess.TimeoutExpired:
        return {"result": "no answer in 900 s", "contradictions": 0}
    out = r.stdout.strip().splitlines()
    return {"result": out[0] if out else r.stderr[-300:], "contradictions": sum("CONTRADICTION" in l for l in out), "details": out[1:20]}


def known_findings(pid):
    """lines 'KNOWN-FINDING: property=<id> class=<class> what=<oracle> :: text'"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("KNOWN-FINDING: property=%s " % pid):
                out.append(l.rstrip("\n"))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED") or "1")
    a = ap.parse_args()
    T = TIERS.get(a.tier, TIERS["quick"])
    pid = a.pid
    t0 = time.time()
    for d in ("evidence", "replay", "scratch"):
        os.makedirs(os.path.join(OUT, d), exist_ok=True)
    scratch = os.path.join(OUT, "scratch")
    if a.tier == "thorough":
        os.environ["DV_SCALE"] = "4"
        os.environ["DV_CROSS"] = "240"
    wout = os.path.join(scratch, "w-%s-%d.json" % (pid, os.getpid()))
    w = start_witness(pid, a.seed, T["witness"], wout)
    lean = start_lemmas()
    load_error, results = None, []
    try:
        from dv import props

        names = [n for n, _, _ in props.TASKS[pid]]
    except Exception as e:
        import traceback

        load_error = "".join(traceback.format_exception(type(e), e, e.__traceback__, limit=-4))
    if not load_error:
        results = run_proofs(pid, names, T["task"], T["total"])
    wr = witness_result(w, wout, T["witness"])
    proved, lemmas = lemmas_result(lean)
    trial = trusted_base_trial(a.seed) if a.tier == "thorough" else None

    failed, beyond, errors = [], [], []
    for r in results:
        if r["error"]:
            errors.append((r["task"], r["error"]))
            beyond.append((r["task"], "internal error of the verifier: " + r["error"].strip().splitlines()[-1]))
        elif r["unsupported"]:
            beyond.append((r["task"], r["unsupported"]))
        failed += [(r["task"],) + tuple(o) for o in r["obls"] if not o[1]]
    if load_error:
        beyond.append(("all", "the package cannot be imported by the verifier: " + load_error))
    violation, search = wr["violation"], [wr]
    if violation is None and (failed or beyond):
        more = deep_search(pid, a.seed, T["deep"] if failed else max(15, T["deep"] // 2), T["procs"], scratch)
        search += more
        for m in more:
            violation = violation or m["violation"]
    crashed = [s["crash"] for s in search if s.get("crash")]

    obls = [o for r in results for o in r["obls"]]
    functions = sorted({f for r in results for f in r["functions"]})
    contracts = sorted({f for r in results for f in r["contracts"]})
    external = sorted({f for r in results for f in r["external"]})
    stats = [r["stats"] for r in results if r["stats"]]
    by = {}
    for s in stats:
        for k, v in s["by"].items():
            by[k] = by.get(k, 0) + v
    bad = bool(failed or violation)
    cross = {}
    for r in results:
        for k, v in (r.get("cross") or {}).items():
            cross[k] = cross.get(k, 0) + v
    level = "proof" if not beyond and not (trial and trial["contradictions"]) and not any((r.get("cross") or {}).get("contradicted") for r in results) else "exploration"
    cases = sum(s["cases"] for s in search)
    nontriv = sum(s["nontrivial"] for s in search)
    samples = [x for s in search for x in s.get("samples", [])][:4]
    try:
        from dv import trusted

        tb, assumptions = trusted.base(pid, external, proved), trusted.assumptions(pid)
    except ImportError:
        tb, assumptions = ["z3"], []
    cov = {
        "obligations": len(obls),
        "discharged": sum(1 for o in obls if o[1]),
        "checker_cmd": "cd /verif && python3-vt -m dv.check %s --tier %s" % (pid, a.tier),
        "trusted_base": tb,
        "string_and_list_lemmas": lemmas,
        "functions_under_contract": functions,
        "contracts_used_at_call_sites": contracts,
        "external_functions_modelled": external,
        "tasks": [
            {"task": r["task"], "obligations": len(r["obls"]), "discharged": sum(1 for o in r["obls"] if o[1]), "wall_s": round(r["secs"], 2),
             "solver_s": round(r["stats"]["time"], 2) if r["stats"] else 0, "beyond_reach": r["unsupported"]}
            for r in results
        ],
        "solver_queries": {k: v for k, v in by.items()},
        "solver_time_s": round(sum(s["time"] for s in stats), 2),
        "evaluations": cases,
        "distinct_nontrivial": nontriv,
        "rule": "cross-check on the real code, never counted as proved: documents generated from the format's field table (dv/table.py) with random text, "
                "absent optional fields, failing children; a case counts when the property's oracle was evaluated on it",
        "samples": samples or ["no case"],
        "bounded_stand_in": [{"task": t, "reason": x[:600]} for t, x in beyond],
        "failed_obligations": ["%s: %s (%s)" % (f[0], f[1], f[3]) for f in failed][:50],
    }
    if cross:
        cov["refutations_given_to_cvc5"] = cross
    if trial:
        cov["trusted_base_trial"] = trial
    ev = {
        "property": pid, "tier": a.tier if a.tier in TIERS else "quick", "seed": int(a.seed) if str(a.seed).isdigit() else 1, "level": level,
        "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(failed) + (1 if violation else 0),
    }
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d functions under contract, solver %.1f s; cross-check %d cases; %.1f s" % (
        pid, len(obls), cov["discharged"], len(functions), cov["solver_time_s"], cases, time.time() - t0))
    if cross:
        print("  cvc5 on z3's refutations: " + ", ".join("%s %d" % kv for kv in cross.items()))
    if trial:
        print("  " + trial["result"])
    for t, x in beyond:
        print("  bounded stand-in: %s: %s" % (t, x.strip().splitlines()[-1][:200] if x.strip() else x))
    for f in failed[:20]:
        print("  failed obligation: %s: %s (%s)" % (f[0], f[1], f[3]))
    for k in known_findings(pid):
        print(k)
    if not bad and crashed and len(crashed) == len(search):
        if load_error:
            # the package does not even import: no answer can be given, but nothing holds either
            violation = {"property": pid, "what": "the package cannot be used", "case": None, "actual": crashed[0], "expected": "importable package"}
            bad = True
        else:
            print("  the cross-check could not run: " + crashed[0].strip().splitlines()[-1])
    if not bad:
        return 0
    rp = os.path.join(OUT, "replay", pid + ".json")
    rec = dict(violation or {"property": pid, "case": None})
    rec["failed_obligations"] = [{"task": f[0], "obligation": f[1], "solver": f[3], "output": f[5]} for f in failed][:40]
    rec["replay_cmd"] = "%s %s --replay %s" % (PROJECT_PYTHON, os.path.join(VERIF, "dv", "witness.py"), rp)
    with open(rp, "w") as f:
        json.dump(rec, f, indent=1, default=repr)
    if violation:
        print("  %s %s: expected %s, got %s" % (violation.get("class", ""), violation.get("what"), str(violation.get("expected"))[:300], str(violation.get("actual"))[:300]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    else:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
    return 1


if __name__ == "__main__":
    sys.exit(main())
