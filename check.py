#!/usr/bin/env python3
"""Decide one property: discharge every obligation of the functions it depends on, from /repo's current
source; where one is not discharged, look for a failing input on the real code.

usage: check.py PROPERTY [--tier quick|thorough] [--repo DIR]
exit 0: holds; 1: violated (VIOLATION line); 2: the check itself failed
"""
import argparse
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def reexec():
    env = dict(os.environ)
    if os.path.realpath(sys.executable) != os.path.realpath(PY) or env.get("PYTHONHASHSEED") != "0" or env.get("PYVC_CHILD") != "1":
        env.update(PYTHONHASHSEED="0", PYVC_CHILD="1", PYTHONDONTWRITEBYTECODE="1")
        env.pop("PYTHONPATH", None)
        os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)


def job(args):
    qual, pid, slow = args
    t0 = time.time()
    from pyvc import solve, loops, verify, sym
    from contracts import props
    solve.STATS.update(queries=0, time=0.0, unsat=0, sat=0, unknown=0)
    if slow:
        loops.HOUDINI_MS = loops.HOUDINI_MS * 4
        solve.LEMMA_MS = solve.LEMMA_MS * 4
        solve.LIGHT_MS = solve.LIGHT_MS * 4
    out = {"function": qual, "obligations": [], "error": None, "slow": slow}
    try:
        c = props.REG[qual]
        r = verify.verify(c, props.REG, {pid}, timeout_ms=10000 if slow else 2500)
        for name, tags, status, secs, ob in r.obligations:
            rec = {"name": name, "status": status}
            if status != "proved":
                rec["assumptions"] = [str(t)[:600] for t in ob.pc]
                rec["goal"] = str(ob.goal)[:2000]
            out["obligations"].append(rec)
        out["error"] = r.error
        out["calls"] = sorted(r.used)
        out["inlined"] = sorted(str(x) for x in r.inlined)
        out["loops"] = [{"function": q, "line": l, "invariants": inv, "rounds": n} for q, l, inv, n in r.loops]
    except Exception as e:     # an engine failure must never pass for a discharged obligation
        out["error"] = f"engine: {type(e).__name__}: {e}"
        out["trace"] = traceback.format_exc()[-3000:]
    out["seconds"] = round(time.time() - t0, 2)
    out["solver"] = dict(solve.STATS)
    return out


def prove_all(ctx, jobs, limit):
    end = time.time() + limit
    out = []
    pool = ctx.Pool(8, maxtasksperchild=1)
    try:
        pend = [(j, pool.apply_async(job, (j,))) for j in jobs]
        for j, p in pend:
            try:
                out.append(p.get(timeout=max(0.1, end - time.time())))
            except multiprocessing.TimeoutError:
                out.append({"function": j[0], "obligations": [], "error": f"no answer within {limit} s", "slow": j[2], "seconds": limit, "solver": {}})
    finally:
        pool.terminate()
        pool.join()
    return out


def ok(r):
    return r["error"] is None and all(o["status"] == "proved" for o in r["obligations"])


def search(pid, repo, seed, seconds, scratch, seeds_file=None, procs=8, stop=True):
    """concrete search on the real code, in parallel -> (found or None, totals)"""
    script = os.path.join(HERE, "replay", "cli.py" if pid in ("C16", "C17", "C19") else "fuzz.py")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    if seeds_file:
        env["VERIF_SEED_INPUTS"] = seeds_file
    ps = []
    for k in range(procs):
        out = os.path.join(scratch, f"f{seed}-{k}.json")
        ps.append((subprocess.Popen([PY, script, repo, pid, str(seed * 1000 + k), str(seconds), out], env=env,
                                    stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w")), out))
    tot = {"evaluations": 0, "distinct_nontrivial": 0, "processes": procs, "seconds": seconds, "failed_processes": 0}
    found = None
    end = time.time() + seconds + 60
    live = list(ps)
    while live:
        for p, out in list(live):
            if p.poll() is not None:
                live.remove((p, out))
                try:
                    d = json.load(open(out))
                except (OSError, ValueError):
                    tot["failed_processes"] += 1
                    tot["stderr"] = open(out + ".err").read()[-1500:]
                    continue
                tot["evaluations"] += d["evaluations"]
                tot["distinct_nontrivial"] += d["distinct_nontrivial"]
                if d.get("sample") and len(tot.setdefault("samples", [])) < 4:
                    tot["samples"].append(d["sample"])
                if d["found"] and d["found"].get("message") and (found is None or len(json.dumps(d["found"])) < len(json.dumps(found))):
                    found = d["found"]
        if found and stop or time.time() > end:
            for p, out in live:
                p.kill()
                p.wait()
                if not found:
                    tot["failed_processes"] += 1
            live = []
        time.sleep(0.05)
    return found, tot


def known(pid):
    """the inputs listed as known findings of the property: (input, what fails)"""
    out = []
    for l in open(os.path.join(HERE, "known_findings.txt")):
        pre = f"known: property={pid} input="
        if l.startswith(pre):
            v, end = json.JSONDecoder().raw_decode(l[len(pre):])
            out.append((v, l[len(pre):][end:].strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    a = ap.parse_args()
    reexec()
    t0 = time.time()
    pid, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path[:0] = [a.repo, HERE]
    sys.setrecursionlimit(20000)
    scratch = tempfile.mkdtemp(prefix="pyvc-")
    try:
        return run(pid, tier, seed, a.repo, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(pid, tier, seed, repo, scratch, t0):
    from contracts import props
    spec = props.PROPS[pid]
    broken_import = None
    try:
        import markflow.__main__, markflow.reformat_markdown  # noqa
        assert os.path.realpath(markflow.__file__).startswith(os.path.realpath(repo) + "/"), markflow.__file__
    except Exception as e:
        broken_import = f"{type(e).__name__}: {e}"
    results = []
    quals = list(spec["functions"])
    ctx = multiprocessing.get_context("fork")
    if broken_import is None and quals:
        order = sorted(quals, key=lambda q: -props.COST.get(q, 1))
        results = prove_all(ctx, [(q, pid, False) for q in order], 330)
    # a bounded search of the real code stands in for what no contract covers, and cross-checks the contracts
    seeds_file = None
    extra = []
    if os.path.exists(os.path.join(HERE, "replay", "inputs", pid + ".json")):
        extra += json.load(open(os.path.join(HERE, "replay", "inputs", pid + ".json")))
    if extra:
        seeds_file = os.path.join(scratch, "seeds.json")
        json.dump(extra, open(seeds_file, "w"))
    found, tot = (None, {"evaluations": 0, "distinct_nontrivial": 0})
    if broken_import is None:
        found, tot = search(pid, repo, seed, 25 if tier == "quick" else 240, scratch, seeds_file)
        again = [r["function"] for r in results if not ok(r) and not (r["error"] or "").startswith("unsupported")]
        if again and not found:
            # not discharged at the usual time limits, and no failing input: once more with longer ones
            second = {r["function"]: r for r in prove_all(ctx, [(q, pid, True) for q in again], 330)}
            results = [second.get(r["function"], r) for r in results]
        if not found and not all(ok(r) for r in results):
            found, more = search(pid, repo, seed + 1, 90 if tier == "quick" else 240, scratch, seeds_file)
            for k in ("evaluations", "distinct_nontrivial", "failed_processes"):
                tot[k] = tot.get(k, 0) + more.get(k, 0)
    bad = [r for r in results if not ok(r)]
    tverify = sum(r["seconds"] for r in results)
    known_hit = known(pid)
    for v, what in known_hit:
        print(f"KNOWN-FINDING: property={pid} {what}")
    if found and any(all(found.get(k) == v[k] for k in v) for v, what in known_hit):
        found = None
    n_obl = sum(max(1, len(r["obligations"])) if r["error"] else len(r["obligations"]) for r in results)
    n_ok = sum(sum(o["status"] == "proved" for o in r["obligations"]) for r in results)
    violation = None
    replay = os.path.join("replays", f"{pid}.json")
    failed = [{"function": r["function"], "error": r["error"],
               "obligations": [o for o in r["obligations"] if o["status"] != "proved"], "trace": r.get("trace")} for r in bad]
    if broken_import:
        failed.append({"function": "import markflow", "error": broken_import, "obligations": []})
    if found or failed:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        doc = {"property": pid, "input": found, "failed_obligations": failed,
               "replay": f"{PY} {HERE}/replay/run.py {repo} {HERE}/{replay}" if found else None,
               "note": None if found else "no failing input was found; the failed obligations and the verifier's output are above"}
        with open(os.path.join(HERE, replay), "w") as f:
            json.dump(doc, f, indent=1)
        violation = True
    elif tot.get("failed_processes"):
        print("search processes failed:", tot.get("stderr", ""), file=sys.stderr)
        return 2
    solver = {"queries": 0, "time": 0.0, "unsat": 0, "sat": 0, "unknown": 0}
    for r in results:
        for k in solver:
            solver[k] += r["solver"].get(k, 0)
    solver["time"] = round(solver["time"], 2)
    samples = tot.pop("samples", [])
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "proof"), "wall_s": round(time.time() - t0, 2),
          "coverage": {
              "obligations": n_obl, "discharged": n_ok,
              "checker_cmd": f"cd {HERE} && {PY} check.py {pid} --tier {tier}",
              "trusted_base": props.TRUSTED + spec.get("trusted", []),
              "functions_under_contract": [
                  {"function": r["function"], "obligations": len(r["obligations"]),
                   "discharged": sum(o["status"] == "proved" for o in r["obligations"]), "error": r["error"],
                   "seconds": r["seconds"], "retried": r["slow"], "callee_contracts": r.get("calls", []), "inlined": r.get("inlined", []),
                   "loops": r.get("loops", [])} for r in results],
              "backend": "cvc5 1.1.2", "solver": solver, "verification_s": round(tverify, 2),
              "bounded_stand_ins": [{"function": q, "why": w, "bound": "the search below"} for q, w in spec.get("bounded", [])],
              "evaluations": tot.get("evaluations", 0), "distinct_nontrivial": tot.get("distinct_nontrivial", 0),
              "rule": "random markdown documents and line lengths (replay/gen.py: grammar, corpus of the test files, mutations), judged on the real code by an oracle written from the statement; non-trivial: not only whitespace; bounded, never counted as proved",
              "search": tot, "samples": samples, "explanation": spec.get("explanation", ""),
              "known_findings": [w for v, w in known_hit]}}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {n_ok}/{n_obl} obligations of {len(results)} functions discharged in {tverify:.1f} s of work; "
          f"bounded cross-check: {tot.get('evaluations', 0)} evaluations; total {time.time() - t0:.1f} s")
    for f in failed:
        print("NOT DISCHARGED", f["function"], f["error"] or "", *[o["name"] for o in f["obligations"]][:6])
    if found:
        print("FAILING INPUT", json.dumps(found)[:2000])
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    if violation:
        print(f"VIOLATION property={pid} replay={replay} no-failing-input-found")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
