"""Search for a concrete input on which a property fails on the real code.

usage: fuzz.py REPO PROPERTY SEED SECONDS OUT.json [--all]
Runs under /opt/venv/bin/python; shrinks what it finds; writes {"found": ..., "evaluations": n, ...}
"""
import json
import logging
import os
import sys
import time

repo, pid, seed, secs, out = sys.argv[1:6]
sys.path.insert(0, repo)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
logging.getLogger("markflow").setLevel(logging.CRITICAL)
logging.raiseExceptions = False
import markflow  # noqa
assert os.path.realpath(markflow.__file__).startswith(os.path.realpath(repo)), markflow.__file__
import oracle  # noqa
import gen  # noqa
import signal  # noqa
import glob


class TimeUp(BaseException):
    pass


def onalarm(*a):
    raise TimeUp()


def judge(check, text, width):
    if check is not oracle.CHECKS.get("C20"):
        signal.signal(signal.SIGALRM, onalarm)
        signal.setitimer(signal.ITIMER_REAL, 3.0)
    try:
        return check(text, width)
    except oracle.Skip:
        return None
    except TimeUp:
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def shrink(check, text, width, until):
    best = text
    changed = True
    while changed and time.time() < until:
        changed = False
        for unit in ("line", "half", "char"):
            if unit == "line":
                parts = best.splitlines(keepends=True)
                cands = ["".join(parts[:i] + parts[i + 1:]) for i in range(len(parts))]
            elif unit == "half":
                n = max(2, len(best) // 8)
                cands = [best[:i] + best[i + n:] for i in range(0, len(best), n)]
            else:
                cands = [best[:i] + best[i + 1:] for i in range(len(best))]
            for c in cands:
                if time.time() > until:
                    break
                if c != best and judge(check, c, width):
                    best = c
                    changed = True
                    break
            if changed:
                break
    return best


def main():
    check = oracle.CHECKS[pid]
    g = gen.Gen(int(seed))
    g.corpus = [open(p, newline="").read() for p in sorted(glob.glob(os.path.join(repo, "tests/files/*.md")))]
    t0 = time.time()
    end = t0 + float(secs)
    n = 0
    distinct = set()
    found = sample = None
    extra = json.load(open(os.environ["VERIF_SEED_INPUTS"])) if os.environ.get("VERIF_SEED_INPUTS") else []
    queue = [(e["text"], e["width"]) for e in extra]
    if int(seed) % 8 == 0:
        queue += [(c, w) for c in g.corpus if len(c) < 4000 for w in (88, 20)]
    while time.time() < end:
        if queue:
            text, width = queue.pop()
        else:
            text, width = g.text(), g.width()
        n += 1
        if n == 3:
            sample = {"text": text[:300], "width": width}
        if text.strip():
            distinct.add(hash((text, width)))
        m = judge(check, text, width)
        if m:
            text = shrink(check, text, width, time.time() + 15)
            found = {"text": text, "width": width, "message": judge(check, text, width)}
            break
    json.dump({"property": pid, "seed": int(seed), "evaluations": n, "distinct_nontrivial": len(distinct),
               "wall_s": time.time() - t0, "found": found, "sample": sample}, open(out, "w"))


main()
