"""Re-run the oracle of a recorded violation on the real code: run.py REPO REPLAY.json"""
import json
import os
import sys

repo, path = sys.argv[1:3]
d = json.load(open(path))
sys.path[:0] = [repo, os.path.dirname(os.path.abspath(__file__))]
sys.dont_write_bytecode = True
if not d["input"]:
    print("no failing input recorded; failed obligations:")
    for f in d["failed_obligations"]:
        print(" ", f["function"], f["error"] or "", *[o["name"] for o in f["obligations"]])
    sys.exit(1)
if d["property"] in ("C16", "C17", "C19"):
    import cli
    m = cli.replay(d["property"], d["input"])
else:
    import oracle
    m = oracle.CHECKS[d["property"]](d["input"]["text"], d["input"]["width"])
print(m or "holds")
sys.exit(1 if m else 0)
