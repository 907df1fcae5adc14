#!/usr/bin/env python3
"""Replays a recorded counterexample against the real code and the real libraries.

usage: replay.py <evidence/replay/FILE.json>   exit 1: the failure was reproduced, 0: it was not
"""
import sys, os, json, shutil
from concurrent.futures import ThreadPoolExecutor
import check, specs


def main():
    r = json.load(open(sys.argv[1]))
    work = os.path.join(check.BUILD, "replay-%d" % os.getpid())
    os.makedirs(work)
    try:
        with ThreadPoolExecutor(check.NCPU) as pool:
            b = check.Builder(specs.SPECS[r["property"]], pool)
            nat = os.path.join(work, "native")
            b.link_native([j.result() for j in b.submit("native")], nat)
        n = check.native_run(nat, r["entry"], r["params"], [r["inputs"]])[0]
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print("property %s entry %s params %s inputs %s" % (r["property"], r["entry"], r["params"], r["inputs"]))
    print("expected: %s: %s at %s" % (r["kind"], r["message"], r["location"]))
    print("real code: %s: %s" % (n["status"], n["msg"]))
    for k, v in n["obs"]:
        print("  %s = %d" % (k, v))
    return 1 if n["status"] in ("assert", "crash") else 0


if __name__ == "__main__":
    sys.exit(main())
