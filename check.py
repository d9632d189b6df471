#!/usr/bin/env python3
"""check.py ID            decide one property (VERIF_TIER, VERIF_SEED)
check.py all [ID...]   decide all (or some) of them
check.py --replay FILE run a recorded violation again"""
import importlib, json, os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "gen"))
import core, flow
from registry import PROPS


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "--replay":
        v = json.load(open(a[1]))
        part = [p for p in PROPS[v["property"]]()["parts"](v["tier"]) if p.name == v["part"]][0]
        try:
            b = core.build_harness(v["property"] in flow.RACE, part.cgo)
        except core.CheckError as e:
            if part.cgo is True:
                raise
            print("%s\nVIOLATION property=%s replay=%s" % (e, v["property"], a[1]))
            return 1
        if v["scenario"] is None:
            print("accepted: it builds")
            return 0
        tr = core.run_harness(b, [v["scenario"]])
        if part.post:
            tr = [part.post(t) for t in tr]
        r = core.validate(v["trace_module"], tr, cfg=v["cfg"], shards=1)
        if r["ok"]:
            print("accepted: the violation does not occur")
            return 0
        j = r["rejected"][0]
        for e in tr[0][:j["line"] + 1]:
            print(json.dumps(e))
        print("\n".join(j["why"] or [j["tlc"]]))
        print("VIOLATION property=%s replay=%s" % (v["property"], a[1]))
        return 1
    if a[0] == "setup":
        core.build_harness()
        core.build_harness(True)
        try:
            core.build_harness(cgo=False)
        except core.CheckError as e:
            print(e)    # C25 reports it
        print("setup: the harness builds against", core.REPO)
        return 0
    if a[0] == "all":
        ids = a[1:] or sorted(PROPS)
        bad = []
        for i in ids:
            r = subprocess.run([sys.executable, os.path.abspath(__file__), i])
            if r.returncode:
                bad.append((i, r.returncode))
        print("all:", "ok" if not bad else bad)
        return 1 if bad else 0
    if a[0] not in PROPS:
        print("unknown property", a[0])
        return 2
    return flow.run_check(a[0], PROPS[a[0]]())


if __name__ == "__main__":
    sys.exit(main())
