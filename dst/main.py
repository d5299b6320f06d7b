import json
import os
import sys

from . import boot


def main(argv):
    cmd = argv[0]
    if cmd == "check":
        from . import driver
        tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        base = int(os.environ.get("VERIF_SEED", "1"))
        return driver.check(argv[1], tier, base)
    if cmd == "replay":
        from . import driver
        boot.env()
        d = json.load(open(argv[1]))
        r = driver.replay(d["property"], d["spec"])
        v = r and r["violation"]
        print(json.dumps(r, indent=1))
        same = driver.same(v, d["violation"]) and r["digest"] == d["digest"]
        print("reproduced exactly" if same else ("same class, other digest" if driver.same(v, d["violation"]) else "NOT reproduced"))
        if v:
            print(f"VIOLATION property={d['property']} replay={argv[1]}")
            return 1
        return 0
    if cmd == "build":
        from . import simalloc
        boot.env()
        print(simalloc._build(), simalloc._build("simfs"), simalloc._build("simenv"))
        return 0
    if cmd == "selftest":
        from . import selftest
        return selftest.main(argv[1:])
    raise SystemExit("usage: check ID [tier] | replay FILE | build | selftest")


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
