"""Executable lines of /repo/qetpy that no run reached: DST_COV=DIR run.sh check ...; uncovered.py DIR"""
import dis, os, sys
seen = set(l.strip() for l in open(os.path.join(sys.argv[1], "cov.txt")))
R = "/repo/qetpy/"
tot = hit = 0
for d, _, fs in os.walk(R):
    for f in sorted(fs):
        if not f.endswith(".py"):
            continue
        p = os.path.join(d, f)
        src = open(p).read()
        lines = set()

        def walk(co, top):
            if not top:
                lines.update(l for _, _, l in co.co_lines() if l and l != co.co_firstlineno)
            for c in co.co_consts:
                if hasattr(c, "co_code"):
                    walk(c, top and c.co_name in () )
        walk(compile(src, p, "exec"), True)
        rel = p[len(R):]
        miss = sorted(l for l in lines if f"{rel}:{l}" not in seen)
        tot += len(lines); hit += len(lines) - len(miss)
        s = src.split("\n")
        if miss:
            print("==", rel, len(lines) - len(miss), "/", len(lines))
            for l in miss:
                t = s[l - 1].strip()
                if t and not t.startswith(('"""', "def ", "class ")):
                    print("  ", l, t[:110])
print(hit, "of", tot, "lines reached")
