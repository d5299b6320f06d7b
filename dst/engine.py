"""Orchestrator: resolves fault sites, executes the run in forked children of a
pristine process and checks the recorded history against the pristine-process
oracle (the same real code on a fresh object in a fresh process)."""
import copy
import json
from collections import Counter, OrderedDict

from . import compare, forkrun, models, runtime, simfs


class HarnessError(Exception):
    pass


SAVE_ARGS = ("lgcsave", "savepath", "figsavepath", "savename", "saveplot", "lgcsaveplots")
_cache = OrderedDict()
ORACLE_FORKS = [0]
TIMEOUT = [90.0]


def _strip(op, dep=False):
    o = {k: v for k, v in op.items() if k not in ("fault", "tag", "expect", "healthy", "scribble") and (dep or k != "keep")}
    return _inline(o)


def _inline(v):
    """Caller-buffer arguments and otherwise stored ones become plain values for the oracle."""
    if isinstance(v, dict):
        if v.get("$") == "inbuf":
            return _inline(v["val"])
        if v.get("$") == "stored":
            return _inline(v["of"])
        return {k: _inline(x) for k, x in v.items()}
    if isinstance(v, list):
        return [_inline(x) for x in v]
    return v


def expected(ctor, mut, op, deps=(), opts=None):
    """Outcome of `op` on a fresh object brought to the canonical state `mut`."""
    ops = [_strip(o, True) for o in deps]
    if ctor is not None:
        ops.append(_strip(ctor))
    ops += [_strip(o, True) for o in mut] + [_strip(op)]
    key = json.dumps([ops, opts], sort_keys=True)
    if key in _cache:
        _cache.move_to_end(key)
        return _cache[key]
    ORACLE_FORKS[0] += 1
    res = forkrun.call(runtime.run_segment, ops, None, opts, False, True, timeout=TIMEOUT[0])
    for o in res["outs"][:-1]:
        if o["s"] != "ok":
            # canonical path itself fails: remember, callers treat as that outcome
            out = {"s": "canon-exc", "t": o.get("t"), "alloc": (0, 0), "lines": (0, 0)}
            break
    else:
        out = res["outs"][-1]
    _cache[key] = out
    while len(_cache) > 4000:
        _cache.popitem(last=False)
    return out


def outcome_diff(got, exp, rtol):
    if exp["s"] == "canon-exc":
        return None if got["s"] == "exc" else f"completed, although the fresh object fails with {exp['t']}"
    if got["s"] != exp["s"]:
        if got["s"] == "exc":
            return f"raised {got['t']}({got.get('msg', '')[:80]}) instead of returning a result"
        if exp["s"] == "exc":
            return f"returned a result instead of raising {exp['t']}"
        return f"status {got['s']} instead of {exp['s']}"
    if got["s"] == "exc":
        return None if got["t"] == exp["t"] else f"raised {got['t']} instead of {exp['t']}"
    if "v" in got or "v" in exp:
        d = compare.diff(got.get("v"), exp.get("v"), rtol)
        if d:
            return d
    if "rngdigest" in got and got["rngdigest"] != exp.get("rngdigest"):
        return "the random generator is left in a different state"
    if "out" in got and "out" in exp and got["out"] != exp["out"]:
        return f"printed {got['out'][:60]!r} instead of {exp['out'][:60]!r}"
    return None


def fired(out):
    return (out.get("alloc") or (0, 0))[1] + (out.get("lines") or (0, 0))[1] + (out.get("fs") or (0, 0))[1]


def files_diff(got, exp):
    """Difference between the sets of figure files written."""
    for r in sorted(set(got) | set(exp)):
        if r not in got:
            return f"the file {r} was not written"
        if r not in exp:
            return f"the file {r} was written, which was not asked for"
        g, e = got[r], exp[r]
        if isinstance(g, str):
            if isinstance(e, str):
                continue
            return f"{r} is {g}"
        if isinstance(e, str):
            continue
        if any(abs(a - b) > 3 for a, b in zip(g["size"], e["size"])):
            return f"{r} has size {g['size']} instead of {e['size']}"
        if g["size"] == e["size"] and int(abs(g["thumb"].astype(int) - e["thumb"].astype(int)).max()) > 10:
            return f"{r} shows another figure"
    return None


class Tracker:
    """Belief state of every object: list of logical states the object may be in (one
    unless a fault left a choice); a state of None = unspecified (until an operation
    that fully determines it)."""

    def __init__(self, spec):
        self.o = {}
        self.kept = {}
        self.rtol = spec.get("rtol", 1e-7)
        self.opts = spec.get("oracle_opts")
        self.spec = spec

    # -- reference executions ----------------------------------------------
    def nominal(self, op):
        """Advance assuming success, used to choose fault sites."""
        m = op["m"]
        o = op.get("o")
        if op.get("keep"):
            self.kept[op["keep"]] = op
        if m == "@new":
            self.o[o] = [op, [models.of(op).init()]]
        elif m == "@del":
            self.o.pop(o, None)
        elif m == "@copy":
            if op["src"] in self.o:
                c, b = self.o[op["src"]]
                self.o[o] = [dict(c, o=o), copy.deepcopy(b)]
        elif o in self.o and not m.startswith("@"):
            mod = models.of(self.o[o][0])
            self.o[o][1] = [mod.advance(x, op) for x in self.o[o][1]]

    def _exp1(self, ctor, b, op):
        """Reference outcomes for one belief state: list, or None if unspecified."""
        if b is None:
            b2 = models.of(ctor).canon_unknown(op)
            if b2 is None:
                return None
            c = b2
        else:
            c = models.of(ctor).canon(b, op)
        if c is None:
            return None
        alts = c["alts"] if isinstance(c, dict) else [c]
        if any(a is None for a in alts):
            return None
        deps = [self._deps([op] + a) for a in alts]
        if any(d is None for d in deps):
            return None
        ctor = dict(ctor, o=op["o"])
        alts = [[dict(x, o=op["o"]) if "o" in x else x for x in a] for a in alts]
        return [expected(ctor, a, op, d, self.opts) for a, d in zip(alts, deps)]

    def exp(self, op):
        o = op.get("o")
        if op["m"] in ("@new", "@fn"):
            deps = self._deps([op])
            return None if deps is None else [expected(None, [], op, deps, self.opts)]
        if o not in self.o or op["m"].startswith("@") and op["m"] != "@obs":
            return None
        ctor, bel = self.o[o]
        return self._exp1(ctor, bel[0], op)

    def _deps(self, ops):
        """Operations producing the objects/values the arguments refer to; None if
        the state of one of these objects is not determined."""
        deps, seen, open_ = [], set(), []

        def add_obj(n):
            if n in self.o and ("o", n) not in seen:
                seen.add(("o", n))
                ctor, bel = self.o[n]
                mut = models.of(ctor).canon(bel[0], {"m": "@dep", "o": n}) if bel[0] is not None and len(bel) == 1 else None
                if mut is None or isinstance(mut, dict):
                    open_.append(n)
                    return
                for x in [ctor] + mut:
                    walk(x.get("a", {}))
                    walk(x.get("pa", []))
                deps.append(dict(ctor, o=n))
                deps.extend(dict(x, o=n) if "o" in x else x for x in mut)

        def walk(v):
            if isinstance(v, dict):
                if v.get("$") == "obj":
                    add_obj(v["o"])
                elif v.get("$") == "objs":
                    for n in v["v"]:
                        add_obj(n)
                elif v.get("$") == "keep":
                    k = v["k"]
                    if ("k", k) not in seen and k in self.kept:
                        seen.add(("k", k))
                        p = self.kept[k]
                        walk(p.get("a", {}))
                        walk(p.get("pa", []))
                        deps.append(p)
                else:
                    for x in v.values():
                        walk(x)
            elif isinstance(v, list):
                for x in v:
                    walk(x)
        for op in ops:
            walk(op.get("a", {}))
            walk(op.get("pa", []))
        return None if open_ else deps

    # -- checking ------------------------------------------------------------
    def check(self, i, op, out):
        """Compare one recorded outcome; returns violation dict or None."""
        m, o = op["m"], op.get("o")
        if m in ("@scribble", "@gc", "@restart"):
            return None
        if out.get("held"):
            return self._v("result-changed", i, op, out["held"], fired(out))
        if m == "@del":
            self.o.pop(o, None)
            return None
        f = fired(out)
        if op.get("fs") and out["s"] != "skip":
            v = self._files(i, op, out, f)
            if v or f and out["s"] == "ok" and out.get("reported"):
                return v
        fk = (op.get("fault") or {}).get("kind")
        if out["s"] == "budget":
            return self._v("no-progress", i, op, "the operation did not complete within its step budget", f)
        if out["s"] == "skip":
            return None
        if f and fk == "interrupt" and self.spec.get("strict"):
            # Ctrl-C reaches the caller, as what it is
            if out["s"] == "ok":
                return self._v("error-swallowed", i, op, "completed although the user interrupted it: the interrupt was swallowed", f)
            # (iminuit wraps exceptions of the function it minimises)
            if out["s"] == "exc" and out["t"] != "KeyboardInterrupt" and "exception was raised in user function" not in out.get("msg", ""):
                return self._v("error-swallowed", i, op, f"raised {out['t']}({out.get('msg', '')[:80]}) instead of the user's interrupt", f)
        if m == "@pickle":
            if out["s"] != "ok":
                return self._v("not-restorable", i, op, f"copying the object raised {out['t']}: {out.get('msg')}")
            return None
        if m == "@copy":
            if out["s"] != "ok":
                return self._v("not-restorable", i, op, f"copying the object raised {out['t']}: {out.get('msg')}")
            self.nominal(op)
            return None
        if m == "@new":
            if f and out["s"] == "exc":
                self.o.pop(o, None)
                return None
            exps = self.exp(op)
            d = outcome_diff(out, exps[0], self.rtol) if exps else None
            if d:
                return self._v("wrong-construction", i, op, d, f)
            if out["s"] == "ok":
                self.nominal(op)
            else:
                self.o.pop(o, None)
            return None
        if m == "@fn":
            if f and out["s"] == "exc":
                return None
            exps = self.exp(op)
            d = outcome_diff(out, exps[0], op.get("rtol", self.rtol)) if exps else None
            if out["s"] == "ok":
                self.nominal(op)
            return self._v("wrong-result", i, op, d, f) if d else None
        if o not in self.o:
            return None
        ctor, bel = self.o[o]
        mod = models.of(ctor)
        if f and out["s"] == "exc":
            if op.get("keep"):
                self.kept.pop(op["keep"], None)
            self.o[o][1] = _uniq(mod.after_fault(bel, op, fk))
            return None
        d = mod.absolute(op, bel, out) if not f else None
        if d:
            return self._v("wrong-result", i, op, d, f)
        keep, first = [], None
        rtol = mod.rtol(op, self.rtol)
        for b in bel:
            exps = self._exp1(ctor, b, op)
            if exps is None:
                keep.append(b)
                continue
            ds = [outcome_diff(out, e, rtol) for e in exps]
            if any(d is None for d in ds):
                keep.append(b)
            elif first is None:
                first = ds[0]
        if not keep:
            amb = "" if len(bel) == 1 else f" (nor any other admissible state; {len(bel)} considered)"
            return self._v("wrong-result", i, op, first + amb, f)
        if m == "@obs":
            self.o[o][1] = keep
        elif out["s"] == "ok":
            if op.get("keep"):
                self.kept[op["keep"]] = op
            self.o[o][1] = _uniq([mod.advance(b, op) for b in keep])
        else:
            self.o[o][1] = _uniq([mod.after_reject(b, op) for b in keep])
        return None

    def _files(self, i, op, out, f):
        """Figure files of a plot asked to save itself."""
        if out.get("foreign"):
            return self._v("file-damaged", i, op, f"the file {out['foreign']}, which is not the figure's, was changed or removed", f)
        if not f and op.get("healthy"):
            # nothing failed: saving must go through whenever plain plotting does
            plain = {k: v for k, v in op.items() if k not in ("fs", "fsdir", "expect", "healthy")}
            plain["a"] = {k: v for k, v in op["a"].items() if k not in SAVE_ARGS}
            px = self.exp(plain)
            if px and all(e["s"] == "ok" for e in px):
                if out["s"] != "ok":
                    return self._v("save-failed", i, op, f"raised {out['t']}({out.get('msg', '')[:80]}) when asked to save, although nothing failed", f)
                if all(e.get("out") != out.get("out") for e in px):
                    return self._v("save-failed", i, op, f"printed {out['out'][:80]!r} when asked to save, although nothing failed", f)
        if out["s"] != "ok":
            return None
        exps = self.exp(op)
        exps = exps if exps and all(e["s"] == "ok" for e in exps) else None
        if f and exps and all(e["said"] != out["said"] for e in exps):
            out["reported"] = True
            return None
        if not out["out"].strip() and op.get("expect") is not None:
            # the documented file set, whatever the reference does
            for r in op["expect"]:
                if r not in out["files"]:
                    return self._v("figure-missing", i, op, f"returned without an error but {r} was not written", f)
                if isinstance(out["files"][r], str):
                    return self._v("figure-incomplete", i, op, f"returned without an error but {r} is {out['files'][r]}", f)
            for r in out["files"]:
                if r not in op["expect"]:
                    return self._v("file-unexpected", i, op, f"the file {r} was written, which was not asked for", f)
        if exps:
            ds = [files_diff(out["files"], e["files"]) for e in exps]
            if all(ds):
                return self._v("figure-wrong", i, op, ds[0], f)
        return None

    def _v(self, cls, i, op, detail, f=0):
        what = op.get("f") or (op["cls"] if op["m"] == "@new" else op["m"])
        return {"class": cls, "op": i, "what": what, "detail": detail, "during_fault": bool(f)}


def _uniq(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


def _site(fa, exp):
    """Position of a fault inside the operation, from the event counts of its
    reference execution: anywhere, near the end, or at a distinct source line."""
    alloc = fa["kind"] == "alloc"
    n = (exp.get("alloc") or (0, 0))[0] if alloc else (exp.get("lines") or (0, 0))[0]
    if not n:
        return 0
    mode, u = fa.get("mode", "any"), fa["u"]
    if mode != "any":
        # sites are positions among all requests
        fa.pop("min", None)
    sites = exp.get("sites") or []
    if mode == "line" and sites:
        if alloc:
            # around the boundaries between lines (most lines allocate nothing)
            sites = sorted({a for e in sites for a in e[2:4]})
        x = u * len(sites)
        e = sites[int(x)]
        frac = x - int(x)
        at = e + int(frac * 2) if alloc else e[0] if frac < 0.5 else e[1]
    elif mode == "tail":
        at = n - int((n / 4 + 10) ** u) + 1
    else:
        at = 1 + int(u * n)
        if alloc and fa.get("min"):
            at = 1 + int(u * n * 0.5)
    return max(1, min(n, at))


def _resolve_faults(ops, tr):
    """Fill in fault['at'] from the event counts of the pristine execution."""
    res = []
    for op in ops:
        op = copy.deepcopy(op)
        fa = op.get("fault")
        if fa and "at" not in fa and fa["kind"] in ("alloc", "interrupt"):
            exps = tr.exp(op)
            fa["at"] = _site(fa, exps[0]) if exps else 0
        elif fa and fa["kind"] == "disk":
            exps = tr.exp(op)
            fa.update(simfs.choose(fa, exps[0].get("fstypes", [])) if exps else {"at": 0})
        tr.nominal(op)
        res.append(op)
    return res


def run(spec):
    """Execute one simulated run -> result dict."""
    try:
        return _run_threads(spec) if spec.get("threads") else _run_seq(spec)
    except forkrun.ChildFailure as e:
        if e.kind == "timeout":
            v = _hang(spec)
            if v:
                return {"violation": v, "stats": {}, "digest": "hang"}
        return {"harness": e.kind, "detail": e.detail, "violation": None,
                "stats": {}, "digest": "harness"}


def _hang(spec):
    """The run hung: a violation if every call of it completes on its own."""
    tr = Tracker(spec)
    old, TIMEOUT[0] = TIMEOUT[0], 20.0
    try:
        for op in list(spec.get("pre", [])) + list(spec.get("ops", [])) + [o for t in spec.get("threads", []) for o in t]:
            tr.exp(op)
            tr.nominal(op)
    except forkrun.ChildFailure:
        return None
    finally:
        TIMEOUT[0] = old
    return {"class": "no-progress", "op": -1, "what": "run",
            "detail": "the run does not terminate, although every call terminates alone", "during_fault": False}


def _stats(ops, outs, st):
    for op, out in zip(ops, outs):
        st["ops"] += 1
        st["op:" + (op.get("f") or (op["cls"] if op["m"] == "@new" else op["m"]))] += 1
        fa = op.get("fault")
        if out.get("files"):
            st["saved figures"] += len(out["files"])
        if fa and fa.get("at"):
            kind = fa["kind"] if fa["kind"] != "disk" else {"error": "I/O error", "full": "disk full", "short": "short write", "shorterr": "short write, then disk full"}[
                fa["how"]] + (" @ " + fa.get("type", "?") if fa["how"] == "error" else "")
            st["armed:" + kind] += 1
            if fired(out):
                st["fired:" + kind] += 1
                st["outcome:" + ("survived" if out["s"] == "ok" else "failed")] += 1
        if out["s"] == "exc" and not fired(out):
            st["rejected"] += 1


def _run_seq(spec):
    ops = _resolve_faults(spec["ops"], Tracker(spec))
    opts = spec.get("opts") or {}
    segs, cur = [], []
    for op in ops:
        if op["m"] == "@restart":
            segs.append(cur)
            cur = []
        else:
            cur.append(op)
    segs.append(cur)
    outs, blob, viol = [], None, None
    st = Counter()
    for k, seg in enumerate(segs):
        last = k == len(segs) - 1
        res = forkrun.call(runtime.run_segment, seg, blob, opts, not last, False, timeout=TIMEOUT[0])
        outs += res["outs"]
        st["events"] += res["events"]
        if not last:
            outs.append({"s": "ok", "v": None})
            st["restarts"] += 1
            if res["blob"] is None:
                viol = {"class": "not-restorable", "op": len(outs) - 1, "what": "@restart",
                        "detail": "saving the objects failed: " + res["pickle_error"], "during_fault": False}
                break
            blob = res["blob"]
    _stats([o for o in ops], outs, st)
    tr = Tracker(spec)
    extra = spec.get("extra")
    for i, (op, out) in enumerate(zip(ops, outs)):
        if opts.get("watch"):
            w = out.get("probed") or out.get("mutated")
            if w:
                v = {"class": "input-modified", "op": i, "what": w,
                     "detail": f"{w} was modified" + (" while the call was running" if out.get("probed") and not out.get("mutated") else ""),
                     "during_fault": bool(fired(out))}
                viol = viol or v
                break
        if out.get("gchanged"):
            viol = viol or {"class": "global-state", "op": i, "what": op.get("f") or op.get("cls") or op["m"],
                            "detail": "changed " + ", ".join(out["gchanged"]), "during_fault": bool(fired(out))}
            break
        if spec.get("novalues") or op["m"] == "@restart":
            continue
        v = tr.check(i, op, out)
        if v:
            if viol is None or v["op"] < viol["op"]:
                viol = v
            break
    return {"violation": viol, "stats": dict(st), "outs": outs if spec.get("want_outs") else None,
            "ops": ops, "digest": compare.digest([[o.get("s"), o.get("t"), o.get("v"), o.get("alloc"), o.get("lines"), o.get("mutated"), o.get("gchanged")] for o in outs])}


def _run_threads(spec):
    tr = Tracker(spec)
    pre = _resolve_faults(spec.get("pre", []), tr)
    ths = [_resolve_faults(t, tr) for t in spec["threads"]]
    opts = spec.get("opts") or {}
    res = forkrun.call(runtime.run_threads, pre, ths, spec["sched"], opts, timeout=TIMEOUT[0])
    st = Counter()
    _stats(pre, res["pre"], st)
    for t, o in zip(ths, res["outs"]):
        _stats(t, o, st)
    st["events"] += res["steps"]
    st["preemptions"] += res["npre"]
    st["threads"] += len(ths)
    tr = Tracker(spec)
    viol = None
    if not spec.get("novalues"):
        for i, (op, out) in enumerate(zip(pre, res["pre"])):
            viol = viol or tr.check(i, op, out)
        # shared objects: every thread starts from the same belief
        base = copy.deepcopy(tr.o)
        for t, (ops, outs) in enumerate(zip(ths, res["outs"])):
            tr.o = copy.deepcopy(base)
            for i, (op, out) in enumerate(zip(ops, outs)):
                if viol is None:
                    viol = tr.check(i, op, out)
                    if viol:
                        viol["thread"] = t
    if opts.get("watch") and viol is None and (res["mutated"] or res["probed"]):
        w = res["mutated"] or res["probed"][0]
        viol = {"class": "input-modified", "op": -1, "what": w, "detail": f"{w} was modified", "during_fault": False}
    if viol is None and res["held"]:
        viol = {"class": "result-changed", "op": -1, "what": "run", "detail": res["held"], "during_fault": False}
    return {"violation": viol, "stats": dict(st), "switches": res["switches"],
            "sig": compare.digest(res["switches"]),
            "ops": None,
            "digest": compare.digest([[[o.get("s"), o.get("t"), o.get("v"), o.get("lines")] for o in t] for t in res["outs"]] + [res["switches"]])}
