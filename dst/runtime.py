"""Child-side execution: builds arguments, calls the real qetpy code, snapshots
outcomes, applies the faults the orchestrator resolved."""
import gc
import io
import os
import pickle
import random
import sys
import warnings

import numpy as np

from . import compare, data, mon, simalloc, simfs, simrng

EXC_INJECTED = (MemoryError, KeyboardInterrupt)


def resolve(path):
    import qetpy
    o = qetpy
    for p in path.split("."):
        o = getattr(o, p)
    return o


def figures():
    """Curves, labels and texts of all open figures; closes them."""
    import matplotlib.pyplot as plt
    out = []
    for num in plt.get_fignums():
        fig = plt.figure(num)
        axs = []
        for ax in fig.axes:
            leg = ax.get_legend()
            axs.append({
                "lines": [[l.get_label(), np.asarray(l.get_xdata(orig=False), float),
                           np.asarray(l.get_ydata(orig=False), float)] for l in ax.lines],
                "collections": [[np.asarray(p, float) for p in c.get_segments()] if hasattr(c, "get_segments")
                                else np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan) for c in ax.collections],
                "title": ax.get_title(), "xlabel": ax.get_xlabel(), "ylabel": ax.get_ylabel(),
                "xscale": ax.get_xscale(), "yscale": ax.get_yscale(), "xlim": list(ax.get_xlim()),
                "ylim": list(ax.get_ylim()),
                "legend": [t.get_text() for t in leg.get_texts()] if leg else None,
                "texts": [t.get_text() for t in ax.texts]})
        out.append({"axes": axs, "suptitle": fig._suptitle.get_text() if fig._suptitle else None})
    plt.close("all")
    return out


FOREIGN = ["notes.txt", "other_run.png", "iv_curve_other.png", "n.pkl"]


def image(b):
    """Size and thumbnail of a complete image file, or what is wrong with it."""
    from PIL import Image
    if not b.endswith(b"IEND\xaeB`\x82"):
        return f"an incomplete image ({len(b)} bytes)"
    try:
        im = Image.open(io.BytesIO(b))
        im.load()
    except Exception as e:
        return f"not a readable image ({type(e).__name__})"
    return {"size": list(im.size), "thumb": np.asarray(im.convert("L").resize((96, 64), Image.BOX), np.uint8)}


class Session:
    def __init__(self, watch=False, gstate=False, hold=False):
        simalloc.load()
        self.held = [] if hold else None
        self.heldbytes = 0
        self.ins = []
        self.keepins = {}
        self.count = 0
        self.objs = {}
        self.bufs = {}
        self.keep = {}
        self.watch = [] if watch else None
        self.gstate = gstate
        self.hook = {}
        self.live = []
        self.fsroot = self.fscur = None

    # -- figure directories --------------------------------------------------
    def fsdir(self, r):
        """Scratch directory with files of somebody else in it -> save path argument."""
        if self.fsroot is None:
            import tempfile
            self.fsroot = tempfile.mkdtemp(prefix="dstfig-")
        d = os.path.join(self.fsroot, r["d"])
        if not os.path.isdir(d):
            os.makedirs(d)
            for n in FOREIGN:
                with open(os.path.join(d, n), "wb") as fh:
                    fh.write(n.encode() * 50)
        os.chdir(d)
        self.fscur = d
        return {"abs": d + "/", "cwd": "", "dot": "./", "none": d + "/none/", "prefix": d + "/run 2_", "dotted": d + "/run 2.5_"}[r["form"]]

    def outdir(self, r):
        """Scratch directory as a save path; some of its names may be taken by directories."""
        if self.fsroot is None:
            import tempfile
            self.fsroot = tempfile.mkdtemp(prefix="dstfig-")
        d = os.path.join(self.fsroot, r["d"])
        os.makedirs(d, exist_ok=True)
        for n in r.get("taken", []):
            os.makedirs(os.path.join(d, n), exist_ok=True)
        return d + "/" + r.get("pre", "")

    def _fswrap(self, op, f, count):
        import io as _io
        d = self.fscur
        if d is None or op.get("o", None) is not None and op["o"] not in self.objs:   # the object never came to exist
            return {"s": "skip", "v": None}
        simfs.lib()
        fa = op.get("fault") or {}
        before = simfs.tree(d)
        pos = simfs.mark_pos()
        err, old = _io.StringIO(), sys.stderr
        sys.stderr = err
        try:
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                simfs.root(d)
                simfs.arm(fa if fa.get("kind") == "disk" else None)
                out = self._wrap(dict(op, fault=None), f, count)
        finally:
            n, fired = simfs.disarm()
            simfs.root(None)
            sys.stderr = old
        lg = simfs.log(pos)
        simfs.rewind(pos)
        out["fs"] = (n, fired)
        out["fstypes"] = [e["t"] for e in lg]
        out["out"] = out.get("out", "")[-500:]
        out["said"] = out["out"] + err.getvalue()[-500:] + " ".join(sorted(str(w.message)[:80] for w in ws))
        for k in ("msg", "out", "said"):
            if k in out:
                out[k] = out[k].replace(self.fsroot, "<dir>")
        after = simfs.tree(d)
        touched = {e["p"] for e in lg if e["t"] in (simfs.OPEN, simfs.LINK)} | {e["q"] for e in lg if e["t"] in (simfs.RENAME, simfs.LINK)}
        touched |= {r for r in after if r not in before or before[r] != after[r]}
        for n in FOREIGN:
            if n not in after or n in before and after[n][1] != before[n][1]:
                out["foreign"] = n
        out["files"] = {r: image(after[r][1]) for r in sorted(touched) if r in after}
        return out

    # -- arguments ---------------------------------------------------------
    def arg(self, r):
        if isinstance(r, dict) and "$" in r:
            if r["$"] == "inbuf":
                v = data.build(r["val"])
                b = self.bufs.get(r["k"])
                if b is None or b.shape != v.shape or b.dtype != v.dtype:
                    b = self.bufs[r["k"]] = np.array(v, copy=True)
                else:
                    self._unwatch(b)
                    b[...] = v
                return b
            if r["$"] == "obj":
                return self.objs[r["o"]]
            if r["$"] == "objs":
                return [self.objs[o] for o in r["v"]]
            if r["$"] == "fsdir":
                return self.fsdir(r)
            if r["$"] == "attr":           # what an object holds now
                return np.array(getattr(self.objs[r["o"]], r["k"]))
            if r["$"] == "sum":
                return sum(self.arg(x) for x in r["v"])
            if r["$"] == "neg":
                return -self.arg(r["v"])
            if r["$"] == "outdir":
                return self.outdir(r)
            if r["$"] == "chosen":
                return np.array(self.arg(r["of"]))[np.asarray(self.arg(r["by"]))]
            if r["$"] == "reshaped":
                v = self.arg(r["of"])      # not there when the analysis before failed
                return np.reshape(v, r["shape"]) if np.size(v) == np.prod(r["shape"]) else None
            if r["$"] == "keep":           # value returned by an earlier op
                v = self.keep[r["k"]]
                for i in r.get("ix", []):
                    v = v[i]
                return v.T if r.get("T") else v
        if isinstance(r, dict) and "$" not in r:
            return {k: self.arg(v) for k, v in r.items()}
        if isinstance(r, list):
            return [self.arg(x) for x in r]
        return data.build(r)

    def _missing(self, r):
        """Does the recipe refer to an object or value that never came to exist?"""
        if isinstance(r, dict):
            if r.get("$") in ("obj", "attr"):
                return r["o"] not in self.objs or r["$"] == "attr" and not hasattr(self.objs[r["o"]], r["k"])
            if r.get("$") == "objs":
                return any(o not in self.objs for o in r["v"])
            if r.get("$") == "keep":
                if r["k"] not in self.keep:
                    return True
                v = self.keep[r["k"]]
                for i in r.get("ix", []):
                    try:
                        v = v[i]
                    except (TypeError, KeyError, IndexError):
                        return True
                return False
            return any(self._missing(v) for v in r.values())
        if isinstance(r, list):
            return any(self._missing(v) for v in r)
        return False

    def args(self, op):
        pa = [self.arg(x) for x in op.get("pa", [])]
        ka = {k: self.arg(v) for k, v in op.get("a", {}).items()}
        if self.held is not None:
            self.ins = self._arrays([pa, ka], [])
        return pa, ka

    # -- watched inputs ----------------------------------------------------
    def _collect(self, v, name, out, depth=0):
        if depth > 4:
            return
        if isinstance(v, np.ndarray):
            if v.dtype != object:
                out.append((name, v, v.tobytes(), (v.shape, v.dtype.str)))
            else:
                for i, x in enumerate(v.ravel()):
                    self._collect(x, f"{name}[{i}]", out, depth + 1)
                out.append((name, v, [id(x) for x in v.ravel()], "obj"))
        elif isinstance(v, (list, tuple)):
            for i, x in enumerate(v):
                self._collect(x, f"{name}[{i}]", out, depth + 1)
            if isinstance(v, list):
                out.append((name, v, repr(v) if all(isinstance(x, (int, float, str, type(None))) for x in v) else len(v), "list"))
        elif isinstance(v, dict):
            for k, x in v.items():
                self._collect(x, f"{name}[{k}]", out, depth + 1)
            out.append((name, v, sorted(map(str, v)), "dict"))

    def _unwatch(self, b):
        """The caller itself is about to overwrite its buffer."""
        if self.watch:
            self.watch[:] = [e for e in self.watch if e[1] is not b]

    @staticmethod
    def _ident(v):
        if isinstance(v, np.ndarray):
            return (v.__array_interface__["data"][0], v.shape, v.strides, v.dtype.str)
        return id(v)

    @staticmethod
    def _changed(ent):
        name, v, ref, meta = ent
        if meta == "list":
            now = repr(v) if isinstance(ref, str) else len(v)
            return now != ref
        if meta == "dict":
            return sorted(map(str, v)) != ref
        if meta == "obj":
            return [id(x) for x in v.ravel()] != ref
        return (v.shape, v.dtype.str) != meta or v.tobytes() != ref

    def inputs_changed(self):
        for ent in self.watch or ():
            if self._changed(ent):
                return ent[0]
        return None

    # -- results handed out ------------------------------------------------
    def hold(self, v, tag, skip=(), depth=0):
        if self.held is None or depth > 4:
            return
        if isinstance(v, np.ndarray) and v.dtype != object:
            if self.heldbytes > (1 << 23) or any(np.may_share_memory(v, b) for b in self.bufs.values()) \
                    or any(np.may_share_memory(v, b) for b in skip):
                return
            if any(h[1] is v for h in self.held):
                return
            self.heldbytes += v.nbytes
            self.held.append((tag, v, v.tobytes(), (v.shape, v.dtype.str)))
        elif isinstance(v, (list, tuple)):
            for i, x in enumerate(v):
                self.hold(x, f"{tag}[{i}]", skip, depth + 1)
        elif isinstance(v, dict):
            for k, x in v.items():
                self.hold(x, f"{tag}[{k!r}]", skip, depth + 1)

    def held_changed(self):
        for ent in self.held or ():
            if self._changed(ent):
                self.held.remove(ent)
                return f"the array handed out as {ent[0]} was changed afterwards"
        return None

    @staticmethod
    def _arrays(v, out, depth=0):
        if isinstance(v, np.ndarray):
            out.append(v)
        elif isinstance(v, (list, tuple)) and depth < 4:
            for x in v:
                Session._arrays(x, out, depth + 1)
        elif isinstance(v, dict) and depth < 4:
            for x in v.values():
                Session._arrays(x, out, depth + 1)
        return out

    # -- process-wide state ------------------------------------------------
    @staticmethod
    def globals_now():
        import decimal
        import locale
        import logging
        import signal
        import tempfile
        import threading
        import matplotlib
        rs = np.random.get_state()
        return {
            "numpy random stream": (rs[0], rs[1].tobytes(), rs[2], rs[3], rs[4]),
            "python random stream": hash(random.getstate()),
            "numpy error state": tuple(sorted(np.geterr().items())),
            "numpy print options": repr(np.get_printoptions()),
            "numpy buffer size": np.getbufsize(),
            "warning filters": [repr(f) for f in warnings.filters],
            "warning display": (id(warnings.showwarning), id(warnings.formatwarning)),
            "plot defaults": {k: repr(v) for k, v in dict.items(matplotlib.rcParams)},
            "working directory": os.getcwd(),
            "environment": dict(os.environ),
            "import path": list(sys.path),
            "recursion limit": sys.getrecursionlimit(),
            "thread switch interval": sys.getswitchinterval(),
            "garbage collection": (gc.isenabled(), gc.get_threshold()),
            "default streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
            "hooks": (id(sys.excepthook), id(sys.displayhook), id(sys.gettrace()), id(sys.getprofile())),
            "numpy error callback": repr(np.geterrcall()),
            "signal handlers": [repr(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
            "locale": locale.setlocale(locale.LC_ALL),
            "decimal context": repr(decimal.getcontext()),
            "logging": (logging.root.level, logging.root.manager.disable, len(logging.root.handlers)),
            "temporary directory": tempfile.tempdir,
            "open files": _open_files(),
            "threads": threading.active_count(),
            "umask": [x for x in open("/proc/self/status").read().split("\n") if x.startswith("Umask")],
        }

    # -- execution ---------------------------------------------------------
    def call(self, op):
        m = op["m"]
        if m == "@new":
            pa, ka = self.args(op)
            self._watch(op, pa, ka)
            cls = resolve(op["cls"])
            return lambda: self._new(op["o"], cls, pa, ka)
        if m == "@fn":
            pa, ka = self.args(op)
            self._watch(op, pa, ka)
            f = resolve(op["f"])
            return lambda: f(*pa, **ka)
        obj = self.objs.get(op["o"])
        if obj is None:
            return lambda: None
        pa, ka = self.args(op)
        self._watch(op, pa, ka)
        if m == "assign":              # public attributes
            return lambda: vars(obj).update(ka)
        return lambda: getattr(obj, m)(*pa, **ka)

    def _new(self, name, cls, pa, ka):
        self.objs[name] = cls(*pa, **ka)
        return None

    def _watch(self, op, pa, ka):
        if self.watch is not None:
            ents = []
            skip = op.get("mutates", [])
            tag = op.get("f") or op.get("cls") or op["m"]
            for i, v in enumerate(pa):
                if i not in skip:
                    self._collect(v, f"argument {i} of {tag}", ents)
            for k, v in ka.items():
                if k not in skip:
                    self._collect(v, f"argument {k} of {tag}", ents)
            known = {self._ident(e[1]): e for e in self.watch}
            for e in ents:
                k = self._ident(e[1])
                old = known.get(k)
                if old is None or old[2:] != e[2:]:
                    known[k] = e
                    self.watch.append(e)

    def step(self, op, count=False):
        out = self._step(op, count)
        self.count += 1
        if self.held:
            h = self.held_changed()
            if h:
                out["held"] = h
        return out

    def _step(self, op, count=False):
        """Execute one op -> outcome dict (always picklable)."""
        m = op["m"]
        if m == "@obs":
            obj = self.objs.get(op["o"])
            if obj is None:
                return {"s": "skip", "v": None}
            raw = {a: getattr(obj, a, "<missing>") for a in op["attrs"]}
            if not op.get("noret"):
                for a, v in raw.items():
                    self.hold(v, f"attribute {a} read by step {self.count}")
            return {"s": "ok", "v": {a: compare.snap(v) for a, v in raw.items()}}
        if m == "@copy":
            if op["src"] not in self.objs:
                return {"s": "skip", "v": None}
            return self._wrap(op, lambda: self._copy(op), count)
        if m == "@saveload":
            return self._wrap(op, lambda: self._saveload(op), count)
        if m == "@del":
            self.objs.pop(op["o"], None)
            if op.get("gc", True):
                gc.collect()
            return {"s": "ok", "v": None}
        if m == "@gc":
            gc.collect()
            return {"s": "ok", "v": None}
        if m == "@pickle":
            return self._wrap(op, lambda: self._roundtrip(op), count)
        if m == "@scribble":
            b = self.bufs.get(op["k"])
            if b is not None:
                self._unwatch(b)
                b[...] = data._rng(op["seed"]).normal(0, op.get("sigma", 1.0), b.shape).astype(b.dtype)
            return {"s": "ok", "v": None}
        if self._missing(op.get("pa")) or self._missing(op.get("a")):
            return {"s": "skip", "v": None}
        try:
            f = self.call(op)
        except Exception as e:      # argument building failed: harness matter
            raise RuntimeError(f"argument building failed for {op}: {e!r}") from e
        if "fsdir" in op:
            self.fsdir(op["fsdir"])
        out = self._fswrap(op, f, count) if op.get("fs") else self._wrap(op, f, count)
        if m == "@new" and out["s"] == "exc":
            self.objs.pop(op["o"], None)
        return out

    def _roundtrip(self, op):
        o = op["o"]
        if o in self.objs:
            if op.get("how") == "deepcopy":
                import copy
                self.objs[o] = copy.deepcopy(self.objs[o])
            else:
                self.objs[o] = pickle.loads(pickle.dumps(self.objs[o], op.get("proto", 4)))

    def _copy(self, op):
        import copy
        src = self.objs[op["src"]]
        self.objs[op["o"]] = copy.deepcopy(src) if op.get("how") == "deepcopy" else \
            pickle.loads(pickle.dumps(src, op.get("proto", 4)))

    def _saveload(self, op):
        """save() into a scratch directory and load the file again."""
        import shutil
        import tempfile
        o = op["o"]
        if o not in self.objs:
            return
        d = tempfile.mkdtemp(prefix="dst-")
        try:
            self.objs[o].save(d)
            names = os.listdir(d)
            if len(names) != 1:
                raise RuntimeError(f"save created {len(names)} files")
            with open(os.path.join(d, names[0]), "rb") as fh:
                self.objs[o] = pickle.load(fh)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def _wrap(self, op, f, count):
        fault = op.get("fault") or {}
        kind = fault.get("kind")
        if "rng" in op:
            np.random.seed(op["rng"])
        if "rngscript" in op:
            np.random.set_state(simrng.state(op["rngscript"]))
        if op.get("rngadv"):
            np.random.randn(op["rngadv"])
        out = {}
        before = self.globals_now() if self.gstate else None
        old = sys.stdout
        sys.stdout = cap = io.StringIO() if not self.gstate else old
        gcmode = gc.isenabled()
        at = int(fault.get("at", 0))
        use_alloc = count or (kind == "alloc" and at)
        use_mon = mon.MON.on
        if count:
            mon.MON.rec = {}
        if use_mon:
            mon.MON.op_begin(at if kind == "interrupt" else 0, int(op.get("budget", 0)))
        if use_alloc:
            simalloc.arm(at if kind == "alloc" else 0, int(fault.get("min", 0)), fault.get("persist", False))
        v = None
        try:
            try:
                v = f()
                st = "ok"
            except mon.StepBudget:
                st = "budget"
            except BaseException as e:
                st = "exc"
                out["t"] = type(e).__name__
                out["msg"] = str(e)[:200]
                e.__traceback__ = None
        finally:
            if use_alloc:
                out["alloc"] = simalloc.disarm()
            if use_mon:
                out["lines"] = mon.MON.op_end()
            sys.stdout = old
            if count:
                out["sites"] = sorted(mon.MON.rec.values()) if mon.MON.rec else []
                mon.MON.rec = None
        out["s"] = st
        own = op.get("scribble") and op["m"] == "@fn" and not op.get("keep")
        if st == "ok":
            out["v"] = compare.snap(v) if op["m"] not in ("@new", "@copy", "@pickle", "@saveload") else None
            if self.held is not None and out["v"] is not None and not op.get("mutates") and not own:
                self.hold(v, f"result of {op.get('f') or op['m']} (step {self.count})", self.ins)
        if op.get("plot"):
            figs = figures()
            if st == "ok":
                out["v"] = {"ret": out["v"], "figs": figs}
        if st == "ok" and op.get("keep"):
            self.keep[op["keep"]] = v
        if not self.gstate and op.get("stdout"):
            out["out"] = cap.getvalue()[-500:]
        if self.gstate:
            after = self.globals_now()
            ch = [k for k in before if before[k] != after[k]
                  and not (op.get("stochastic") and k == "numpy random stream")]
            if ch:
                out["gchanged"] = ch
        if op.get("rngstate"):
            out["rngdigest"] = compare.digest(list(np.random.get_state()))
        if self.watch is not None:
            c = self.inputs_changed()
            if c:
                out["mutated"] = c
                self.watch = [e for e in self.watch if not self._changed(e)]
        if st == "ok" and own:      # the caller goes on working in the arrays it was given
            for x in self._arrays(v, []):
                if x.flags.writeable and x.dtype.kind in "fc" and not any(np.may_share_memory(x, b) for b in self.ins):
                    x[...] = 1.25
        del v
        return out


def _open_files():
    """Open descriptors, except the font files matplotlib keeps open."""
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if not t.endswith((".ttf", ".otf", ".afm", ".pfb", ".ttc")) and "/proc/" not in t:
            out.append(t)
    return sorted(out)


def _caller_settings(env):
    """Process-wide settings of the simulated caller."""
    import matplotlib
    np.random.seed(env["npseed"])
    if env["npseed"] % 2:
        np.random.normal()              # leaves a cached second normal variate
    random.seed(env["pyseed"])
    if env.get("err"):
        np.seterr(**env["err"])
    np.set_printoptions(precision=env.get("precision", 8))
    matplotlib.rcParams.update(env.get("rc", {}))


def run_segment(ops, blob=None, opts=None, want_blob=False, count_last=False):
    """Execute ops sequentially; returns (outcomes, pickled objects or None)."""
    opts = opts or {}
    s = Session(watch=opts.get("watch"), gstate=opts.get("gstate"), hold=opts.get("hold"))
    if blob is not None:
        s.objs = pickle.loads(blob)
    if opts.get("gstate"):
        sys.stdout = io.StringIO()
    if opts.get("env"):
        _caller_settings(opts["env"])
    need = opts.get("mon") or any((o.get("fault") or {}).get("kind") == "interrupt" or o.get("budget")
                                  for o in ops)
    if need or count_last:
        mon.MON.start(opts.get("gran", "line"))
    if opts.get("probe"):
        hits = []

        def probe():
            if not hits:
                c = s.inputs_changed()
                if c:
                    hits.append(c)
        mon.MON.probe = probe
        mon.MON.probe_every = opts.get("probe_every", 1)
    outs = []
    for i, op in enumerate(ops):
        out = s.step(op, count=count_last and i == len(ops) - 1)
        if opts.get("probe") and hits:
            out["probed"] = hits[0]
            hits.clear()
        outs.append(out)
    ev = mon.MON.events
    mon.MON.stop()
    if s.fsroot:
        import shutil
        os.chdir("/")
        shutil.rmtree(s.fsroot, ignore_errors=True)
    nb = None
    if want_blob:
        try:
            nb = pickle.dumps(s.objs, 4)
        except Exception as e:
            return {"outs": outs, "blob": None, "pickle_error": repr(e)[:300], "events": ev}
    return {"outs": outs, "blob": nb, "events": ev}


def run_threads(pre, threads, sched, opts=None):
    opts = opts or {}
    s = Session(watch=opts.get("watch"), hold=opts.get("hold"))
    pre_outs = [s.step(op) for op in pre]
    n = len(threads)
    plan = mon.Recorder(mon.make_plan(sched, n))
    sc = mon.Sched(n, plan)
    results = [[] for _ in range(n)]
    # arguments and call objects are prepared before any thread runs
    prepared = [[(op, _prep(s, op)) for op in t] for t in threads]
    fault_free = all(not op.get("fault") for t in threads for op in t)
    old = sys.stdout
    sys.stdout = io.StringIO()
    hits = []

    def body(i):
        def go():
            if not fault_free:
                simalloc.install_here()
            else:
                simalloc.install_here()
            for op, f in prepared[i]:
                results[i].append(_thread_step(s, op, f))
                sc.event()
        return go

    if opts.get("probe"):
        def probe():
            if not hits:
                c = s.inputs_changed()
                if c:
                    hits.append(c)
        mon.MON.probe = probe
        mon.MON.probe_every = opts.get("probe_every", 1)
    mon.MON.sched = sc
    mon.MON.start(sched.get("gran", "line"))
    try:
        sc.run([body(i) for i in range(n)])
    finally:
        mon.MON.stop()
        mon.MON.sched = None
        sys.stdout = old
    return {"pre": pre_outs, "outs": results, "switches": plan.log,
            "npre": len(sc.switches), "steps": sc.step, "probed": hits[:1],
            "mutated": s.inputs_changed(), "held": s.held_changed()}


def _prep(s, op):
    if op["m"] == "@obs":
        return lambda: {a: compare.snap(getattr(s.objs[op["o"]], a, "<missing>")) for a in op["attrs"]}
    if op["m"].startswith("@") and op["m"] not in ("@new", "@fn"):
        raise RuntimeError("op %s not allowed in threads" % op["m"])
    if op["m"] in ("@new", "@fn"):
        f = s.call(op)
        if s.held is not None:
            s.keepins[id(op)] = s.ins
        return f
    pa, ka = s.args(op)
    s._watch(op, pa, ka)
    if s.held is not None:
        s.keepins[id(op)] = s.ins
    name, m = op["o"], op["m"]
    return lambda: getattr(s.objs[name], m)(*pa, **ka)


def _thread_step(s, op, f):
    fault = op.get("fault") or {}
    kind, at = fault.get("kind"), int(fault.get("at", 0))
    out = {}
    mon.MON.op_begin(at if kind == "interrupt" else 0)
    if kind == "alloc" and at:
        simalloc.arm(at, int(fault.get("min", 0)), fault.get("persist", False))
    v = None
    try:
        try:
            v = f()
            out["s"] = "ok"
        except BaseException as e:
            out["s"] = "exc"
            out["t"] = type(e).__name__
            out["msg"] = str(e)[:200]
            e.__traceback__ = None
    finally:
        if kind == "alloc" and at:
            out["alloc"] = simalloc.disarm()
        out["lines"] = mon.MON.op_end()
    if out["s"] == "ok":
        out["v"] = None if op["m"] == "@new" else compare.snap(v)
        if s.held is not None and op["m"] not in ("@new", "@obs") and not op.get("mutates"):
            s.hold(v, f"result of {op.get('f') or op['m']}", s.keepins.get(id(op), ()))
    return out


def fresh(v, r, k=1):
    """The same recipe with other data: every seed inside is advanced, every real
    number changed in its last digits (by an amount of its own)."""
    if isinstance(v, dict):
        return {n: x + 7919 * r if n == "seed" and isinstance(x, int) else fresh(x, r, k + j) for j, (n, x) in enumerate(v.items())}
    if isinstance(v, list):
        return [fresh(x, r, k + 3 * j) for j, x in enumerate(v)]
    if isinstance(v, float) and r and abs(v) < 1e300:
        return v * (1 + 1e-10 * r * k)
    return v


MEASURES = ["numpy buffers", "numpy bytes", "python objects", "items in library state", "open files", "threads", "open figures"]


def run_rounds(setup, body, rounds, vary=True):
    """Repeat `body` on fresh data; what the process holds on to after every round."""
    import array
    import threading
    s = Session()
    need = any((o.get("fault") or {}).get("kind") == "interrupt" for o in body)
    if need:
        mon.MON.start("line")
    st = [s.step(op)["s"] for op in setup]
    pyplot = sys.modules["matplotlib.pyplot"]
    ms = [array.array("q", [0] * rounds) for _ in MEASURES]
    seen = {}
    nop = 0
    for r in range(rounds):
        for op in fresh(body, r) if vary else body:
            out = s.step(op)
            k = out["s"]
            seen[k] = seen.get(k, 0) + 1
            if fired_any(out):
                seen["fired"] = seen.get("fired", 0) + 1
            nop += 1
            out = None
        s.ins = []
        gc.collect()
        gc.collect()
        ms[0][r], ms[1][r] = simalloc.live()
        ms[2][r] = len(gc.get_objects())
        ms[3][r] = library_items(s.objs)
        ms[4][r] = len(os.listdir("/proc/self/fd"))
        ms[5][r] = threading.active_count()
        ms[6][r] = len(pyplot.get_fignums())
    ev = mon.MON.events
    mon.MON.stop()
    pyplot.close("all")
    if s.fsroot:
        import shutil
        os.chdir("/")
        shutil.rmtree(s.fsroot, ignore_errors=True)
    return {"setup": st, "measures": {n: list(m) for n, m in zip(MEASURES, ms)}, "seen": seen, "ops": nop, "events": ev}


def fired_any(out):
    return (out.get("alloc") or (0, 0))[1] + (out.get("lines") or (0, 0))[1]


def library_items(objs):
    """Items in everything reachable from the library's modules and the caller's objects."""
    import types
    mods = [m for n, m in list(sys.modules.items()) if m is not None and (n == "qetpy" or n.startswith("qetpy."))]
    seen, total = set(), 0
    todo = [vars(m) for m in mods] + list(objs.values())
    while todo:
        v = todo.pop()
        if id(v) in seen or isinstance(v, (types.ModuleType, str, bytes, int, float, complex, type(None))):
            continue
        seen.add(id(v))
        if isinstance(v, dict):
            total += len(v)
            todo.extend(v.values())
            todo.extend(k for k in v if isinstance(k, tuple))
            continue
        if isinstance(v, (list, tuple, set, frozenset)) or type(v).__name__ == "deque":
            total += len(v)
            todo.extend(v)
            continue
        if isinstance(v, np.ndarray):
            total += v.size
            continue
        if hasattr(v, "cache_info"):
            try:
                total += v.cache_info().currsize
            except Exception:
                pass
        w = getattr(v, "__wrapped__", v)
        if isinstance(w, types.FunctionType):
            if not (w.__module__ or "").startswith("qetpy"):
                continue
            todo.extend([w.__defaults__, w.__kwdefaults__, w.__dict__])
            for c in w.__closure__ or ():
                try:
                    todo.append(c.cell_contents)
                except ValueError:
                    pass
        elif isinstance(v, types.MethodType):
            todo.append(v.__func__)
        elif isinstance(v, (staticmethod, classmethod)):
            todo.append(v.__func__)
        elif isinstance(v, type):
            if v.__module__.startswith("qetpy"):
                todo.extend(list(vars(v).values()))
        elif type(v).__module__.startswith("qetpy"):
            todo.append(getattr(v, "__dict__", None))
    return total
