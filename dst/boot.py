"""Process bootstrap: environment, import of the code under test from /repo."""
import os
import sys

REPO = os.environ.get("DST_REPO", "/repo")      # override is for development only
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PREFIX = os.path.realpath(os.path.join(REPO, "qetpy")) + os.sep


def env():
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS",
              "NUMEXPR_NUM_THREADS"):
        os.environ[k] = "1"
    os.environ["MPLBACKEND"] = "Agg"
    os.environ.setdefault("MPLCONFIGDIR", "/opt/venv/mplconfig")
    os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
    sys.dont_write_bytecode = True


def _patch_locks():
    """Locks created by qetpy code (none today) become simulator-owned."""
    import threading
    from . import mon
    real = {"Lock": threading.Lock, "RLock": threading.RLock}

    def factory(name, sim):
        def make(*a, **k):
            if sys._getframe(1).f_code.co_filename.startswith(PREFIX):
                return sim()
            return real[name](*a, **k)
        make.__name__ = name
        return make

    threading.Lock = factory("Lock", mon.SimLock)
    threading.RLock = factory("RLock", mon.SimRLock)


def load():
    """Import the libraries and qetpy; nothing of qetpy is called here."""
    env()
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    import numpy  # noqa
    import scipy.optimize, scipy.signal, scipy.stats, scipy.fftpack, scipy.linalg  # noqa
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa
    try:
        import iminuit  # noqa
    except ImportError:
        pass
    _patch_locks()
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    import qetpy
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    if COV:
        cov_start()
    f = os.path.realpath(qetpy.__file__)
    if not f.startswith(PREFIX):
        raise RuntimeError("qetpy imported from %s, expected under %s" % (f, PREFIX))
    return qetpy


# -- line coverage of the code under test (development only: DST_COV=directory) --
COV = os.environ.get("DST_COV")
_seen = set()


def cov_start():
    m = sys.monitoring
    m.use_tool_id(m.COVERAGE_ID, "dst-cov")

    def line(code, n):
        if code.co_filename.startswith(PREFIX):
            _seen.add((code.co_filename[len(PREFIX):], n))
        return m.DISABLE
    m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
    m.set_events(m.COVERAGE_ID, m.events.LINE)


def cov_flush():
    if COV and _seen:
        with open(os.path.join(COV, "cov.txt"), "a") as fh:
            fh.write("".join(f"{f}:{n}\n" for f, n in _seen))


def warm_plots():
    """First-use initialisation of matplotlib (fonts, backend), outside any run."""
    import io
    import matplotlib.pyplot as plt
    fig, ax = plt.subplots(2)
    ax[0].loglog([1, 10], [1, 10], label=r"$\sqrt{\mathrm{Hz}}$")
    ax[0].set_xlabel(r"a $\mu$")
    ax[0].legend()
    ax[0].grid(which="both")
    ax[1].plot([1, 2], [3, 4])
    fig.savefig(io.BytesIO(), format="png", bbox_inches="tight")
    plt.close("all")
