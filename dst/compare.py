"""Outcome snapshots and comparison."""
import hashlib
import numpy as np


def snap(v, depth=0):
    """Detached, picklable snapshot of a returned value."""
    if depth > 6:
        return ("opaque", type(v).__name__)
    if v is None or isinstance(v, (bool, int, float, complex, str, bytes)):
        return v
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ["objarray", list(v.shape)] + [snap(x, depth + 1) for x in v.ravel()]
        return np.array(v, copy=True)
    if isinstance(v, tuple):
        return tuple(snap(x, depth + 1) for x in v)
    if isinstance(v, (list, set, frozenset)):
        return [snap(x, depth + 1) for x in (sorted(v, key=repr) if isinstance(v, (set, frozenset)) else v)]
    if isinstance(v, dict):
        return {str(k): snap(x, depth + 1) for k, x in v.items()}
    return ("opaque", type(v).__name__)


def diff(a, b, rtol=1e-7, path="result"):
    """None if equal, else a short description of the first difference.
    b is the expected value."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return f"{path}: {_t(a)} instead of {_t(b)}"
        if a.shape != b.shape:
            return f"{path}: shape {a.shape} instead of {b.shape}"
        if a.size == 0:
            return None
        if a.dtype.kind in "US" or b.dtype.kind in "US":
            return None if (a == b).all() else f"{path}: differs"
        an, bn = np.isnan(a), np.isnan(b)
        if (an != bn).any():
            return f"{path}: NaN pattern differs at {int(np.argmax((an != bn).ravel()))}"
        ai, bi = np.isinf(a), np.isinf(b)
        if (ai != bi).any() or (ai.any() and not (a[ai] == b[bi]).all()):
            return f"{path}: inf pattern differs"
        ok = ~(an | ai)
        if not ok.any():
            return None
        x, y = a[ok].astype(complex), b[ok].astype(complex)
        err = np.abs(x - y)
        scale = max(np.abs(y).max(), np.abs(x).max())
        bad = err > rtol * scale
        if rtol <= 1e-6:        # entries far smaller than the largest count too
            bad |= err > 100 * rtol * np.abs(y) + 1e-13 * scale
        if bad.any():
            i = int(np.argmax(np.where(bad, err, -1)))
            return f"{path}: element {i} is {a[ok].ravel()[i]!r} instead of {b[ok].ravel()[i]!r} (max deviation {err.max():.3g})"
        return None
    num = (int, float, complex)
    if isinstance(a, num) and isinstance(b, num):
        if a == b:
            return None
        if isinstance(a, (bool,)) or isinstance(b, (bool,)):
            return f"{path}: {a!r} instead of {b!r}"
        x, y = complex(a), complex(b)
        if np.isnan(x) or np.isnan(y):
            return None if (np.isnan(x) and np.isnan(y)) else f"{path}: {a!r} instead of {b!r}"
        if not (np.isinf(x) or np.isinf(y)) and abs(x - y) <= rtol * max(abs(x), abs(y)):
            return None
        return f"{path}: {a!r} instead of {b!r}"
    if type(a) is not type(b):
        return f"{path}: {_t(a)} instead of {_t(b)}"
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} instead of {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, rtol, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, dict):
        if set(a) != set(b):
            return f"{path}: keys differ ({sorted(set(a) ^ set(b))[:4]})"
        for k in b:
            d = diff(a[k], b[k], rtol, f"{path}[{k!r}]")
            if d:
                return d
        return None
    return None if a == b else f"{path}: {a!r} instead of {b!r}"


def _t(v):
    if isinstance(v, np.ndarray):
        return f"array{v.shape}"
    r = repr(v)
    return f"{type(v).__name__} {r[:60]}"


def digest(v, h=None):
    top = h is None
    if top:
        h = hashlib.sha256()
    if isinstance(v, np.ndarray):
        h.update(str((v.shape, v.dtype.str)).encode())
        h.update(np.ascontiguousarray(v).tobytes())
    elif isinstance(v, (list, tuple)):
        h.update(b"[")
        for x in v:
            digest(x, h)
        h.update(b"]")
    elif isinstance(v, dict):
        for k in sorted(v, key=str):
            h.update(str(k).encode())
            digest(v[k], h)
    else:
        h.update(repr(v).encode())
    return h.hexdigest()[:24] if top else None
