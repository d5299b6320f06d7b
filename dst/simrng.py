"""Randomness seam: numpy's global generator is put into a state that makes it
deliver a scripted sequence of 32-bit outputs.

Every 624-word sequence is a legitimate output of MT19937 (its tempering is a
bijection), so the code under test sees nothing a real generator could not deliver."""
import numpy as np

M32 = 0xFFFFFFFF


def untemper(y):
    y &= M32
    y ^= y >> 18
    y ^= (y << 15) & 0xEFC60000
    x = y
    for _ in range(5):
        x = y ^ ((x << 7) & 0x9D2C5680)
    y = x & M32
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & M32


def words(script):
    g = np.random.Generator(np.random.PCG64(script["seed"]))
    n, k = script["len"], script["kind"]
    if k == "zeros":
        w = [0] * n
    elif k == "ones":
        w = [M32] * n
    elif k == "alt":
        w = [0 if i % 2 else M32 for i in range(n)]
    elif k == "runs":
        w = [int(x) for x in np.repeat(g.integers(0, 1 << 32, n), 8)[:n]]
    elif k == "small":
        w = [int(x) for x in g.integers(0, 4, n)]
    elif k == "large":
        w = [M32 - int(x) for x in g.integers(0, 4, n)]
    elif k == "ramp":
        w = [(i * 0x01010101) & M32 for i in range(n)]
    elif k == "same":
        w = [int(g.integers(0, 1 << 32))] * n
    else:
        w = [int(x) for x in g.integers(0, 1 << 32, n)]
    return w


def state(script):
    """State for numpy.random.set_state."""
    w = words(script)[:600]
    g = np.random.Generator(np.random.PCG64(script["seed"] + 1))
    key = [int(x) for x in g.integers(1, 1 << 32, 624)]
    for i, x in enumerate(w):
        key[i] = untemper(x)
    gauss = script.get("gauss")
    return ("MT19937", np.array(key, dtype=np.uint32), 0, 1 if gauss is not None else 0, gauss or 0.0)


KINDS = ["zeros", "ones", "alt", "runs", "small", "large", "ramp", "same", "random", "random"]


def script(rng):
    s = {"kind": KINDS[rng.randrange(len(KINDS))], "len": [8, 60, 300, 600][rng.randrange(4)], "seed": rng.randrange(1 << 20)}
    if rng.random() < 0.3:
        s["gauss"] = [0.5, -2.0, 3.5][rng.randrange(3)]
    return s
