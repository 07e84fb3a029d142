"""Seeded generators of realistic and hostile inputs."""
import numpy as np
import pandas as pd
import xarray as xr


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def uni(rng, lo, hi, size=None, p=.3):
    """uniform values, part of them popular ones that many calls share (what one call leaves behind can meet the next)"""
    v = rng.uniform(lo, hi, size)
    if rng.random() < p:
        q = lo + (hi - lo) * np.array([.2, .45, .7])
        v = float(pick(rng, q)) if size is None else rng.choice(q, size)
    return v


def length(rng, lo=1, hi=120, big=None, p_big=0.03):
    """Mostly short, sometimes edge sizes, rarely big."""
    if big and rng.random() < p_big:
        return int(rng.integers(hi, big + 1))
    r = rng.random()
    if r < 0.2:
        return int(rng.integers(lo, min(hi, lo + 4) + 1))
    if r < 0.3:
        return int(pick(rng, [v for v in (15, 16, 17, 31, 32, 33, 63, 64, 65, 96, 100) if lo <= v <= hi] or [lo]))
    return int(rng.integers(lo, hi + 1))


def big(i, at=100, every=251):
    """the few cases of a run that get a large input (same ones in every run)"""
    return i % every == at


# for the checks that borrow the workloads of others: (modulus, residue) of their cases with large input
BIG = {"c05": [(251, 100), (251, 200)], "c08": [(251, 100), (251, 104), (251, 99)], "c10": [(251, 101), (400, 100)], "c11": [(80, 36)], "c12": [(251, 100), (251, 200)], "c13": [(251, 100), (251, 202)],
       "c14": [(60, 31)], "c15": [(100, 50)], "c16": [(120, 60), (120, 100)], "c18": [(201, 40)], "c19": [(160, 41)], "c20": [(160, 42), (160, 43)], "c22": [(160, 60)], "c24": [(500, 100)], "c26": [(150, 70), (150, 71)]}


def case_number(ctx, rng, s, p):
    """number of a case of workload s, with probability p one of those with large input"""
    j = int(rng.integers(3, 10000))
    if rng.random() < p:
        m, r = pick(rng, BIG.get(s, [(251, 100)]))
        ctx.tag("large"); return j - j % m + r
    if s == "c20": j = j - j % 8 + 2 + int(rng.integers(6))
    return j


def big_n(rng, hi=80000, lo=1500):
    """a large size, often just past a round or binary number"""
    c = [v for v in (2049, 4097, 5001, 8193, 10001, 16385, 20001, 32769, 50001, 65537) if lo <= v < hi]
    if c and rng.random() < .35:
        return int(pick(rng, c)) + int(rng.integers(0, 40))
    if rng.random() < .5:
        return int(rng.integers(int(.6 * hi), hi + 1))
    return int(np.exp(rng.uniform(np.log(lo), np.log(hi))))


def runs(rng, n, p_switch=None, p0=None):
    """Boolean pattern made of runs."""
    r = rng.random()
    if r < 0.08:
        return np.zeros(n, bool)
    if r < 0.16:
        return np.ones(n, bool)
    if r < 0.24:
        return (np.arange(n) + int(rng.integers(2))) % 2 == 0
    p = p_switch if p_switch is not None else pick(rng, [0.03, 0.1, 0.3, 0.6] if n < 1200 else [.0004, .0015, .005, .1])
    sw = rng.random(n) < p
    x = (np.cumsum(sw) + int(rng.integers(2))) % 2 == 1
    return x


def nan_mask(rng, n, p_none=0.4):
    if rng.random() < p_none:
        return np.zeros(n, bool)
    r = rng.random()
    if r < 0.45:
        return rng.random(n) < pick(rng, [0.02, 0.1, 0.4])
    m = np.zeros(n, bool)
    for _ in range(int(rng.integers(1, 4))):
        s = int(rng.integers(0, n))
        m[s:s + int(rng.integers(1, max(2, n // 4) + 1))] = True
    if r < 0.6:
        m[0] = True
    if 0.5 < r < 0.7:
        m[-1] = True
    return m


def signal(rng, n, level=None, nan=False, exact=False):
    """A signal level series [dB]."""
    lvl = level if level is not None else pick(rng, [-85., -60., -45.5, 0., 2., 55., 70.])
    kind = rng.random()
    if exact:
        x = lvl // 1 + rng.integers(-12, 13, n) * 0.25
    elif kind < 0.25:
        x = lvl + rng.normal(0, pick(rng, [0.1, 1, 5]), n)
    elif kind < 0.5:
        x = lvl + np.cumsum(rng.normal(0, 0.5, n))
    elif kind < 0.7:
        x = np.round((lvl + rng.normal(0, 3, n)) / 0.3) * 0.3
    elif kind < 0.8:
        x = lvl + rng.integers(-5, 6, n).astype(float)
    elif kind < 0.87:
        x = np.full(n, float(lvl))
    elif kind < 0.95:
        x = lvl + np.where(runs(rng, n), rng.uniform(3, 40), 0.0) + rng.normal(0, 0.2, n)
    else:
        x = rng.normal(0, 1, n) * 10.0 ** float(rng.integers(-6, 7))
    x = np.asarray(x, float)
    if nan:
        x = x.copy()
        x[nan_mask(rng, n)] = np.nan
    return x


LAYOUTS = ("plain", "plain", "plain", "strided", "reversed", "readonly", "f4", "offset", "series", "list", "int", "column")


def dress(rng, x, allowed=LAYOUTS, tag=None):
    """Give the 1-D float array x another container/dtype/layout.
    Returns (object to pass, canonical float64 values)."""
    x = np.asarray(x, float)
    kind = pick(rng, [a for a in allowed])
    if kind == "int" and (np.isnan(x).any() or np.abs(x).max(initial=0) > 1e6):
        kind = "plain"
    if kind == "plain":
        o = x.copy()
    elif kind == "strided":
        b = np.full(2 * len(x), 777.25)
        b[::2] = x
        o = b[::2]
    elif kind == "reversed":
        o = x[::-1].copy()[::-1]
    elif kind == "readonly":
        o = x.copy()
        o.flags.writeable = False
    elif kind == "f4":
        o = x.astype(np.float32)
        x = o.astype(np.float64)
    elif kind == "offset":
        b = np.full(len(x) + 7, -333.5)
        b[3:3 + len(x)] = x
        o = b[3:3 + len(x)]
    elif kind == "column":
        b = np.full((len(x), 3), 99.5)
        b[:, 1] = x
        o = b[:, 1]
    elif kind == "series":
        idx = pick(rng, [None, "time", "shift", "perm"])
        if idx is None:
            o = pd.Series(x.copy())
        elif idx == "time":
            o = pd.Series(x.copy(), index=pd.date_range("2019-01-01", periods=len(x), freq="1min"))
        elif idx == "shift":
            o = pd.Series(x.copy(), index=np.arange(len(x)) + 5)
        else:
            o = pd.Series(x.copy(), index=rng.permutation(len(x)))
    elif kind == "list":
        o = [float(v) for v in x]
    elif kind == "int":
        o = np.round(x).astype(pick(rng, [np.int64, np.int32, np.int16]) if np.abs(x).max(initial=0) < 3e4 else np.int64)
        x = o.astype(float)
    else:
        raise ValueError(kind)
    return o, x, kind


def wet_flags(rng, n, nan=True, p_none=0.5):
    w = runs(rng, n).astype(float)
    if nan:
        w[nan_mask(rng, n, p_none)] = np.nan
    return w


def dress_flags(rng, w, allowed=("plain", "bool", "int", "strided", "series", "list", "readonly", "u1", "f4", "reversed", "offset")):
    """Container for a wet mask.  Returns (object, canonical floats)."""
    w = np.asarray(w, float)
    kind = pick(rng, list(allowed))
    hasnan = np.isnan(w).any()
    if hasnan and kind in ("bool", "int", "u1"):
        kind = "plain"
    if kind == "bool":
        return w.astype(bool), w, kind
    if kind == "int":
        return w.astype(np.int64), w, kind
    if kind == "u1":
        return w.astype(np.uint8), w, kind
    if kind == "f4":
        return w.astype(np.float32), w, kind
    if kind == "series":
        v = w.copy() if hasnan or rng.random() < 0.5 else w.astype(bool)
        return pd.Series(v), w, kind
    if kind == "list":
        return [float(v) for v in w], w, kind
    o, _, k = dress(rng, w, (kind,))
    return o, w, k


def times(rng, n, start=None, step=None):
    start = start or pick(rng, ["2019-06-30T22:10", "2018-01-01", "1999-12-31T23:00", "2020-02-28T12:00"])
    step = step or pick(rng, ["1min", "15min", "5min", "10s"])
    return pd.date_range(start, periods=n, freq=step)


def ids(rng, n):
    k = pick(rng, ["str", "int", "mixedlen", "revint", "gapint"])
    if k == "str":
        return np.array([f"cml_{i}" for i in range(n)])
    if k == "int":
        return np.arange(n)
    if k == "revint":
        return np.arange(n)[::-1] + 10
    if k == "gapint":
        return np.sort(rng.choice(max(1000, 2 * n), n, replace=False))[rng.permutation(n)]
    return np.array(["L" * (1 + i % 3) + str((i * 7) % 23) + "_" + str(i) for i in range(n)])


POL_V = ["v", "V", "vertical", "Vertical"]
POL_H = ["h", "H", "horizontal", "Horizontal"]
