"""Reference models, written from the documented definitions and independent
of the code under test (deliberately in another style: per segment, per
element, with exact geometry ...)."""
import math
import numpy as np
import scipy.interpolate
from .itu import T2003, T2005


# ---- k-R ----------------------------------------------------------------
_SPL = {}


def itu_ab(f, pol, table="ITU_2005"):
    """Not-a-knot cubic spline through the frozen ITU tables, one frequency."""
    t = {"ITU_2003": T2003, "ITU_2005": T2005}[table]
    h = str(pol)[0] in "hH"
    key = (table, h)
    if key not in _SPL:
        _SPL[key] = tuple(scipy.interpolate.make_interp_spline(t[0], t[r], k=3) for r in ((1, 3) if h else (2, 4)))
    sa, sb = _SPL[key]
    return float(sa(float(f))), float(sb(float(f)))


def rain_rate(A, L, a, b, R_min):
    A = float(A)
    if math.isnan(A):
        return math.nan
    if A < 0:
        return 0.0
    R = math.exp(math.log(A / (a * L)) / b) if A > 0 else 0.0
    return R if R >= R_min else 0.0


# ---- baselines -------------------------------------------------------------
def segments(mask):
    """[(start, stop)] of the True runs."""
    m = np.concatenate(([False], np.asarray(mask, bool), [False]))
    d = np.flatnonzero(m[1:] != m[:-1])
    return list(zip(d[::2].tolist(), d[1::2].tolist()))


def baseline_constant(trsl, wet, n):
    trsl, wet = np.asarray(trsl, float), np.asarray(wet, float)
    unknown = np.isnan(wet)
    is_wet = ~unknown & (wet != 0)
    out = np.where(unknown, np.nan, trsl)
    for s, e in segments(is_wet):
        if s >= n:
            lvl = np.nan if unknown[s - 1] else math.fsum(out[s - n:s]) / n
            out[s:e] = lvl
        elif e > n:
            out[n:e] = out[n - 1]
    return out


def baseline_linear(rsl, wet, ignore_nan):
    rsl, wet = np.asarray(rsl, float), np.asarray(wet, float).copy()
    N = len(rsl)
    wet[0] = 0
    if ignore_nan:
        for i in range(1, N):
            if np.isnan(wet[i]):
                wet[i] = wet[i - 1]
    unknown = np.isnan(wet)
    gap = unknown | (wet != 0)
    out = rsl.copy()
    kill = np.zeros(N, bool)
    for s, e in segments(gap):
        if e == N:
            out[s:] = np.nan
            continue
        if unknown[s:e].any():
            kill[s - 1:e + 1] = True
            continue
        x0, x1 = rsl[s - 1], rsl[e]
        for i in range(s, e):
            w = (i - (s - 1)) / (e - (s - 1))
            out[i] = x0 * (1 - w) + x1 * w
    out[kill] = np.nan
    return out, kill


# ---- wet antenna -------------------------------------------------------------
def eps_water(f_Hz, T):
    f = f_Hz / 1e9
    th = 1 - 300.0 / T
    e0 = 77.66 - 103.3 * th
    e1 = 0.0671 * e0
    e2 = 3.52 + 7.52 * th
    f1 = 20.20 + 146.4 * th + 316.0 * th ** 2
    f2 = 39.8 * f1
    # real and imaginary part written out
    re = e2 + (e1 - e2) / (1 + (f / f2) ** 2) + (e0 - e1) / (1 + (f / f1) ** 2)
    im = (e1 - e2) * (f / f2) / (1 + (f / f2) ** 2) + (e0 - e1) * (f / f1) / (1 + (f / f1) ** 2)
    return complex(re, im)


def _m11(ns, ls, k0):
    """Element (1,1) of the transfer matrix of a layer stack between air."""
    M = np.eye(2, dtype=complex)
    n = [1.0] + list(ns) + [1.0]
    for j in range(len(n) - 1):
        r = (n[j] - n[j + 1]) / (n[j] + n[j + 1])
        t = 2 * n[j] / (n[j] + n[j + 1])
        M = M @ (np.array([[1, r], [r, 1]]) / t)
        if j < len(ns):
            d = 1j * k0 * n[j + 1] * ls[j]
            M = M @ np.array([[np.exp(-d), 0], [0, np.exp(d)]])
    return M[0, 0]


def leijnse(R, f_Hz, T_K=293.0, gamma=2.06e-5, delta=0.24, n_antenna=complex(1.73, 0.014), l_antenna=0.001):
    if math.isnan(R):
        return math.nan
    if R == 0:
        return 0.0
    k0 = 2 * math.pi * f_Hz / 299792458
    nw = np.sqrt(eps_water(f_Hz, T_K))
    film = gamma * R ** delta
    wet = _m11([n_antenna, nw], [l_antenna, film], k0)
    dry = _m11([n_antenna], [l_antenna], k0)
    return 20 * math.log10(abs(wet / dry))


def pastorek(R, A_max=14, zeta=0.55, d=0.1):
    if math.isnan(R):
        return math.nan
    if R == 0:
        return 0.0
    return -A_max * math.expm1(-d * R ** zeta)


# ---- geometry ----------------------------------------------------------------
def great_circle(lon1, lat1, lon2, lat2, r=6367.0):
    """Great-circle distance from the angle between the position vectors."""
    def vec(lo, la):
        lo, la = math.radians(float(lo)), math.radians(float(la))
        return np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)])
    u, v = vec(lon1, lat1), vec(lon2, lat2)
    return r * math.atan2(float(np.linalg.norm(np.cross(u, v))), float(u @ v))
