"""C04 rain rate from attenuation."""
import itertools
import numpy as np
import xarray as xr
from vlib import gen, ref
from vlib.core import mismatch, must_return
import pycomlink.processing.k_R_relation as kR


def oracle(ctx, ev):
    b = ev.bound()
    if b is None:
        return "skip"
    if any(isinstance(v, (xr.DataArray, xr.Dataset)) for v in b.values()):
        return "skip"
    have = [b[k] is not None for k in ("f_GHz", "pol", "a", "b")]
    if have not in ([True, True, False, False], [False, False, True, True]):
        ctx.tag("bad_combination")
        if not isinstance(ev.exc, ValueError):
            ctx.violation(f"arguments {[k for k, h in zip(('f_GHz','pol','a','b'), have) if h]} accepted: no ValueError", ev)
        return
    if not must_return(ctx, ev):
        return
    A = np.atleast_1d(np.asarray(b["A"], float)); L = float(np.asarray(b["L_km"]).squeeze()); R_min = float(b["R_min"])
    if have[0]:
        a, bb = ref.itu_ab(float(np.asarray(b["f_GHz"]).squeeze()), str(np.asarray(b["pol"]).squeeze()), b["a_b_approximation"])
        ctx.tag("by_frequency", "tab:" + b["a_b_approximation"])
    else:
        a, bb = float(np.asarray(b["a"]).squeeze()), float(np.asarray(b["b"]).squeeze()); ctx.tag("by_ab")
    R = np.asarray(ev.value)
    if R.shape != A.shape:
        ctx.violation(f"result has shape {R.shape}, attenuation has {A.shape}", ev); return
    exp = np.array([ref.rain_rate(x, L, a, bb, R_min) for x in A.ravel()]).reshape(A.shape)
    raw = np.array([ref.rain_rate(x, L, a, bb, 0.0) for x in A.ravel()]).reshape(A.shape)
    with np.errstate(invalid="ignore"):
        edge = np.abs(raw - R_min) <= 1e-9 * np.maximum(R_min, 1e-300)
        edge &= ~(np.isnan(raw))
    ign = np.zeros_like(edge) if ctx.exact else edge
    ctx.check(mismatch(R, exp, rtol=1e-7, atol=1e-300, ignore=ign, what="R"), ev)
    if (R < 0).any():
        ctx.violation("negative rain rate", ev)
    with np.errstate(invalid="ignore", over="ignore"):
        back = a * R ** bb * L
        if not np.allclose(back[R > 0], A[R > 0], rtol=1e-6): ctx.violation("A != a R^b L", ev)
    # monotone in A
    o = np.argsort(A.ravel()); s = R.ravel()[o]; s = s[~np.isnan(s)]
    if (np.diff(s) < -1e-9 * np.abs(s[1:])).any():
        ctx.violation("R decreases with A", ev)
    if (edge & (A > 0)).any() and ctx.exact: ctx.tag("exactly_at_R_min")
    if np.isnan(A).any(): ctx.tag("A_nan")
    if (A < 0).any(): ctx.tag("A_negative")
    if (A == 0).any(): ctx.tag("A_zero")
    if ((raw > 0) & (raw < R_min)).any(): ctx.tag("below_R_min")
    if (R > 0).any(): ctx.tag("raining")
    ctx.tag(f"ndim{np.asarray(b['A']).ndim}")


def install(ctx):
    ctx.watch("pycomlink.processing.k_R_relation", "calc_R_from_A", oracle, pure=True)


def case(ctx, rng, i):
    if i % 9 == 0:     # every argument combination
        for mask in itertools.product([0, 1], repeat=4):
            full = dict(f_GHz=23.0, pol="V", a=0.12, b=1.05)
            kw = {k: v for (k, v), m in zip(full.items(), mask) if m}
            ctx.quiet(kR.calc_R_from_A, np.array([0., 1., np.nan]), 5.0, **kw)
            if rng.random() < .3:
                ctx.quiet(kR.calc_R_from_A, A=1.5, L_km=5.0, **kw)
        # falsy but given values count as given
        ctx.quiet(kR.calc_R_from_A, np.array([1.0]), 2.0, f_GHz=20., pol="H", a=0.0)
        ctx.quiet(kR.calc_R_from_A, np.array([1.0]), 2.0, f_GHz=20., pol="H", b=0)
        return
    nd = int(gen.pick(rng, [0, 1, 1, 1, 1, 2, 2]))
    shape = tuple(int(gen.length(rng, 1, 40)) for _ in range(nd))
    if gen.big(i): shape = gen.pick(rng, [(gen.big_n(rng),), (int(rng.integers(100, 300)), int(rng.integers(100, 300)))]); nd = len(shape); ctx.tag("large")
    n = int(np.prod(shape, dtype=int))
    A = gen.pick(rng, [rng.normal(0, 2, n), rng.exponential(3, n), 10.0 ** rng.uniform(-12, 3, n), np.round(rng.normal(0, 3, n)), np.abs(rng.normal(0, .2, n))])
    A = np.array(A, float)
    A[rng.random(n) < .1] = 0
    A[gen.nan_mask(rng, n)] = np.nan
    kw = {}
    exact = rng.random() < 0.3
    L = float(gen.pick(rng, [gen.uni(rng, 0.1, 30), 1.0, rng.uniform(0.01, 200), 10]))
    if exact:      # dyadic numbers: the cut at R_min is decided without rounding
        ctx.exact = True
        L = float(gen.pick(rng, [1., 2., 4., .5])); a = float(gen.pick(rng, [1., .5, .25, 2.])); b = gen.pick(rng, [1.0, 1, 0.5])
        R_min = float(gen.pick(rng, [.125, .25, .5, 1., 0.]))
        A[rng.random(n) < .3] = a * R_min ** b * L if b != .5 or R_min in (.25, 1., 0.) else 0
        if b == .5 and R_min not in (.25, 1., 0.): ctx.exact = False
        kw = dict(a=a, b=b, R_min=R_min)
    elif rng.random() < .5:
        kw = dict(a=float(10 ** rng.uniform(-4, 1)), b=float(rng.uniform(.6, 1.6)))
    else:
        kw = dict(f_GHz=gen.pick(rng, [float(gen.uni(rng, 1, 100)), 15, 22.0, np.float64(38.)]), pol=gen.pick(rng, gen.POL_H + gen.POL_V))
        if rng.random() < .5: kw["a_b_approximation"] = gen.pick(rng, ["ITU_2005", "ITU_2003"])
    if not exact and rng.random() < .6:
        kw["R_min"] = gen.pick(rng, [0, 0.0, .1, .01, 1, 5.0])
    if nd == 0:
        o = gen.pick(rng, [float(A[0]), np.float64(A[0]), np.array(A[0])])
        if A[0] == np.round(A[0]) and rng.random() < .5: o = int(A[0])
    elif nd == 1:
        o, _, k = gen.dress(rng, A); ctx.tag("A:" + k)
        if ctx.exact and k == "int" : ctx.exact = True
    else:
        o = A.reshape(shape)
        if rng.random() < .3: o = np.asfortranarray(o)
        if rng.random() < .3: o = o[::-1]
    if rng.random() < .5: ctx.quiet(kR.calc_R_from_A, o, L, **kw)
    else: ctx.quiet(kR.calc_R_from_A, A=o, L_km=L, **kw)
    if i % 5 == 1 and nd:        # longer path, same attenuation: not more rain
        ctx.exact = False
        r1 = ctx.quiet(kR.calc_R_from_A, A, L, **kw); r2 = ctx.quiet(kR.calc_R_from_A, A, 2 * L, **kw)
        if r1 is not None and r2 is not None and (np.nan_to_num(r2) > np.nan_to_num(r1) * (1 + 1e-9)).any():
            ctx.violation("rain rate increases with path length")
        ctx.tag("path_length_pair")
