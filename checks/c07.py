"""C07 forward wet antenna models against a transfer-matrix model and the formulae."""
import math
import numpy as np
import xarray as xr
from vlib import gen, ref
from vlib.core import mismatch, must_return
import pycomlink.processing.wet_antenna as wa


def bc(*xs):
    return np.broadcast_arrays(*[np.asarray(x) for x in xs])


def o_leijnse(ctx, ev):
    b = ev.bound()
    if not must_return(ctx, ev):
        return
    R, f = bc(np.asarray(b["R"], float), np.asarray(b["f_Hz"], float))
    exp = np.array([ref.leijnse(float(r), float(q), float(b["T_K"]), float(b["gamma"]), float(b["delta"]), complex(b["n_antenna"]), float(b["l_antenna"])) for r, q in zip(R.ravel(), f.ravel())]).reshape(R.shape)
    single = getattr(b["R"], "dtype", None) == np.float32
    ctx.check(mismatch(ev.value, exp, rtol=1e-4 if single else 1e-7, atol=1e-4 if single else 1e-9, what="waa"), ev)
    v = np.asarray(ev.value)
    if v.shape == R.shape and (v[R == 0] != 0).any(): ctx.violation("not exactly 0 without rain", ev)
    ctx.tag(f"leijnse_R_ndim{np.ndim(b['R'])}", f"leijnse_f_ndim{np.ndim(b['f_Hz'])}")
    if (R == 0).any(): ctx.tag("leijnse_zero")
    if np.isnan(R).any(): ctx.tag("leijnse_nan")


def o_pastorek(ctx, ev):
    b = ev.bound()
    if not must_return(ctx, ev):
        return
    R = np.asarray(b["R"], float); Am = float(b["A_max"])
    exp = np.array([ref.pastorek(float(r), Am, float(b["zeta"]), float(b["d"])) for r in R.ravel()]).reshape(R.shape)
    single = getattr(b["R"], "dtype", None) == np.float32
    ctx.check(mismatch(ev.value, exp, rtol=1e-5 if single else 1e-9, atol=(1e-6 if single else 1e-13) * Am, what="waa"), ev)
    v = np.asarray(ev.value, float)
    if v.shape == R.shape:
        if (v[R == 0] != 0).any(): ctx.violation("not exactly 0 without rain", ev)
        if ((v < 0) | (v > Am * (1 + (1e-6 if single else 1e-12)))).any(): ctx.violation("outside [0, A_max]", ev)
        o = np.argsort(R.ravel()); s = v.ravel()[o]; s = s[~np.isnan(s)]
        if (np.diff(s) < (-1e-6 if single else -1e-12) * Am).any(): ctx.violation("decreases with rain rate", ev)
    ctx.tag(f"pastorek_R_ndim{R.ndim}")
    if (R == 0).any(): ctx.tag("pastorek_zero")
    if np.isnan(R).any(): ctx.tag("pastorek_nan")
    if (R > 1e4).any(): ctx.tag("pastorek_saturated")


def o_eps(ctx, ev):
    b = ev.bound()
    if not must_return(ctx, ev):
        return
    f, T = bc(np.asarray(b["f_Hz"], float), np.asarray(b["T_K"], float))
    exp = np.array([ref.eps_water(float(q), float(t)) for q, t in zip(f.ravel(), T.ravel())]).reshape(f.shape)
    ctx.check(mismatch(ev.value, exp, rtol=1e-9, what="permittivity"), ev)
    ctx.tag("eps")


def install(ctx):
    ctx.watch("pycomlink.processing.wet_antenna", "waa_leijnse_2008", o_leijnse, pure=True)
    ctx.watch("pycomlink.processing.wet_antenna", "waa_pastorek_2021", o_pastorek, pure=True)
    ctx.watch("pycomlink.processing.wet_antenna", "eps_water", o_eps, pure=True)


def rain(rng, n=None):
    if n is not None:
        R = np.where(rng.random(n) < .3, 0, 10 ** rng.uniform(-6, 4, n)); R[rng.random(n) < .05] = np.nan
        return R if rng.random() < .6 else R[:n // 50 * 50].reshape(50, -1)
    nd = int(gen.pick(rng, [0, 0, 1, 1, 1, 2]))
    shape = tuple(int(rng.integers(1, 12)) for _ in range(nd))
    n = int(np.prod(shape, dtype=int))
    R = gen.pick(rng, [rng.exponential(5, n), 10 ** gen.uni(rng, -8, 5, n), rng.integers(0, 50, n).astype(float), np.zeros(n)])
    R = np.array(R, float)
    R[rng.random(n) < .15] = 0
    R[rng.random(n) < .12] = np.nan
    if nd == 0:
        return gen.pick(rng, [float(R[0]), np.float64(R[0]), np.array(R[0])] + ([int(R[0])] if R[0] == R[0] and R[0] == int(R[0]) and R[0] < 1e6 else []))
    if nd == 1 and rng.random() < .5:
        return gen.dress(rng, R, ("plain", "strided", "reversed", "readonly", "f4", "list", "series"))[0]
    R = R.reshape(shape)
    if not np.isnan(R).any() and (R == np.round(R)).all() and np.abs(R).max() < 1e6 and rng.random() < .3: R = R.astype(int)
    return np.asfortranarray(R) if rng.random() < .3 else R


def case(ctx, rng, i):
    large = gen.big(i)
    R = rain(rng, gen.big_n(rng, 9000) if large else None)
    if large: ctx.tag("large")
    kw = {}
    for k, v in dict(T_K=float(gen.uni(rng, 268, 315)), gamma=float(gen.uni(rng, 1e-6, 6e-5)), delta=float(gen.uni(rng, .1, .7)),
                     n_antenna=complex(gen.uni(rng, 1.2, 2.5), gen.uni(rng, 0, .05)), l_antenna=float(gen.uni(rng, 2e-4, 4e-3))).items():
        if rng.random() < .5: kw[k] = v
    f = float(gen.pick(rng, [gen.uni(rng, 5e9, 90e9), gen.uni(rng, 1e9, 2e11), 23e9, 10.5e9]))
    if rng.random() < .2: f = int(f)
    if np.ndim(R) == 0 and rng.random() < .4:
        f = gen.uni(rng, 1e9, 1.5e11, int(rng.integers(1, 6)))
    elif np.ndim(R) == 1 and not isinstance(R, list) and rng.random() < .15:
        f = gen.uni(rng, 1e9, 1.5e11, len(R))
    if isinstance(R, list) and np.ndim(f): f = 20e9
    if rng.random() < .5: ctx.quiet(wa.waa_leijnse_2008, R, f, **kw)
    else: ctx.quiet(wa.waa_leijnse_2008, f_Hz=f, R=R, **kw)
    kw = {}
    for k, v in dict(A_max=gen.pick(rng, [14, float(gen.uni(rng, .5, 20))]), zeta=float(gen.uni(rng, .2, 1.2)), d=float(gen.uni(rng, .01, .5))).items():
        if rng.random() < .5: kw[k] = v
    ctx.quiet(wa.waa_pastorek_2021, rain(rng, gen.big_n(rng) if large else None), **kw)
    ctx.quiet(wa.eps_water, gen.pick(rng, [float(gen.uni(rng, 1e9, 1e11)), gen.uni(rng, 1e9, 1e11, 5 if not large else 6000)]), float(gen.uni(rng, 260, 320)))
