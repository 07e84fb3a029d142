"""C08 wet antenna attenuation derived from observed attenuation."""
import numpy as np
import xarray as xr
from vlib import gen, ref
from vlib.core import mismatch, must_return
import pycomlink.processing.wet_antenna as wa


def model(name, b, i=None):
    """reference forward map A_rain -> waa for one link"""
    a, bb = ref.itu_ab(float(b["f_Hz"]) / 1e9, str(b["pol"]))
    L = float(b["L_km"])
    if name == "waa_leijnse_2008_from_A_obs":
        fw = lambda R: ref.leijnse(R, float(b["f_Hz"]), float(b["T_K"]), float(b["gamma"]), float(b["delta"]), complex(b["n_antenna"]), float(b["l_antenna"]))
    else:
        fw = lambda R: ref.pastorek(R, float(b["A_max"]), float(b["zeta"]), float(b["d"]))
    return lambda A: fw(ref.rain_rate(A, L, a, bb, 0.0))


GRID = np.logspace(-10, 3, 100); GRID[0] = 0


def judge_series(ctx, ev, b, A_obs, out, what):
    fw = model(ev.name, b)
    w = np.array([fw(x) for x in GRID]); th = GRID + w
    if (np.diff(th) <= 0).any():
        ctx.tag("model_not_invertible"); return
    if np.nanmax(A_obs, initial=0) > th[-1]:
        return
    A_obs = np.asarray(A_obs, float).ravel(); out = np.asarray(out, float).ravel()
    lut = np.interp(A_obs, th, w)
    for x, y, e in zip(A_obs, out, lut):
        if np.isnan(x):
            ctx.tag("nan")
            if not np.isnan(y): ctx.violation(f"{what}: {y} for missing A_obs", ev)
            continue
        if np.isnan(y):
            ctx.violation(f"{what}: NaN for A_obs={x}", ev); return
        if x == 0:
            ctx.tag("zero")
            if y != 0: ctx.violation(f"{what}: {y} for A_obs=0", ev)
            continue
        if y > x * (1 + 1e-9):
            ctx.violation(f"{what}: {y} exceeds A_obs={x}", ev); return
        if abs(y - e) <= 1e-7 * (1 + abs(e)):
            ctx.tag("inverted"); continue
        lo, hi = 0.0, x          # exact inverse; a finer table may come closer to it than ours
        for _ in range(200):
            m = .5 * (lo + hi)
            if m + fw(m) < x: lo = m
            else: hi = m
        true = x - .5 * (lo + hi)
        if abs(y - true) > abs(e - true) * 1.05 + 1e-7:
            ctx.violation(f"{what}: A_obs={x} -> {y}, expected {true} (table value {e})", ev); return


def oracle(ctx, ev):
    b = ev.bound()
    A = b["A_obs"]
    neg = bool(np.any(np.asarray(A, float) < 0))
    if neg:
        ctx.tag("negative")
        if not isinstance(ev.exc, ValueError): ctx.violation("negative observed attenuation did not raise ValueError", ev)
        return
    if isinstance(A, xr.DataArray) and "time" in A.dims:
        if not must_return(ctx, ev): return
        oth = [d for d in A.dims if d != "time"]
        v = ev.value
        if not isinstance(v, xr.DataArray) or set(v.dims) != set(A.dims):
            ctx.violation(f"labelled input: wrong result {type(v)} {getattr(v, 'dims', None)}", ev); return
        st = A.stack(_s=oth) if oth else A.expand_dims(_s=1)
        sv = v.stack(_s=oth) if oth else v.expand_dims(_s=1)
        for j in range(st.sizes["_s"]):
            bj = {k: (x.isel({d: int(st["_s"].values[j][oth.index(d)]) for d in x.dims}).values.item() if isinstance(x, xr.DataArray) and k != "A_obs" else x) for k, x in b.items()}
            judge_series(ctx, ev, bj, st.isel(_s=j).values, sv.isel(_s=j).values, f"series {j}")
        ctx.tag("labelled:" + ev.name)
        return
    if not must_return(ctx, ev): return
    if np.shape(ev.value) != np.shape(A):
        ctx.violation(f"result has shape {np.shape(ev.value)}, expected {np.shape(A)}", ev); return
    judge_series(ctx, ev, b, np.asarray(A, float), ev.value, "array")
    ctx.tag("fn:" + ev.name, f"ndim{np.ndim(A)}")


def install(ctx):
    ctx.watch("pycomlink.processing.wet_antenna", "waa_leijnse_2008_from_A_obs", oracle, pure=True)
    ctx.watch("pycomlink.processing.wet_antenna", "waa_pastorek_2021_from_A_obs", oracle, pure=True)


def obs(rng, n):
    x = gen.pick(rng, [rng.exponential(4, n), 10 ** gen.uni(rng, -14, 2.5, n), rng.integers(0, 30, n).astype(float), gen.uni(rng, 0, 3, n)])
    x = np.array(x, float)
    x[rng.random(n) < .15] = 0
    if rng.random() < .5: x[rng.random(n) < .15] = np.nan
    return x


def case(ctx, rng, i):
    leij = i % 2 == 0
    fn = wa.waa_leijnse_2008_from_A_obs if leij else wa.waa_pastorek_2021_from_A_obs
    kw = {}
    opts = dict(T_K=float(gen.uni(rng, 272, 305)), gamma=float(gen.uni(rng, .5e-5, 4e-5)), delta=float(gen.uni(rng, .15, .4)),
                n_antenna=complex(gen.uni(rng, 1.4, 2.0), gen.uni(rng, 0, .03)), l_antenna=float(gen.uni(rng, 5e-4, 3e-3))) if leij else \
        dict(A_max=gen.pick(rng, [14, float(gen.uni(rng, 1, 20))]), zeta=float(gen.uni(rng, .3, .9)), d=float(gen.uni(rng, .02, .3)))
    for k, v in opts.items():
        if rng.random() < .4: kw[k] = v
    f = float(gen.uni(rng, 5e9, 90e9)); pol = gen.pick(rng, ["H", "V", "h", "v", "Horizontal", "vertical"]); L = gen.pick(rng, [float(gen.uni(rng, .3, 30)), 5])
    if i % 5 < 3:
        nd = int(gen.pick(rng, [0, 1, 1, 1, 2]))
        shape = tuple(int(rng.integers(1, 15)) for _ in range(nd))
        if gen.big(i): shape = (gen.big_n(rng, 40000),); nd = 1; ctx.tag("large")
        x = obs(rng, int(np.prod(shape, dtype=int)))
        if rng.random() < .12: x[int(rng.integers(len(x)))] = gen.pick(rng, [-1e-9, -3.0, -1e-3])
        if nd == 0: o = gen.pick(rng, [float(x[0]), np.float64(x[0])])
        elif nd == 1: o = gen.dress(rng, x, ("plain", "strided", "reversed", "readonly", "f4", "series", "offset"))[0]
        else: o = x.reshape(shape)
        ctx.quiet(fn, A_obs=o, f_Hz=f, pol=pol, L_km=L, **kw) if rng.random() < .6 else ctx.quiet(fn, o, f, pol, L, **kw)
    else:
        m, T = int(rng.integers(1, 5)), int(rng.integers(2, 12))
        if gen.big(i, 104): m = int(rng.integers(60, 200)); ctx.tag("many_links")
        if gen.big(i, 99): T = gen.big_n(rng, 12000); ctx.tag("large_labelled")
        A = xr.DataArray(np.array([obs(rng, T) for _ in range(m)]), dims=("cml_id", "time"), coords=dict(cml_id=np.arange(m), time=np.arange(T)))
        ff = xr.DataArray(gen.uni(rng, 5e9, 90e9, m), dims="cml_id", coords=dict(cml_id=np.arange(m))) if rng.random() < .7 else f
        pp = xr.DataArray(np.array([gen.pick(rng, ["H", "V"]) for _ in range(m)], dtype=object), dims="cml_id", coords=dict(cml_id=np.arange(m))) if rng.random() < .7 else pol
        LL = xr.DataArray(gen.uni(rng, .3, 30, m), dims="cml_id", coords=dict(cml_id=np.arange(m))) if rng.random() < .7 else L
        if rng.random() < .12: A[int(rng.integers(m)), int(rng.integers(T))] = -.5
        if rng.random() < .5: A = A.transpose("time", "cml_id")
        ctx.quiet(fn, A_obs=A, f_Hz=ff, pol=pp, L_km=LL, **kw)
