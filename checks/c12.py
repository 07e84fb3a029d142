"""C12 nearby-link reference level, correction and rain retrieval."""
import itertools
import numpy as np
import xarray as xr
from vlib import gen, ref
from vlib.core import mismatch, must_return
import pycomlink.processing.nearby_rain_retrival as nr


def aligned(*das):
    das = [d if isinstance(d, xr.DataArray) else xr.DataArray(d) for d in das]
    b = xr.broadcast(*das)
    return [x.transpose(*b[0].dims) for x in b]


def like(ctx, ev, v, dims, nm):
    if not isinstance(v, xr.DataArray) or set(v.dims) != set(dims):
        ctx.violation(f"{nm}: dims {getattr(v, 'dims', type(v))}, expected {dims}", ev); return None
    return v.transpose(*dims).values


def o_ref(ctx, ev):
    b = ev.bound()
    if not must_return(ctx, ev): return
    pmin, pmax, wet = aligned(b["pmin"], b["pmax"], b["wet"])
    ax = pmin.dims.index("time")
    n, mp = int(b["n_average_dry"]), int(b["min_periods"])
    mean = np.moveaxis((pmin.values + pmax.values) / 2, ax, -1)
    w = np.moveaxis(wet.values.astype(float), ax, -1)
    mean = np.where(w == 0, mean, np.nan)
    exp = np.full(mean.shape, np.nan)
    for idx in itertools.product(*[range(s) for s in mean.shape[:-1]]):
        s = mean[idx]
        for t in range(len(s)):
            x = s[max(0, t - n + 1):t + 1]; x = np.sort(x[~np.isnan(x)])
            if len(x) >= mp and len(x): exp[idx + (t,)] = x[len(x) // 2] if len(x) % 2 else (x[len(x) // 2 - 1] + x[len(x) // 2]) / 2
    v = like(ctx, ev, ev.value, pmin.dims, "reference level")
    if v is not None: ctx.check(mismatch(np.moveaxis(v, ax, -1), exp, what="reference level"), ev)
    if np.isnan(exp).any(): ctx.tag("ref_missing")
    if (~np.isnan(exp) & (w == 1)).any(): ctx.tag("ref_in_wet_step")
    if np.isnan(w).any(): ctx.tag("ref_wet_nan")
    if n < mean.shape[-1]: ctx.tag("ref_window_shorter_than_series")
    if mp > 1: ctx.tag("ref_min_periods>1")


def o_corr(ctx, ev):
    b = ev.bound()
    if not must_return(ctx, ev): return
    pmin, pmax, wet, pref = aligned(b["pmin"], b["pmax"], b["wet"], b["pref"])
    dims = pmin.dims
    a, x, w, r = (z.values.astype(float) for z in (pmin, pmax, wet, pref))
    with np.errstate(invalid="ignore"):
        e1 = np.where((w == 1) & (a < r), a, r)
        e2 = np.where((e1 < r) & (x < r), x, r)
    if not (isinstance(ev.value, tuple) and len(ev.value) == 2): ctx.violation("not two results", ev); return
    for nm, v, e in zip(("p_c_min", "p_c_max"), ev.value, (e1, e2)):
        v = like(ctx, ev, v, dims, nm)
        if v is not None: ctx.check(mismatch(v, e, rtol=0, atol=0, what=nm), ev)
    if ((w == 1) & (a < r)).any(): ctx.tag("corr_wet_below")
    if ((w == 1) & (a >= r)).any(): ctx.tag("corr_wet_above")
    if ((w != 1) & (a < r)).any(): ctx.tag("corr_dry_below")
    if ((e1 < r) & (x >= r)).any(): ctx.tag("corr_max_above")
    if ((a == r) & (w == 1)).any(): ctx.tag("corr_equal")
    if np.isnan(a).any(): ctx.tag("corr_nan")


def o_rain(ctx, ev):
    b = ev.bound()
    have = [b[k] is not None for k in ("f_GHz", "pol", "a", "b")]
    if have not in ([True, True, False, False], [False, False, True, True]):
        ctx.tag("rain_bad_combination")
        if not isinstance(ev.exc, ValueError): ctx.violation("wrong combination of f_GHz/pol/a/b did not raise ValueError", ev)
        return
    if not must_return(ctx, ev): return
    names = ["pref", "p_c_min", "p_c_max", "F", "length"] + (["f_GHz", "pol"] if have[0] else ["a", "b"]) + ["waa_max", "alpha"]
    lab = any(isinstance(b[k], xr.DataArray) for k in names)
    vals = aligned(*[b[k] if isinstance(b[k], xr.DataArray) or not np.ndim(b[k]) else xr.DataArray(b[k], dims="time") for k in names])
    dims = vals[0].dims
    D = dict(zip(names, [v.values for v in vals]))
    thr = b["F_value_threshold"]
    exp = np.full(D["pref"].shape, np.nan)
    zero_must = np.zeros(exp.shape, bool)
    for idx in itertools.product(*[range(s) for s in exp.shape]):
        p, lo, hi, F = (float(D[k][idx]) for k in ("pref", "p_c_min", "p_c_max", "F"))
        a, bb = ref.itu_ab(float(D["f_GHz"][idx]), str(D["pol"][idx]), b["a_b_approximation"]) if have[0] else (float(D["a"][idx]), float(D["b"][idx]))
        L, wm, al = float(D["length"][idx]), float(D["waa_max"][idx]), float(D["alpha"][idx])
        if thr is not None and F <= thr: ctx_t = "rain_outlier"; continue
        if p != p or lo != lo or hi != hi: continue
        pw = lambda A: ref.rain_rate(max(A, 0.0), L, a, bb, 0.0)
        exp[idx] = al * pw(p - lo - wm) + (1 - al) * pw(p - hi - wm)
    v = like(ctx, ev, ev.value, dims, "rain rate") if lab else np.asarray(ev.value)
    if v is None: return
    # near the clipping point the rounding of p - lo - wm matters (a^(1/b) of ~0): absolute slack
    ctx.check(mismatch(v, exp, rtol=1e-7, atol=1e-9, what="rain rate"), ev)
    vv = np.asarray(v, float)
    if (vv < 0).any(): ctx.violation("negative rain rate", ev)
    z = (D["p_c_min"] == D["pref"]) & (D["p_c_max"] == D["pref"]) & (D["waa_max"].astype(float) >= 0)
    if (vv[z & ~np.isnan(exp)] != 0).any(): ctx.violation("rain without signal drop", ev)
    if (exp > 0).any(): ctx.tag("rain_positive")
    if (exp == 0).any(): ctx.tag("rain_zero")
    if thr is None: ctx.tag("rain_no_threshold")
    elif (D["F"] <= thr).any(): ctx.tag("rain_outlier")
    if thr is not None and (D["F"] == thr).any(): ctx.tag("rain_F_at_threshold")
    if np.isnan(D["pref"].astype(float)).any(): ctx.tag("rain_missing_ref")
    ctx.tag("rain_by_f" if have[0] else "rain_by_ab", f"rain_ndim{exp.ndim}")


def install(ctx):
    m = "pycomlink.processing.nearby_rain_retrival"
    ctx.watch(m, "nearby_determine_reference_level", o_ref, pure=True)
    ctx.watch(m, "nearby_correct_received_signals", o_corr, pure=True)
    ctx.watch(m, "nearby_rainfall_retrival", o_rain, pure=True)


def case(ctx, rng, i):
    T = int(rng.integers(2, 40))
    large = gen.big(i)
    if large: T = int(rng.integers(1000, 6000)); ctx.tag("large")
    dims = ["time"] + list(rng.permutation(["cml_id", "channel_id"]))[:int(gen.pick(rng, [0, 1, 1, 2]))]
    sz = {"time": T, **{d: int(rng.integers(1, 4)) for d in dims[1:]}}
    if gen.big(i, 200) and len(dims) > 1: sz[dims[1]] = int(rng.integers(60, 200)); ctx.tag("many_links")
    co = {d: (gen.times(rng, T) if d == "time" else gen.ids(rng, sz[d])) for d in dims}
    mk = lambda a, dd=dims: xr.DataArray(a, dims=dd, coords={d: co[d] for d in dd})
    sh = [sz[d] for d in dims]
    q = rng.random() < .5
    pmax = -45 + (rng.integers(-12, 5, sh) * .25 if q else rng.normal(-2, 2, sh))
    pmin = pmax - (rng.integers(0, 30, sh) * .25 if q else rng.exponential(3, sh))
    for a in (pmin, pmax):
        if rng.random() < .4: a[rng.random(sh) < .1] = np.nan
    if rng.random() < .15: pmax = pmin.copy()
    wet = np.stack([gen.wet_flags(rng, T) for _ in range(int(np.prod(sh[1:], dtype=int)))], -1).reshape(sh)
    pm, px, w = mk(pmin), mk(pmax), mk(wet)
    if not np.isnan(wet).any() and rng.random() < .5: w = w.astype(bool)
    perm = list(rng.permutation(dims))
    if rng.random() < .5: pm = pm.transpose(*perm); px = px.transpose(*perm); w = w.transpose(*perm)
    kw = {}
    if rng.random() < .8: kw["n_average_dry"] = int(gen.pick(rng, [1, 2, 3, 5, 10, T]))
    if rng.random() < .5: kw["min_periods"] = int(rng.integers(1, min(kw.get("n_average_dry", 96), 6) + 1))
    pref = ctx.quiet(nr.nearby_determine_reference_level, pm, px, w, **kw)
    if pref is None: return
    if rng.random() < .2: pref = mk(-47 + rng.integers(-4, 5, sh) * .25)
    c = ctx.quiet(nr.nearby_correct_received_signals, pm, px, w, pref) if rng.random() < .5 else ctx.quiet(nr.nearby_correct_received_signals, pmin=pm, pmax=px, wet=w, pref=pref)
    if c is None: return
    lo, hi = c
    F = mk(rng.normal(-25, 20, sh)); F = F.where(rng.random(sh) > .1)
    kw = {}
    if rng.random() < .5: kw["F_value_threshold"] = gen.pick(rng, [None, -32.5, -20.0, 0])
    if rng.random() < .4: F = F.where(rng.random(sh) > .2, -32.5 if kw.get("F_value_threshold", -32.5) is None else kw.get("F_value_threshold", -32.5))
    if rng.random() < .4: kw["waa_max"] = float(gen.pick(rng, [0., 2.3, gen.uni(rng, 0, 5)]))
    if rng.random() < .4: kw["alpha"] = float(gen.pick(rng, [0., 1., gen.uni(rng, 0, 1)]))
    def par(f):
        if len(dims) > 1 and rng.random() < .7:
            dd = [dims[1]]; return xr.DataArray(np.array([f() for _ in range(sz[dims[1]])]), dims=dd, coords={dims[1]: co[dims[1]]})
        return f()
    L = par(lambda: float(gen.uni(rng, .3, 20)))
    if i % 10 == 0:
        full = dict(f_GHz=20., pol="H", a=.1, b=1.); m = rng.random(4) < .5
        bad = {k: v for (k, v), x in zip(full.items(), m) if x}
        ctx.quiet(nr.nearby_rainfall_retrival, pref, lo, hi, F, L, **bad)
    if rng.random() < .5:
        kw.update(f_GHz=par(lambda: float(gen.uni(rng, 5, 80))), pol=par(lambda: gen.pick(rng, ["H", "V"])))
        if rng.random() < .5: kw["a_b_approximation"] = gen.pick(rng, ["ITU_2003", "ITU_2005"])
    else: kw.update(a=par(lambda: float(gen.uni(rng, .01, 1))), b=par(lambda: float(gen.uni(rng, .7, 1.3))))
    if rng.random() < .3 and len(dims) == 1: pref, lo, hi, F = (z.values for z in (pref, lo, hi, F))
    ctx.quiet(nr.nearby_rainfall_retrival, pref=pref, p_c_min=lo, p_c_max=hi, F=F, length=L, **kw) if rng.random() < .5 else ctx.quiet(nr.nearby_rainfall_retrival, pref, lo, hi, F, L, **kw)
