"""C24 rainfall error metrics against their definitions."""
import math
import numpy as np
import pandas as pd
from vlib import gen
from vlib.core import must_return
from checks.c23 import shape, div
import pycomlink.validation.stats as st


def oracle(ctx, ev):
    b = ev.bound(); R, P_ = np.asarray(b["reference"]), np.asarray(b["predicted"]); thr = b["rainfall_threshold_wet"]
    if R.shape != P_.shape:
        ctx.check(None if ev.exc is not None else "arrays of different shape accepted", ev); ctx.tag("bad_shape"); return
    if not must_return(ctx, ev): return
    f4 = R.dtype == np.float32 or P_.dtype == np.float32
    r, p = R.ravel().astype(float), P_.ravel().astype(float)
    bad = [math.isnan(x) or math.isnan(y) for x, y in zip(r, p)]
    x = [float(v) for v, n in zip(r, bad) if not n]; y = [float(v) for v, n in zip(p, bad) if not n]
    n = len(x); S = math.fsum
    mean = lambda v: S(v) / len(v) if v else math.nan
    d = [q - w for q, w in zip(y, x)]
    mx, my, md = mean(x), mean(y), mean(d)
    sx, sy, sd = (math.sqrt(mean([(q - m) ** 2 for q in v])) if v else math.nan for v, m in ((x, mx), (y, my), (d, md)))
    e = dict(root_mean_square_error=math.sqrt(mean([q * q for q in d])) if n else math.nan, mean_absolute_error=mean([abs(q) for q in d]), R_sum_reference=S(x), R_sum_predicted=S(y), R_mean_reference=mx, R_mean_predicted=my)
    scale = max([abs(v) for v in x + y] + [1e-300])
    if n and mx != 0 and abs(mx) > 1e-12 * scale: e["coefficient_of_variation"] = sd / mx
    if n == 0: e["coefficient_of_variation"] = math.nan
    tiny = 1e-6 if f4 else 1e-9
    pear = math.nan
    if n > 1 and sx > tiny * scale and sy > tiny * scale: pear = mean([(q - mx) * (w - my) for q, w in zip(x, y)]) / (sx * sy); e["pearson_correlation"] = pear; ctx.tag("correlation")
    fw = [w for q, w in zip(x, y) if not q > thr and w > thr]; mw = [q for q, w in zip(x, y) if q > thr and not w > thr]
    nd = sum(not q > thr for q in x); nw = n - nd
    e.update(false_wet_rate=div(len(fw), nd), missed_wet_rate=div(len(mw), nw), false_wet_precipitation_rate=mean(fw), missed_wet_precipitation_rate=mean(mw), rainfall_threshold_wet=float(thr),
             N_all_pairs=R.size, N_nan_pairs=sum(bad), N_nan_reference_only=int(np.isnan(r).sum()), N_nan_predicted_only=int(np.isnan(p).sum()))
    if f4 and any(abs(q - thr) <= 1e-6 * max(1, abs(thr)) for q in x + y):    # comparison at single precision
        for k in ("false_wet_rate", "missed_wet_rate", "false_wet_precipitation_rate", "missed_wet_precipitation_rate"): e.pop(k)
    rt = 2e-4 if f4 else 1e-8
    for k, v in e.items():
        a = float(getattr(ev.value, k))
        ok = (math.isnan(a) and math.isnan(v)) or a == v or abs(a - v) <= rt * max(abs(v), 1e-30) + (tiny * scale * max(n, 1) if k.startswith(("R_", "root", "mean", "coeff")) else 0) + (1e-6 if k == "pearson_correlation" else 0)
        if not ok: ctx.violation(f"{k} is {a!r}, expected {v!r}", ev); return
    if sum(bad): ctx.tag("nan_pairs")
    if fw: ctx.tag("false_wet")
    if mw: ctx.tag("missed_wet")
    if any(q == thr for q in x) or any(w == thr for w in y): ctx.tag("at_threshold")
    if mx < 0: ctx.tag("negative_mean")
    if n == 0: ctx.tag("no_valid_pair")
    if n and nw == 0: ctx.tag("no_wet_reference")
    if n and nd == 0: ctx.tag("no_dry_reference")
    ctx.tag(f"ndim{R.ndim}")


def install(ctx):
    ctx.watch("pycomlink.validation.stats", "calc_rain_error_performance_metrics", oracle)


def rain(rng, s):
    x = np.where(rng.random(s) < gen.pick(rng, [.2, .6, 1.]), rng.gamma(.5, gen.pick(rng, [.1, 2, 20]), s), 0.)
    k = rng.random()
    if k < .3: x = np.round(x, 1)
    elif k < .4: return np.round(x).astype(gen.pick(rng, [np.int64, np.int32]))
    elif k < .45: x[...] = .5
    if rng.random() < .08: x = x - gen.pick(rng, [.2, 5., 50.])        # differences and anomalies are below zero
    if rng.random() < .4: x[rng.random(s) < gen.pick(rng, [.05, .4, 1.])] = np.nan
    return x.astype(np.float32) if rng.random() < .1 else x


def case(ctx, rng, i):
    s = shape(rng) if not gen.big(i, 100, 500) else gen.pick(rng, [(gen.big_n(rng, 150000),), (int(rng.integers(100, 300)), int(rng.integers(100, 300)))])
    if gen.big(i, 100, 500): ctx.tag("large")
    r, p = rain(rng, s), rain(rng, s)
    k = rng.random()
    if k < .1: p = r.copy()
    elif k < .3: p = r * rng.uniform(.3, 2)
    thr = gen.pick(rng, [0, .1, .1, .5, 1, float(rng.uniform(0, 3)), 1000, -1.])
    if np.size(r) and rng.random() < .2 and np.isfinite(np.asarray(r).ravel()[0]): thr = float(np.asarray(r).ravel()[0])
    if len(s) == 1 and rng.random() < .2: r, p = pd.Series(r), pd.Series(p)
    elif rng.random() < .2: r = np.asfortranarray(r)
    if rng.random() < .03: p = np.zeros(tuple(s) + (2,))
    v = ctx.quiet(st.calc_rain_error_performance_metrics, r, p, thr) if rng.random() < .5 else ctx.quiet(st.calc_rain_error_performance_metrics, reference=r, predicted=p, rainfall_threshold_wet=thr)
    if v is not None and i % 4 == 0:
        # the threshold only touches the wet/dry figures; the order of the pairs does not matter
        v2 = ctx.quiet(st.calc_rain_error_performance_metrics, r, p, thr + .7)
        if v2 is not None:
            for k in ("pearson_correlation", "coefficient_of_variation", "root_mean_square_error", "mean_absolute_error", "R_sum_reference", "R_sum_predicted", "N_nan_pairs"):
                a, b = float(getattr(v, k)), float(getattr(v2, k))
                if not (a == b or (math.isnan(a) and math.isnan(b))): ctx.violation(f"{k} depends on the threshold: {a!r} {b!r}")
            ctx.tag("threshold_pair")
        if len(s) == 1 and np.shape(p) == np.shape(r): q = rng.permutation(s[0]); ctx.quiet(st.calc_rain_error_performance_metrics, np.asarray(r)[q], np.asarray(p)[q], thr)
