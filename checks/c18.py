"""C18 MLP wet/dry: own window cutting and own forward pass of the stored networks."""
import os, pickle
import numpy as np
import pandas as pd
import xarray as xr
from vlib import gen
from vlib.core import mismatch, must_return
import pycomlink.processing.wet_dry.mlp as mlp

NET = {}
NAMES = ("rg", "rad", "rg_online", "rad_online")


def load(ctx):
    d = os.path.join(ctx.repo, "pycomlink/processing/wet_dry/mlp_model_files")
    for k in NAMES:
        with open(os.path.join(d, f"model_{k}.pkl"), "rb") as f:
            m = pickle.load(f)
        NET[k] = ([np.array(c) for c in m.coefs_], [np.array(c) for c in m.intercepts_], m.activation, m.out_activation_)


def sig(x): return 1 / (1 + np.exp(-np.clip(x, -700, 700)))


def forward(name, X):
    W, B, act, out = NET[name]
    h = X
    for j, (w, b) in enumerate(zip(W, B)):
        h = h @ w + b
        if j < len(W) - 1: h = np.maximum(h, 0) if act == "relu" else sig(h)
    if out == "logistic": return sig(h)
    e = np.exp(h - h.max(1, keepdims=True)); return e / e.sum(1, keepdims=True)


def detrend(x):
    n = len(x); o = np.full(n, np.nan)
    for i in range(n):
        w = x[max(0, i - 360):i + 360]; w = w[~np.isnan(w)]
        if len(w) >= 120: o[i] = x[i] - np.median(w)
    return o


def rows(name, x1, x2):
    n = len(x1); X = np.full((n, 80), np.nan)
    if name.endswith("online"):
        for i in range(40, n):
            for c, x in ((0, x1), (40, x2)):
                w = x[i - 40:i + 1]; X[i, c:c + 40] = w[1:] - w[:-1]
    else:
        d1, d2 = detrend(x1), detrend(x2)
        for i in range(20, n - 19):
            X[i, :40] = d1[i - 20:i + 20]; X[i, 40:] = d2[i - 20:i + 20]
    return X


def oracle(ctx, ev):
    b = ev.bound(); name = b["model_sel"]
    if name not in NAMES:
        ctx.check(None if isinstance(ev.exc, ValueError) else f"unknown model {name!r}: expected ValueError, got {ev.exc!r}", ev); ctx.tag("unknown_model"); return
    x1, x2 = (np.asarray(b[k].values, float) for k in ("trsl_channel_1", "trsl_channel_2"))
    n = len(x1)
    if n < 41: return "skip"
    if not must_return(ctx, ev): return
    o = np.asarray(ev.value, float)
    if o.shape != (n, 2): ctx.violation(f"result has shape {o.shape} for {n} time steps", ev); return
    X = rows(name, x1, x2)
    ok = ~np.isnan(X).any(1)
    e = np.full((n, 2), np.nan)
    if ok.any(): e[ok] = forward(name, X[ok])
    if (np.isnan(o).any(1) != ~ok).any() or (np.isnan(o).all(1) != ~ok).any():
        k = int(np.flatnonzero((np.isnan(o).any(1) != ~ok) | (np.isnan(o).all(1) != ~ok))[0])
        ctx.violation(f"time step {k}: result {o[k].tolist()}, window {'complete' if ok[k] else 'incomplete'}", ev); return
    f4 = b["trsl_channel_1"].dtype == np.float32 or b["trsl_channel_2"].dtype == np.float32
    ctx.check(mismatch(o, e, 0, 2e-4 if f4 else 1e-8, what="probabilities"), ev)
    if ((o < 0) | (o > 1)).any(): ctx.violation("probability outside [0, 1]", ev)
    ctx.tag("model:" + name)
    if ok.any(): ctx.tag("predicted")
    if ok.any() and (~ok[40:-20]).any(): ctx.tag("gap")
    if not ok.any(): ctx.tag("nothing_predicted")
    if "model_sel" not in ev.kwargs and len(ev.args) < 3: ctx.tag("default_model")
    if n == 41: ctx.tag("shortest")
    if not name.endswith("online") and n > 720: ctx.tag("longer_than_median_window")


def install(ctx):
    load(ctx)
    ctx.watch("pycomlink.processing.wet_dry.mlp", "mlp_wet_dry", oracle)


def chan(rng, n):
    x = rng.uniform(30, 80) + rng.normal(0, gen.pick(rng, [.1, .3, 1.]), n) + gen.pick(rng, [0, 1]) * 2 * np.sin(np.arange(n) / rng.uniform(30, 300))
    for _ in range(int(rng.integers(0, 4))):
        s = int(rng.integers(0, n)); m = int(rng.integers(3, 80)); t = np.arange(len(x[s:s + m])); x[s:s + m] += rng.uniform(1, 25) * np.sin(np.pi * (t + .5) / m)
    if rng.random() < .3: x = np.round(x / .3) * .3
    k = rng.random()
    if k < .15: x[int(rng.integers(0, n))] = np.nan
    elif k < .3: s = int(rng.integers(0, n)); x[s:s + int(rng.integers(1, 60))] = np.nan
    elif k < .33: x[:] = np.nan
    elif k < .38: x[int(rng.integers(n // 2, n)):] = np.nan
    return x


def case(ctx, rng, i):
    name = NAMES[i % 4]
    online = name.endswith("online")
    n = int(gen.pick(rng, [41, 42, 60, int(rng.integers(41, 300)), int(rng.integers(41, 300))])) if online else int(gen.pick(rng, [41, 120, 130, int(rng.integers(120, 400)), int(rng.integers(700, 1000)), int(rng.integers(41, 1600))]))
    if gen.big(i, 40, 201): n = gen.big_n(rng, 45000, 9000 if i < 401 else 24000) if online else int(rng.integers(2000, 6000)); ctx.tag("large")
    t = pd.date_range("2019-05-01", periods=n, freq="1min")
    def da(x):
        c = {"time": t}
        if rng.random() < .3: c["channel_id"] = "c"; c["frequency"] = 18.
        if rng.random() < .1: x = x.astype(np.float32)
        return xr.DataArray(x, dims="time", coords=c)
    x1, x2 = chan(rng, n), chan(rng, n)
    if not online and rng.random() < .15:            # around the least number of values (2 h) for a median
        if n > 700: n = int(rng.integers(130, 700)); t = t[:n]
        m = min(n, int(gen.pick(rng, [119, 120, 121])))
        x1, x2 = (40 + rng.normal(0, .3, n) for _ in "ab")
        for x in gen.pick(rng, [(x1, x2), (x1,), (x2,)]):
            s = int(rng.integers(0, n - m + 1)); k = int(rng.integers(45, 75))
            if n - m > 100 and rng.random() < .5: q = np.r_[0:k, n - (m - k):n]      # two stretches far apart
            else: q = np.r_[s:s + m]
            y = x.copy(); x[:] = np.nan; x[q] = y[q]
        ctx.tag("least_values_for_median")
    a, b = da(x1), da(x2)
    if rng.random() < .3:
        ds = xr.Dataset({"trsl": (("channel_id", "time") if rng.random() < .5 else ("time", "channel_id"), np.stack([x1, x2]) )} if rng.random() < 0 else {"trsl": (("channel_id", "time"), np.stack([x1, x2]))}, coords={"time": t, "channel_id": ["c1", "c2"]})
        if rng.random() < .5: ds = ds.transpose("time", "channel_id")
        a, b = ds.trsl.isel(channel_id=0), ds.trsl.isel(channel_id=1)
    if rng.random() < .04:
        ctx.quiet(mlp.mlp_wet_dry, a, b, gen.pick(rng, ["foo", "", "RG", None, "rad_offline", "rg_onlin", "online"])); return
    r = ctx.quiet(mlp.mlp_wet_dry, a, b, name) if rng.random() < .5 else ctx.quiet(mlp.mlp_wet_dry, trsl_channel_1=a, trsl_channel_2=b, model_sel=name)
    if name == "rad_online" and rng.random() < .5: ctx.quiet(mlp.mlp_wet_dry, a, b)
    if r is not None and rng.random() < .2:
        r2 = ctx.quiet(mlp.mlp_wet_dry, a + 32., b - 8., name)
        if r2 is not None:
            ctx.check(mismatch(r2, r, 0, 2e-4 if a.dtype == np.float32 or b.dtype == np.float32 else 1e-7, what="after adding a constant to the channels")); ctx.tag("constant_added")
