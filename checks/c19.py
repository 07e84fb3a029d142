"""C19 PyTorch CNN pipeline: models whose output identifies the window they saw."""
import os
import numpy as np
import pandas as pd
import torch
import xarray as xr
from vlib import gen
from vlib.core import mismatch, must_return
import pycomlink.processing.pytorch_utils.run_inference as ri
import pycomlink.processing.pytorch_utils.pytorch_utils as pu

torch.set_num_threads(1)
M = "pycomlink.processing.pytorch_utils."


def f32(x): return np.asarray(x, np.float32)


def per_link(data, k):
    """(time, channel) values of link number k"""
    d = data.isel(cml_id=k)
    return np.asarray(d.values), np.asarray(data["time"].values)


def windows(x, ws, r):
    """[(target index, window)]"""
    return [(e - int(r / 2), x[e - ws:e]) for e in range(ws, len(x) + 1)]


# ---- models -----------------------------------------------------------------
class Lin(torch.nn.Module):
    def __init__(self, w, squeeze: bool):
        super().__init__(); self.w = torch.nn.Parameter(torch.tensor(w, dtype=torch.float32)); self.squeeze = squeeze

    def forward(self, x):
        y = (x * self.w).sum(dim=[1, 2])
        if self.training: y = y * 3 + 1000      # as drop-out or batch normalisation, active while training only
        if self.squeeze: return y
        return y.unsqueeze(1)


class Recording(torch.nn.Module):
    def __init__(self, w, squeeze, ws=None):
        super().__init__(); self.w = torch.tensor(w, dtype=torch.float32); self.squeeze = squeeze; self.seen = []
        if ws is not None: self.window_size = ws

    def forward(self, x):
        self.seen.append(x.detach().clone().numpy())
        y = (x * self.w).sum(dim=[1, 2])
        return y if self.squeeze else y.unsqueeze(1)


def expected(data, ws, r, w):
    """predictions (time, cml) by the definition; w is (channel, window)"""
    n, m = data.sizes["time"], data.sizes["cml_id"]
    e = np.full((n, m), np.nan)
    for k in range(m):
        x, _ = per_link(data, k)
        for t, win in windows(x, ws, r):
            if 0 <= t < n: e[t, k] = float((f32(win).T.astype(float) * f32(w).astype(float)).sum())
    return e


# ---- oracles ----------------------------------------------------------------
def o_roll(ctx, ev):
    b = ev.bound(); x, t, ws, r = b["timeseries"], b["valid_times"], int(b["window_size"]), b["reflength"]
    if ws <= 0 or len(t) != len(x): return "skip"
    if int(r / 2) < 1 or int(r / 2) > ws: return "skip"
    if not must_return(ctx, ev): return
    s, ti = ev.value
    e = windows(np.asarray(x), ws, r)
    if len(s) != len(e) or len(ti) != len(e): ctx.violation(f"{len(s)} windows and {len(ti)} times for {len(e)} positions", ev); return
    for j, (tt, win) in enumerate(e):
        if mismatch(s[j], win, 0, 0) or ti[j] != t[tt]: ctx.violation(f"window {j}: expected samples ending before {tt + int(r / 2)} for time index {tt}, got time {ti[j]!r}", ev); return
    ctx.tag("rolling")
    if len(x) < ws: ctx.tag("rolling_too_short")


def o_batch(ctx, ev):
    b = ev.bound(); data, ws, r = b["data"], int(b["window_size"]), b["reflength"]
    if data.sizes["time"] < ws: return "skip"
    if not must_return(ctx, ev): return
    d = ev.value; j = 0
    ids = data["cml_id"].values
    n = sum(max(0, data.sizes["time"] - ws + 1) for _ in ids)
    if not (len(d["cml_id"]) == len(d["time"]) == len(d["data"]) == n): ctx.violation(f"{len(d['cml_id'])}/{len(d['time'])}/{len(d['data'])} samples, expected {n}", ev); return
    # every (link, window) exactly once, whatever the order
    want = {}
    for k, c in enumerate(ids):
        x, t = per_link(data, k)
        for tt, win in windows(x, ws, r): want[(c, t[tt].astype("int64") if hasattr(t[tt], "astype") else t[tt])] = win
    got = set()
    for c, t, win in zip(d["cml_id"], d["time"], d["data"]):
        key = (c, t.astype("int64") if hasattr(t, "astype") else t)
        if key not in want: ctx.violation(f"sample for unknown link/time {key}", ev); return
        if key in got: ctx.violation(f"sample for {key} appears twice", ev); return
        got.add(key)
        m = mismatch(win, want[key], 0, 0, what=f"window of {key}")
        if m: ctx.violation(m, ev); return
    ctx.tag("batchify")


def o_loader(ctx, ev):
    b = ev.bound(); cs = b["combined_samples"]
    if not must_return(ctx, ev): return
    dl, ids, times = ev.value
    got = [np.asarray(x) for x in dl]
    bs = b["batch_size"]
    if any(len(g) > bs for g in got): ctx.violation(f"batch larger than {bs}", ev); return
    ctx.check(mismatch(np.concatenate(got), np.transpose(f32(cs["data"]), (0, 2, 1)), 0, 0, what="batched samples"), ev)
    ctx.check(mismatch(ids, cs["cml_id"], what="ids"), ev); ctx.check(None if len(times) == len(cs["time"]) and all(p == q for p, q in zip(times, cs["time"])) else "times changed", ev)
    ctx.tag("loader"); ctx.tag("several_batches" if len(got) > 1 else "one_batch")
    if len(got[-1]) < bs and len(got) > 1: ctx.tag("partial_batch")


def o_run(ctx, ev):
    b = ev.bound(); model, data, r = ev.raw_args[0] if ev.raw_args else ev.raw_kwargs["model"], b["data"], b["reflength"]
    ws = getattr(model, "window_size", 180); w = getattr(model, "_w", None)
    if w is None or data.sizes["time"] < ws: return "skip"
    if not must_return(ctx, ev): return
    res = ev.value; p = np.asarray(res["predictions"]); n = data.sizes["time"]; ids = data["cml_id"].values
    if not (len(p) == len(res["cml_ids"]) == len(res["times"]) == len(ids) * (n - ws + 1)): ctx.violation(f"{len(p)} predictions for {len(ids) * (n - ws + 1)} windows", ev); return
    e = expected(data, ws, r, w); t = data["time"].values
    ti = {v: k for k, v in enumerate(t.astype("int64").tolist())}; ci = {c: k for k, c in enumerate(ids.tolist())}
    seen = set()
    for c, tt, v in zip(np.asarray(res["cml_ids"]).tolist(), np.asarray(res["times"]).astype("int64").tolist(), p.reshape(len(p), -1)[:, 0]):
        if c not in ci or tt not in ti or (c, tt) in seen: ctx.violation(f"prediction for unknown or repeated link/time {(c, tt)}", ev); return
        seen.add((c, tt))
        x = e[ti[tt], ci[c]]
        if not (abs(v - x) <= 1e-3 + 1e-4 * abs(x) or (np.isnan(v) and np.isnan(x))): ctx.violation(f"link {c} time {tt}: prediction {v!r}, its window gives {x!r}", ev); return
    if isinstance(model, Recording):
        rows = np.concatenate(model.seen) if model.seen else np.zeros((0,))
        exp = []
        for k in range(len(ids)):
            exp += [f32(win).T for _, win in windows(per_link(data, k)[0], ws, r)]
        exp = np.stack(exp)
        if rows.shape != exp.shape: ctx.violation(f"model saw {rows.shape}, expected {exp.shape}", ev); return
        key = lambda a: sorted(x.tobytes() for x in np.nan_to_num(a, nan=-9e9))
        if key(rows) != key(exp): ctx.violation("the windows shown to the model are not each window exactly once", ev)
        if max(map(len, model.seen)) > b["batch_size"]: ctx.violation("model saw a batch larger than batch_size", ev)
        ctx.tag("recorded")
    ctx.tag("run")


def judge_map(ctx, ev, ds, pred, e, tag):
    if set(pred.dims) != {"time", "cml_id"}: ctx.violation(f"predictions have dimensions {pred.dims}", ev); return
    pred = pred.transpose("time", "cml_id")
    if mismatch(pred["time"].values, ds["time"].values) or mismatch(pred["cml_id"].values, ds["cml_id"].values): ctx.violation("coordinates of the predictions differ from the data", ev); return
    ctx.check(mismatch(pred.values, e, 1e-4, 1e-3, what="predictions(time, cml_id)"), ev); ctx.tag(tag)


def o_redis(ctx, ev):
    b = ev.bound(); res, data = b["results"], b["data"]
    if not must_return(ctx, ev): return
    t = {v: k for k, v in enumerate(data["time"].values.astype("int64").tolist())}; c = {v: k for k, v in enumerate(data["cml_id"].values.tolist())}
    e = np.full((len(t), len(c)), np.nan)
    for ci, ti, v in zip(np.asarray(res["cml_ids"]).tolist(), np.asarray(res["times"]).astype("int64").tolist(), np.asarray(res["predictions"]).reshape(len(res["cml_ids"]), -1)[:, 0]):
        if ci in c and ti in t: e[t[ti], c[ci]] = v
        else: ctx.tag("unknown_skipped")
    judge_map(ctx, ev, data, ev.value["predictions"], e, "redistributed")
    kept(ctx, ev, data)


def kept(ctx, ev, ds):
    for v in ds.variables:
        if v not in ev.value.variables or mismatch(ev.value[v].values, ds[v].values, 0, 0) or ev.value[v].dims != ds[v].dims: ctx.violation(f"variable {v} of the input changed or missing", ev); return


def o_cnn(ctx, ev):
    b = ev.bound(); data = b["data"]
    w = W180.get(os.path.basename(str(b["model_path_or_url"])))
    if w is None or data.sizes["time"] < 180 or w.shape[0] != data.sizes["channel"]: return "skip"
    if not must_return(ctx, ev): return
    judge_map(ctx, ev, data, ev.value["predictions"], expected(data, 180, b["reflength"], w), "cnn_wd")
    ds = data.to_dataset(name="TL"); kept(ctx, ev, ds)


W180 = {}


def install(ctx):
    ctx.watch(M + "run_inference", "rolling_window", o_roll)
    ctx.watch(M + "run_inference", "batchify_windows", o_batch)
    ctx.watch(M + "pytorch_utils", "build_dataloader", o_loader)
    ctx.watch(M + "run_inference", "build_dataloader", o_loader, optional=True)
    ctx.watch(M + "run_inference", "run_inference", o_run)
    ctx.watch(M + "run_inference", "redistribute_results", o_redis)
    ctx.watch(M + "run_inference", "cnn_wd", o_cnn)
    models(ctx)


def models(ctx):
    g = np.random.default_rng(5)
    for ch in (1, 2, 3):
        for sq in (True, False):
            w = g.normal(0, .2, (ch, 180)); fn = f"m{ch}{'s' if sq else ''}.pt"
            torch.jit.script(Lin(w, sq)).save(os.path.join(ctx.scratch, fn)); W180[fn] = w


def make(rng, n, m, ch):
    ids = gen.ids(rng, m)
    t = gen.times(rng, n).values
    if rng.random() < .2: t = t[rng.permutation(n)]
    x = rng.normal(50, 10, (m, n, ch))
    if rng.random() < .3: x[rng.random(x.shape) < .02] = np.nan
    if rng.random() < .2: x = x.astype(np.float32)
    dims = ("cml_id", "time", "channel") if rng.random() < .5 else ("time", "cml_id", "channel")
    if dims[0] == "time": x = x.transpose(1, 0, 2)
    c = {"time": t, "cml_id": ids}
    if rng.random() < .7: c["channel"] = np.arange(ch) + 1
    if rng.random() < .5: c["length"] = ("cml_id", rng.uniform(1, 20, m))
    return xr.DataArray(x, dims=dims, coords=c, name=gen.pick(rng, [None, "TL", "foo"]))


def case(ctx, rng, i):
    k = i % 4
    if k == 0:   # full entry point
        ch = int(rng.integers(1, 4)); n = int(gen.pick(rng, [180, 181, 200, int(rng.integers(180, 260))])); m = int(rng.integers(1, 4))
        if gen.big(i, 40, 160): n = int(rng.integers(700, 1400)); m = int(rng.integers(2, 5)); ctx.tag("large")
        d = make(rng, n, m, ch)
        fn = os.path.join(ctx.scratch, f"m{ch}{'s' if rng.random() < .5 else ''}.pt")
        kw = dict(batch_size=int(gen.pick(rng, [1, 7, 32, 50, 10000])), reflength=int(gen.pick(rng, [2, 10, 60, 61, 180, 360])))
        if rng.random() < .3: kw.pop("batch_size")
        if rng.random() < .3: kw.pop("reflength")
        ctx.quiet(ri.cnn_wd, fn, d, **kw); return
    n = int(rng.integers(1, 60)); m = int(rng.integers(1, 6)); ch = int(rng.integers(1, 4)); ws = int(rng.integers(1, n + 1))
    if gen.big(i, 41, 160): n = int(rng.integers(600, 1500)); ws = int(rng.integers(2, 30)); m = int(rng.integers(2, 40)); m = min(m, 9000 // n); ctx.tag("large")
    r = int(rng.integers(2, 2 * ws + 1)) if ws > 1 else 2
    if i % 320 == 75:
        T = gen.big_n(rng, 60000, 20000); x = rng.normal(size=(T, ch)); ws = int(rng.integers(2, 9))
        ctx.quiet(ri.rolling_window, x, np.datetime64("2019-01-01", "ns") + np.arange(T) * np.timedelta64(60, "s"), ws, int(rng.integers(2, 2 * ws + 1))); ctx.tag("long_series"); return
    d = make(rng, n, m, ch)
    if k in (1, 2):
        w = rng.normal(0, .3, (ch, ws)); mod = Recording(w, rng.random() < .5, ws); mod._w = w
        if rng.random() < .3: mod.eval()
        N = m * (n - ws + 1)
        bs = int(gen.pick(rng, [1, 3, 32, 5, 1000, max(1, n - ws + 1), N, N + 1]))
        if N > 3 and rng.random() < (.25 if N < 500 else .7):      # the last batch has exactly one window, or lacks one
            d0 = [q for q in range(2, min(N, 3000)) if N % q == gen.pick(rng, [1, 0, 1, q - 1])]
            if d0: bs = int(gen.pick(rng, d0)); ctx.tag("last_batch_edge")
        res = ctx.quiet(ri.run_inference, mod, d, bs, r) if rng.random() < .5 else ctx.quiet(ri.run_inference, model=mod, data=d, batch_size=bs, reflength=r)
        cs = ctx.quiet(ri.batchify_windows, d, ws, r)
        if cs is not None: ctx.quiet(pu.build_dataloader, cs, bs)
        if res is not None: ctx.quiet(ri.redistribute_results, res, d.to_dataset(name="TL"))
    else:
        N = int(rng.integers(1, 40)); ds = d.to_dataset(name="TL")
        cell = rng.permutation(n * m)[:N]
        ids = d.cml_id.values[cell % m]; t = d.time.values[cell // m]
        if rng.random() < .3 and len(cell):
            j = int(rng.integers(len(cell)))
            if rng.random() < .5: t = t.copy(); t[j] = np.datetime64("1970-01-05")
            else: ids = ids.copy(); ids[j] = 99999 if ids.dtype.kind == "i" else "?"
        p = rng.normal(size=len(cell)); p = p.reshape(gen.pick(rng, [(-1,), (-1, 1)])).astype(np.float32)
        ctx.quiet(ri.redistribute_results, dict(predictions=p, cml_ids=ids, times=t), ds)
        x = d.isel(cml_id=0); ctx.quiet(ri.rolling_window, gen.pick(rng, [x.values, list(x.values[:, 0])]), gen.pick(rng, [x.time.values, list(range(n))]), gen.pick(rng, [ws, n, n + 1]), r)
