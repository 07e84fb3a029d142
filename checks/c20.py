"""C20 TensorFlow CNN pipeline: every prediction belongs to its own window."""
import os
import numpy as np
import xarray as xr
from vlib import gen
from vlib.core import mismatch, must_return
import pycomlink.processing.tensorflow_utils.inference_utils as iu
import pycomlink.processing.tensorflow_utils.run_inference as ri

M = "pycomlink.processing.tensorflow_utils."
MODELS = {}
CFG = [(1, 1), (2, 4), (2, 7), (3, 5), (1, 12), (2, 180)]


def samples(ds, ids, vars_, L, td, cd):
    """[(id, time index, window (L, vars))] by the definition"""
    out = []
    known = ds[cd].values.tolist()
    for c in np.asarray(ids).tolist():
        if c not in known or any(v not in ds for v in vars_): continue
        x = np.stack([np.asarray(ds[v].isel({cd: known.index(c)}).values, np.float32) for v in vars_], -1)
        for t in range(L - 1, len(x)):
            w = x[t + 1 - L:t + 1]
            if np.isfinite(w).all(): out.append((c, t, w))
    return out


def scaled(X):
    X = np.asarray(X, np.float64); o = np.zeros_like(X)
    for v in range(X.shape[2]):
        x = X[:, :, v]; s = x.std()
        o[:, :, v] = (x - x.mean()) / (s if s > 0 else 1.0)
    return o


def o_create(ctx, ev):
    b = ev.bound()
    if not must_return(ctx, ev): return
    e = samples(b["ds"], b["cml_ids"], b["input_vars"], b["seq_len"], b["time_dim"], b["cml_dim"])
    X, ids, ti = ev.value
    if not (len(X) == len(ids) == len(ti) == len(e)): ctx.violation(f"{len(X)} samples, {len(ids)} ids, {len(ti)} times, expected {len(e)}", ev); return
    got = {}
    for x, c, t in zip(X, np.asarray(ids).tolist(), np.asarray(ti).tolist()):
        if (c, t) in got: ctx.violation(f"sample {(c, t)} twice", ev); return
        got[(c, t)] = x
    for c, t, w in e:
        if (c, t) not in got: ctx.violation(f"sample of link {c!r} at time index {t} missing", ev); return
        m = mismatch(got[(c, t)], w, 0, 0, what=f"sample of link {c!r} ending at {t}")
        if m: ctx.violation(m, ev); return
    ctx.tag("create" if e else "create_none")
    ds, cd, td = b["ds"], b["cml_dim"], b["time_dim"]
    nwin = sum(c in ds[cd].values.tolist() for c in np.asarray(b["cml_ids"]).tolist()) * max(0, ds.sizes[td] - b["seq_len"] + 1)
    if 0 < len(e) < nwin: ctx.tag("create_gaps")
    if any(c not in ds[cd].values.tolist() for c in np.asarray(b["cml_ids"]).tolist()) and e: ctx.tag("create_unknown")
    if cd != "cml_id": ctx.tag("other_id_dim")


def o_scale(ctx, ev):
    b = ev.bound(); X = b["input_seq"]
    if len(b["input_vars"]) != X.shape[2] or len(X) == 0: return "skip"
    if not must_return(ctx, ev): return
    o = np.asarray(ev.value)
    e = scaled(X)
    lvl = np.abs(np.asarray(X, float)).max(axis=(0, 1)); sd = np.asarray(X, float).std(axis=(0, 1))
    skip = np.zeros(X.shape, bool)
    skip[:, :, (sd > 0) & (sd < 1e-4 * lvl)] = True       # float32 input carries no such variation
    ctx.check(mismatch(o, e, 1e-3, 2e-3, ignore=skip, what="scaled features"), ev); ctx.tag("scale")
    if (sd == 0).any(): ctx.tag("scale_constant")


def o_store(ctx, ev):
    b = ev.bound(); ds = b["ds"]; td, cd = b["time_dim"], b["cml_dim"]
    p, c, t = np.asarray(b["model_prob"], np.float32).ravel(), np.asarray(b["cml_ids"]).ravel(), np.asarray(b["time_indices"]).ravel()
    if not (len(p) == len(c) == len(t)):
        ctx.check(None if isinstance(ev.exc, ValueError) else f"different lengths: expected ValueError, got {ev.exc!r}", ev); ctx.tag("store_bad_length"); return
    if not must_return(ctx, ev): return
    ids = ds[cd].values.tolist(); n = ds.sizes[td]
    use = None if b["cml_ids_to_use"] is None else np.asarray(b["cml_ids_to_use"]).tolist()
    e = np.full((n, len(ids)), np.nan, np.float32)
    for pv, cv, tv in zip(p, c.tolist(), t.tolist()):
        if cv in ids and tv < n and (use is None or cv in use): e[int(tv), ids.index(cv)] = pv
        else: ctx.tag("store_skipped")
    name = b["var_name"] or f"cnn_prob_{b['model_name']}"
    if ev.value.name != name: ctx.violation(f"the predictions are called {ev.value.name!r} instead of {name!r}", ev); return
    ctx.tag("store_named" if b["var_name"] else ("store_model_name" if b["model_name"] != "model" else "store_default_name"))
    judge(ctx, ev, ev.value, ds, td, cd, e, 0, 0, "store")


def judge(ctx, ev, da, ds, td, cd, e, rt, at, tag):
    if set(da.dims) != {td, cd}: ctx.violation(f"predictions have dimensions {da.dims}", ev); return
    if mismatch(da[td].values, ds[td].values) or mismatch(da[cd].values, ds[cd].values): ctx.violation("coordinates of the predictions differ from the data set", ev); return
    ctx.check(mismatch(da.transpose(td, cd).values, e, rt, at, what="predictions(time, link)"), ev); ctx.tag(tag)


def o_cnn(ctx, ev):
    b = ev.bound(); ds = b["ds"]; cd = b["id_coord"]
    if cd not in ds.variables and cd not in ds.dims:
        ctx.check(None if isinstance(ev.exc, KeyError) else f"unknown id coordinate: expected KeyError, got {ev.exc!r}", ev); ctx.tag("bad_id_coord"); return
    m = MODELS.get(os.path.basename(str(b["json_url"])))
    if m is None: return "skip"
    w, b0, nv, L = m
    vars_ = b["input_vars"] or ["tl1", "tl2"]; sl = b["seq_len"] or 180
    if len(vars_) != nv or sl != L: return "skip"
    if not must_return(ctx, ev): return
    ids = ds[cd].values.tolist() if b["cml_ids"] is None else np.asarray(b["cml_ids"]).tolist()
    s = samples(ds, ids, vars_, L, "time", cd)
    e = np.full((ds.sizes["time"], ds.sizes[cd]), np.nan)
    allids = ds[cd].values.tolist()
    if s:
        X = scaled(np.stack([q[2] for q in s])); y = 1 / (1 + np.exp(-((X * w).sum((1, 2)) + b0)))
        for (c, t, _), v in zip(s, y): e[t, allids.index(c)] = v
    else: ctx.tag("cnn_no_sample")
    name = b["prob_name"] or "CNN"
    if b["return_ds"]:
        if not isinstance(ev.value, xr.Dataset) or name not in ev.value: ctx.violation(f"no variable {name!r} in the result", ev); return
        for v in ds.variables:
            if v not in ev.value.variables or mismatch(ev.value[v].values, ds[v].values, 0, 0): ctx.violation(f"variable {v} of the input changed or missing", ev); return
        da = ev.value[name]; ctx.tag("cnn_ds")
    else: da = ev.value; ctx.tag("cnn_da")
    judge(ctx, ev, da, ds, "time", cd, e, 2e-3, 2e-3, "cnn")
    if b["cml_ids"] is not None: ctx.tag("cnn_ids")
    if cd != "cml_id": ctx.tag("cnn_id_coord")


def install(ctx):
    for n, o in (("create_samples", o_create), ("scale_features", o_scale), ("store_predictions", o_store)): ctx.watch(M + "inference_utils", n, o)
    ctx.watch(M + "run_inference", "wet_dry_1d_cnn", o_cnn)
    models(ctx)


def models(ctx):
    os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
    import tensorflow as tf
    g = np.random.default_rng(11)
    for nv, L in CFG:
        m = tf.keras.Sequential([tf.keras.layers.Input((L, nv)), tf.keras.layers.Flatten(), tf.keras.layers.Dense(1, activation="sigmoid")])
        w = g.normal(0, 1.5 / np.sqrt(L * nv), (L, nv)); b0 = float(g.normal(0, .3))
        m.layers[-1].set_weights([w.reshape(-1, 1), np.array([b0])])
        fn = os.path.join(ctx.scratch, f"m{nv}_{L}")
        with open(fn + ".json", "w") as f: f.write(m.to_json())
        m.save_weights(fn + ".weights.h5"); MODELS[f"m{nv}_{L}.json"] = (w, b0, nv, L)


def make(rng, n, m, vars_, cd="cml_id", td="time"):
    ids = gen.ids(rng, m)
    ds = xr.Dataset(coords={td: gen.times(rng, n).values, cd: ids})
    for j, v in enumerate(vars_):
        x = rng.uniform(-60, 60) + rng.normal(0, rng.uniform(.3, 5), (m, n))
        if rng.random() < .05: x[:] = 7.5
        if rng.random() < .6:
            for k in range(m):
                if rng.random() < .5: x[k, rng.random(n) < gen.pick(rng, [.02, .1])] = gen.pick(rng, [np.nan, np.nan, np.inf])
                if rng.random() < .1: x[k] = np.nan
        if rng.random() < .5: ds[v] = ((cd, td), x)
        else: ds[v] = ((td, cd), x.T.copy())
        if rng.random() < .2: ds[v] = ds[v].astype(np.float32)
    if rng.random() < .4: ds = ds.assign_coords(length=(cd, rng.uniform(1, 9, m)))
    return ds


def some_ids(rng, ids):
    k = rng.random()
    x = ids[rng.permutation(len(ids))[:int(rng.integers(1, len(ids) + 1))]]
    if k < .3:
        x = x.tolist(); x.insert(int(rng.integers(0, len(x) + 1)), 987654 if ids.dtype.kind == "i" else "nope")
        return x
    return x.tolist() if k < .6 else x


def case(ctx, rng, i):
    if i % 8 < 2:   # end to end
        nv, L = CFG[int(rng.integers(len(CFG)))]
        n = int(rng.integers(max(1, L - 2), L + 30)); m = int(rng.integers(1, 5))
        if gen.big(i, 40, 160): n = int(rng.integers(600, 1300)); ctx.tag("large")
        names = ["tl1", "tl2"] if nv == 2 and rng.random() < .6 else [f"v{k}" for k in range(nv)]
        cd = gen.pick(rng, ["cml_id", "cml_id", "cml_id", "link"])
        ds = make(rng, n, m, names, cd)
        kw = dict(json_url=os.path.join(ctx.scratch, f"m{nv}_{L}.json"), weights_url=os.path.join(ctx.scratch, f"m{nv}_{L}.weights.h5"), seq_len=L)
        if cd != "cml_id" or rng.random() < .3: kw["id_coord"] = cd
        if names != ["tl1", "tl2"] or rng.random() < .3:
            kw["input_vars"] = [names[q] for q in rng.permutation(nv)]
        if L == 180 and rng.random() < .6: kw.pop("seq_len")
        if rng.random() < .4: kw["batch_size"] = int(gen.pick(rng, [1, 3, 64, 1000]))
        if rng.random() < .4: kw["prob_name"] = "p_wet"
        if rng.random() < .3: kw["return_ds"] = False
        if rng.random() < .4: kw["cml_ids"] = some_ids(rng, ds[cd].values)
        if rng.random() < .06: kw["id_coord"] = "no_such_coord"
        ctx.quiet(ri.wet_dry_1d_cnn, ds, **kw); return
    nv = int(rng.integers(1, 4)); n = int(rng.integers(1, 40)); m = int(rng.integers(1, 6)); L = int(gen.pick(rng, [1, 2, 5, n, n + 1, int(rng.integers(1, n + 1))]))
    if gen.big(i, 43, 160):
        s = (int(rng.integers(600, 1500)), 180, 2)
        X = (rng.normal(0, 1, s) * np.linspace(.5, 4, s[0])[:, None, None] + np.linspace(-20, 60, s[0])[:, None, None]).astype(gen.pick(rng, [np.float32, np.float64]))
        ctx.quiet(iu.scale_features, X, ["tl1", "tl2"]); ctx.tag("large_scaled"); return
    if gen.big(i, 42, 160): n, m, L = int(rng.integers(600, 1500)), int(rng.integers(2, 12)), int(rng.integers(2, 12)); ctx.tag("large")
    names = [f"v{k}" for k in range(nv)]; cd, td = gen.pick(rng, ["cml_id", "link"]), gen.pick(rng, ["time", "time", "t"])
    ds = make(rng, n, m, names, cd, td)
    order = [names[q] for q in rng.permutation(nv)]
    r = ctx.quiet(iu.create_samples, ds, some_ids(rng, ds[cd].values), order, L, td, cd)
    if r is None: return
    X, ids, ti = r
    if len(X) == 0: return
    ctx.quiet(iu.scale_features, X, order)
    p = rng.uniform(0, 1, len(X)); q = rng.permutation(len(X))
    if rng.random() < .5: ids, ti = np.asarray(ids)[q], np.asarray(ti)[q]
    kw = dict(time_dim=td, cml_dim=cd)
    if rng.random() < .2: ti = np.array(ti); ti[int(rng.integers(len(ti)))] = n + int(gen.pick(rng, [0, 0, 1, 3]))
    if rng.random() < .2:
        ids = np.asarray(ids).astype(object) if np.asarray(ids).dtype.kind != "i" else np.array(ids); ids[int(rng.integers(len(ids)))] = 555555 if ids.dtype.kind == "i" else "stranger"
        ids = np.array(ids.tolist())
    if rng.random() < .3: kw["var_name"] = gen.pick(rng, ["p", "wet_prob"])
    if rng.random() < .3: kw["model_name"] = "cz"
    if rng.random() < .2: kw["cml_ids_to_use"] = some_ids(rng, ds[cd].values)
    if rng.random() < .15:
        k = rng.random()
        if k < .4: p = p[:-1]
        elif k < .7: ids = ids[:-1]
        else: ti = ti[:-1]
    ctx.quiet(iu.store_predictions, ds, gen.pick(rng, [p, p.tolist(), p.reshape(-1, 1)]), ids, ti, **kw)
