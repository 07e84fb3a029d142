"""C11 nearby-link wet/dry classification."""
import numpy as np
import xarray as xr
from vlib import gen, ref
from vlib.core import mismatch, must_return
import pycomlink.processing.wet_dry.nearby_wetdry as nw


def median(v):
    v = sorted(v); n = len(v)
    return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2


def reference(pm, length, W, period, need, tP, tPL, min_links, interval):
    """pm (link, time); W[i, j] True if j is near i.  Returns wet, F, edge, margin mask."""
    n, T = pm.shape
    dP = np.full((n, T), np.nan)
    for c in range(n):
        for t in range(T):
            w = pm[c, max(0, t - period + 1):t + 1]; w = w[~np.isnan(w)]
            if len(w) >= need and not np.isnan(pm[c, t]):
                dP[c, t] = pm[c, t] - w.max()
    dPL = dP / length[:, None]
    wet0, F = np.full((n, T), np.nan), np.full((n, T), np.nan)
    unsure = np.zeros((n, T), bool)
    for c in range(n):
        near = np.flatnonzero(W[c])
        if len(near) <= min_links: continue
        mPL = np.full(T, np.nan)
        for t in range(T):
            v = dP[near, t]; ok = ~np.isnan(v)
            if ok.sum() <= min_links: continue
            a, b = median(v[ok]), median(dPL[near, t][ok])
            mPL[t] = b
            wet0[c, t] = float(a < tP and b < tPL)
            unsure[c, t] = abs(a - tP) < 1e-9 or abs(b - tPL) < 1e-9
        s = dPL[c] - mPL
        for t in range(period - 1, T):
            w = s[t - period + 1:t + 1]
            if not np.isnan(w).any(): F[c, t] = w.sum() * interval / 60
    wet = wet0.copy(); uns = unsure.copy()
    for c in range(n):
        for t in range(T):
            if np.isnan(wet0[c, t]): continue
            for s in (t - 1, t + 1, t + 2):
                if 0 <= s < T and dP[c, s] < -2:
                    if wet0[c, s] == 1: wet[c, t] = 1
                    if unsure[c, s]: uns[c, t] = True
                if 0 <= s < T and wet0[c, s] == 1 and abs(dP[c, s] + 2) < 1e-9: uns[c, t] = True
    edge = np.zeros((n, T), bool)
    edge[:, [0]] = True; edge[:, -2:] = True
    edge &= ~np.isnan(wet0)
    return wet, F, edge, uns, dP, wet0


def oracle(ctx, ev):
    b = ev.bound()
    if not must_return(ctx, ev): return
    pmin, ds = b["pmin"], b["ds_dist"]
    r = float(b["radius"])
    p = pmin.transpose("cml_id", "time")
    ids = p.cml_id.values
    lim = ["a_to_all_a", "a_to_all_b", "b_to_all_a", "b_to_all_b"]
    W = np.ones((len(ids), len(ids)), bool)
    for v in lim:
        W &= ds[v].transpose("cml_id1", "cml_id2").sel(cml_id1=ids, cml_id2=ids).values < r
    period, need = int(b["timeperiod"] * 60 / b["interval"]), int(b["min_hours"] * 60 / b["interval"])
    length = np.broadcast_to(p.length.values, len(ids)).astype(float)
    wet, F, edge, uns, dP, wet0 = reference(p.values.astype(float), length, W, period, need, float(b["thresh_median_P"]), float(b["thresh_median_PL"]), int(b["min_links"]), float(b["interval"]))
    if not (isinstance(ev.value, tuple) and len(ev.value) == 2): ctx.violation("not (wet, F)", ev); return
    out = []
    for nm, v in zip(("wet", "F"), ev.value):
        if not isinstance(v, xr.DataArray) or set(v.dims) != {"cml_id", "time"}: ctx.violation(f"{nm}: not a (cml_id, time) array", ev); return
        if not np.array_equal(v.cml_id.values, ids) or not np.array_equal(v.time.values, p.time.values): ctx.violation(f"{nm}: labels changed", ev); return
        out.append(v.transpose("cml_id", "time").values.astype(float))
    ign = np.zeros_like(uns) if ctx.exact else uns
    o = out[0]
    at_edge = edge & (o == 1) & (wet != 1) & ~ign
    if at_edge.any():
        ctx.violation(f"{int(at_edge.sum())} edge steps wet without any wet neighbour step", ev, finding="nearby_shift_edge")
    ctx.check(mismatch(o, wet, ignore=ign | at_edge, what="wet (link, time)"), ev)
    ctx.check(mismatch(out[1], F, rtol=1e-7, atol=1e-7, what="F (link, time)"), ev)
    n = W.sum(1)
    if (n <= b["min_links"]).any(): ctx.tag("link_without_enough_neighbours")
    if (n == b["min_links"] + 1).any(): ctx.tag("just_enough_neighbours")
    if (wet == 1).any(): ctx.tag("wet")
    if (wet == 0).any(): ctx.tag("dry")
    if ((wet == 1) & (wet0 == 0)).any(): ctx.tag("wet_by_neighbour_step")
    if np.isnan(p.values).any(): ctx.tag("missing_data")
    if (np.isnan(wet0) & (n > b["min_links"])[:, None]).any(): ctx.tag("step_unclassified")
    if (~np.isnan(F)).any(): ctx.tag("F_defined")
    if ctx.exact and uns.any(): ctx.tag("at_threshold")
    if not W.all(): ctx.tag("links_outside_radius")
    if list(ds.cml_id1.values) != list(ids): ctx.tag("ds_dist_other_order_or_superset")
    if pmin.dims[0] == "time": ctx.tag("time_first")
    if b["interval"] != 15: ctx.tag("interval!=15")


def install(ctx):
    ctx.watch("pycomlink.processing.wet_dry.nearby_wetdry", "nearby_wetdry", oracle, pure=True)


def network(rng, n, spread):
    lo, la = 11 + rng.normal(0, spread, n), 48 + rng.normal(0, spread, n)
    return la, lo, la + rng.normal(0, .04, n), lo + rng.normal(0, .04, n)


def case(ctx, rng, i):
    n = int(gen.pick(rng, [1, 3, 4, 5, 6, 8, 11]))
    T = int(rng.integers(3, 48))
    interval = int(gen.pick(rng, [15, 15, 30, 5, 60, 10, 40, 45, 90, 120]))
    kw = {}
    if rng.random() < .85:
        kw["timeperiod"] = gen.pick(rng, [1, 2, 3, 24]) if interval > 10 else 1
        if interval in (40, 45, 90): kw["timeperiod"] = gen.pick(rng, [6, 12, 24]); ctx.tag("interval_not_dividing_the_hour")
        elif interval > 60: kw["timeperiod"] = gen.pick(rng, [2, 4, 24])
        # hours that are a whole number of steps and exact in binary
        kw["min_hours"] = gen.pick(rng, {5: [1, .25, .5], 10: [1, .5], 40: [2, 4, 6], 45: [3, 6], 90: [3, 6], 120: [2, 4]}.get(interval) or [1, interval / 60, 2 * interval / 60])
        if kw["min_hours"] > kw["timeperiod"]: kw["min_hours"] = kw["timeperiod"]
        if int(kw["min_hours"] * 60 / interval) < 1 or interval <= 60 and 60 % interval == 0 and rng.random() < .3: kw["min_hours"] = 1
    elif T < 30: T = 40
    long = i % 6 == 5
    if long:                     # series longer than the documented window of 24 h
        n, interval, kw = int(gen.pick(rng, [4, 5, 6])), int(gen.pick(rng, [15, 15, 15, 30])), {}
        T = int(24 * 60 / interval) + int(rng.integers(2, 60))
        if rng.random() < .3: kw["timeperiod"] = int(gen.pick(rng, [20, 24, 25, 26]))
    if gen.big(i, 36, 80): n = int(rng.integers(26, 60)); T = min(T, 20) if not long else T; ctx.tag("many_links")
    if gen.big(i, 37, 80): T = int(rng.integers(700, 2300) if rng.random() < .4 else rng.integers(2000, 2300)); n = int(gen.pick(rng, [4, 5, 6])); ctx.tag("weeks_long")
    if interval != 15 or rng.random() < .5: kw["interval"] = interval
    if not long and rng.random() < .7 or long and rng.random() < .6: kw["min_links"] = int(gen.pick(rng, [0, 1, 2, 3, 4]))
    ctx.exact = rng.random() < .5
    ids = gen.ids(rng, n)
    q = .25 if ctx.exact else .1
    storm = np.where(gen.runs(rng, T, .2), -rng.integers(0, 60, T) * q, 0)
    P = -50 + rng.integers(-8, 1, (n, T)) * q + storm[None] * rng.integers(0, 3, (n, 1)) + np.where(rng.random((n, T)) < .05, -10 * q * 4, 0)
    if not ctx.exact: P = P + rng.normal(0, .01, (n, T))
    for c in range(n):
        P[c, gen.nan_mask(rng, T, .6)] = np.nan
    if rng.random() < .1: P[:, int(rng.integers(T)):] = np.nan
    if long:
        P = P - q * np.arange(T) * int(gen.pick(rng, [0, 1, 2])) ; ctx.tag("longer_than_default_window")
        if rng.random() < .4: P[:, :int(rng.integers(T // 2, T - 10))] = np.nan
    length = 2.0 ** rng.integers(-1, 4, n) if ctx.exact else rng.uniform(.5, 20, n)
    if ctx.exact:
        if not long: kw["thresh_median_P"] = float(gen.pick(rng, [-1.5, -1.0, -.5, -3.])); kw["thresh_median_PL"] = float(gen.pick(rng, [-.75, -.5, -.25, -.125]))
    else:
        if rng.random() < .4: kw["thresh_median_P"] = float(rng.uniform(-3, -.2))
        if rng.random() < .4: kw["thresh_median_PL"] = float(rng.uniform(-1.5, -.05))
    extra = int(gen.pick(rng, [0, 0, 2]))
    N = n + extra
    all_ids = np.concatenate([ids, np.array([f"zz{k}" for k in range(extra)]) if ids.dtype.kind == "U" else 5000 + np.arange(extra)]) if extra else ids
    if rng.random() < .5:
        ds = nw.calc_distance_between_cml_endpoints(all_ids, *network(rng, N, gen.pick(rng, [.02, .1, .3])))
        if rng.random() < .5: kw["radius"] = float(rng.uniform(3, 40))
    else:      # crafted distances, also exactly at the radius, not symmetric between the four
        base = rng.choice([3., 14., 14.75, 15., 15.25, 40.], (N, N), p=[.3, .3, .2, .1, .05, .05])
        dsv = {}
        for v in ("a_to_all_a", "a_to_all_b", "b_to_all_a", "b_to_all_b"):
            d = np.where(rng.random((N, N)) < .85, base, rng.choice([3., 14.5, 15., 16.], (N, N), p=[.5, .3, .1, .1]))
            np.fill_diagonal(d, 0.); dsv[v] = (("cml_id1", "cml_id2"), d)
        ds = xr.Dataset(dsv, coords=dict(cml_id1=all_ids, cml_id2=all_ids)); ctx.tag("crafted_distances")
        if rng.random() < .5: kw["radius"] = 15
    if rng.random() < .4:
        o = rng.permutation(N); ds = ds.isel(cml_id1=o, cml_id2=o if rng.random() < .5 else rng.permutation(N))
    pm = xr.DataArray(P, dims=("cml_id", "time"), coords=dict(cml_id=ids, time=gen.times(rng, T, step=f"{interval}min"), length=("cml_id", length)))
    if rng.random() < .3: pm = pm.transpose("time", "cml_id")
    res = ctx.quiet(nw.nearby_wetdry, pm, ds, **kw)
    if i % 3 == 0 and n > 1 and res is not None:
        # other order of links and without a link outside all radii: same result
        o = rng.permutation(n)
        r2 = ctx.quiet(nw.nearby_wetdry, pm.isel(cml_id=o), ds, **kw)
        if r2 is not None:
            for k in (0, 1):
                ctx.check(mismatch(r2[k].sel(cml_id=ids).transpose("cml_id", "time").values, res[k].sel(cml_id=ids).transpose("cml_id", "time").values, atol=1e-9, what="result after reordering the links"))
            ctx.tag("reordered_links")
