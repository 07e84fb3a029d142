"""C10 great-circle distance and endpoint distance data set."""
import math
import numpy as np
import pandas as pd
import xarray as xr
from vlib import gen, ref
from vlib.core import mismatch, must_return
import pycomlink.spatial.helper as sp
import pycomlink.processing.wet_dry.nearby_wetdry as nw

R = 6367.0


def tol(d):
    s = abs(math.sin(d / R))
    return 1e-7 + R * 1e-14 / max(s, 1e-8) if d > R else 1e-7


def judge(ctx, ev, lon1, lat1, lon2, lat2, out, what):
    arrs = np.broadcast_arrays(*[np.asarray(v, float) for v in (lon1, lat1, lon2, lat2)])
    o = np.asarray(out, float)
    if o.shape != arrs[0].shape:
        ctx.violation(f"{what}: shape {o.shape}, expected {arrs[0].shape}", ev); return
    for p in zip(*[a.ravel() for a in arrs], o.ravel()):
        d = ref.great_circle(*p[:4])
        if not abs(p[4] - d) <= tol(d):
            ctx.violation(f"{what}: distance {p[:4]} is {p[4]!r}, expected {d!r}", ev); return
        if p[4] < 0 or p[4] > math.pi * R * (1 + 1e-12):
            ctx.violation(f"{what}: distance {p[4]} out of range", ev); return
        if p[0] == p[2] and p[1] == p[3] and p[4] != 0:
            ctx.violation(f"{what}: identical points are {p[4]} km apart", ev); return


def o_hav(ctx, ev):
    b = ev.bound()
    if not must_return(ctx, ev): return
    if any(isinstance(v, xr.DataArray) for v in b.values()):
        vs = xr.broadcast(*[v if isinstance(v, xr.DataArray) else xr.DataArray(v) for v in b.values()])
        if not isinstance(ev.value, xr.DataArray): ctx.violation("labelled input, unlabelled result", ev); return
        judge(ctx, ev, *[v.values for v in vs], ev.value.transpose(*vs[0].dims).values, "haversine")
        ctx.tag("hav_labelled"); return
    judge(ctx, ev, *b.values(), ev.value, "haversine")
    ctx.tag("hav")


VARS = dict(a_to_all_a="aa", a_to_all_b="ab", b_to_all_a="ba", b_to_all_b="bb")


def o_dist(ctx, ev):
    b = ev.bound()
    if not must_return(ctx, ev): return
    ds = ev.value
    ids = list(np.asarray(b["cml_ids"]).tolist())
    P = dict(a=(np.asarray(b["site_a_longitude"], float), np.asarray(b["site_a_latitude"], float)),
             b=(np.asarray(b["site_b_longitude"], float), np.asarray(b["site_b_latitude"], float)))
    if not isinstance(ds, xr.Dataset): ctx.violation("no data set returned", ev); return
    for v in VARS:
        if v not in ds: ctx.violation(f"variable {v} is missing", ev); return
        if set(ds[v].dims) != {"cml_id1", "cml_id2"}: ctx.violation(f"{v} has dims {ds[v].dims}", ev); return
    for c in ("cml_id1", "cml_id2"):
        if sorted(map(str, ds[c].values.tolist())) != sorted(map(str, ids)): ctx.violation(f"labels {c} differ from the ids", ev); return
    for v, (e1, e2) in VARS.items():
        da = ds[v].transpose("cml_id1", "cml_id2")
        da = da.sel(cml_id1=ids, cml_id2=ids).values
        for i in range(len(ids)):
            for j in range(len(ids)):
                d = 0.0 if i == j else ref.great_circle(P[e1][0][i], P[e1][1][i], P[e2][0][j], P[e2][1][j])
                if not abs(da[i, j] - d) <= (tol(d) if i != j else 0):
                    ctx.violation(f"{v}[{ids[i]!r}, {ids[j]!r}] = {da[i, j]!r}, expected {d!r}", ev); return
    ctx.tag("dist", "ids:" + np.asarray(b["cml_ids"]).dtype.kind)
    if len(ids) == 1: ctx.tag("one_link")


def install(ctx):
    ctx.watch("pycomlink.spatial.helper", "haversine", o_hav, pure=True)
    ctx.watch("pycomlink.processing.wet_dry.nearby_wetdry", "calc_distance_between_cml_endpoints", o_dist, pure=True)


def pts(rng, n):
    k = gen.pick(rng, ["globe", "region", "poles", "dateline", "grid", "tiny"])
    if k == "globe": return rng.uniform(-180, 180, n), np.degrees(np.arcsin(rng.uniform(-1, 1, n)))
    if k == "region": return rng.uniform(9, 12, n), rng.uniform(47, 49, n)
    if k == "poles": return rng.uniform(-180, 180, n), rng.choice([-90., 90., 89.9999, -89.999], n)
    if k == "dateline": return rng.choice([179.99, -179.99, 180., -180.], n), rng.uniform(-60, 60, n)
    if k == "grid": return rng.integers(-180, 181, n).astype(float), rng.integers(-90, 91, n).astype(float)
    return 11 + rng.normal(0, 1e-6, n), 48 + rng.normal(0, 1e-6, n)


def case(ctx, rng, i):
    if i % 4:
        n = int(rng.integers(1, 8))
        if gen.big(i, 101): n = gen.big_n(rng, 8000); ctx.tag("many_points")
        lo1, la1 = pts(rng, n); lo2, la2 = pts(rng, n)
        if rng.random() < .2: lo2, la2 = lo1.copy(), la1.copy(); ctx.tag("identical")
        elif rng.random() < .25:
            lo2, la2 = lo1 + 180, -la1; ctx.tag("antipodal")
            if rng.random() < .5: lo2 = lo2 + rng.normal(0, 1e-5, n)
        f = gen.pick(rng, ["np", "scalar", "one_to_many", "int", "list", "da", "series", "2d"])
        if f == "scalar": a = (float(lo1[0]), float(la1[0]), float(lo2[0]), float(la2[0]))
        elif f == "one_to_many": a = (float(lo1[0]), float(la1[0]), lo2, la2)
        elif f == "int": a = tuple(np.round(v).astype(int) for v in (lo1, la1, lo2, la2))
        elif f == "list": a = tuple(v.tolist() for v in (lo1, la1, lo2, la2))
        elif f == "da": a = (xr.DataArray(lo1, dims="x"), xr.DataArray(la1, dims="x"), xr.DataArray(lo2, dims=gen.pick(rng, ["x", "y"]) if n < 50 else "x"), None); a = a[:3] + (xr.DataArray(la2, dims=a[2].dims),)
        elif f == "series": a = tuple(pd.Series(v) for v in (lo1, la1, lo2, la2))
        elif f == "2d" and n < 50: a = (lo1[:, None], la1[:, None], lo2[None, :], la2[None, :])
        else: a = (lo1, la1, lo2, la2)
        r = ctx.quiet(sp.haversine, *a)
        if f in ("np", "scalar", "one_to_many") and r is not None:
            s = ctx.quiet(sp.haversine, *(a[2:] + a[:2]))
            if s is not None: ctx.check(mismatch(s, r, rtol=1e-12, atol=1e-9, what="distance in the other direction"))
            k = int(gen.pick(rng, [-1, 1, 2]))
            s = ctx.quiet(sp.haversine, a[0] + 360. * k, a[1], a[2], a[3])
            ctx.tag("symmetric", "plus360")
        return
    n = int(gen.pick(rng, [1, 2, 3, 5, 9]))
    if gen.big(i, 100, 400): n = int(rng.integers(40, 110)); ctx.tag("many_links")
    loa, laa = pts(rng, n)
    if rng.random() < .6: lob, lab = loa + rng.normal(0, .05, n), np.clip(laa + rng.normal(0, .05, n), -90, 90)
    else: lob, lab = pts(rng, n)
    ids = gen.ids(rng, n)
    vals = [laa, loa, lab, lob]
    if n > 1 and rng.random() < .4:                     # realistic topology: shared sites, parallel links, reversed links
        for _ in range(int(rng.integers(1, n + 1))):
            j, k = rng.choice(n, 2, replace=False)
            t = gen.pick(rng, ["site_a", "parallel", "reversed", "chain"])
            if t in ("site_a", "parallel"): laa[j], loa[j] = laa[k], loa[k]
            if t == "parallel": lab[j], lob[j] = lab[k], lob[k]
            if t == "reversed": (laa[j], loa[j]), (lab[j], lob[j]) = (lab[k], lob[k]), (laa[k], loa[k])
            if t == "chain": laa[j], loa[j] = lab[k], lob[k]
            ctx.tag("topology:" + t)
    f = gen.pick(rng, ["np", "list", "mixed", "series", "da", "some_int", "int"])
    if f == "int": vals = [np.round(v).astype(int) for v in vals]; vals = vals if rng.random() < .5 else [v.tolist() for v in vals]
    if f == "some_int": vals = [[int(round(x)) if rng.random() < .5 else x for x in v.tolist()] for v in vals]; ctx.tag("list_with_ints")
    if f == "list": ids, vals = list(ids.tolist()), [v.tolist() for v in vals]
    if f == "mixed": vals = [v.tolist() if k % 2 else v for k, v in enumerate(vals)]
    if f == "series": vals = [pd.Series(v) for v in vals]
    if f == "da": vals = [xr.DataArray(v, dims="cml_id") for v in vals]
    if rng.random() < .5: ctx.quiet(nw.calc_distance_between_cml_endpoints, ids, *vals)
    else: ctx.quiet(nw.calc_distance_between_cml_endpoints, cml_ids=ids, site_b_longitude=vals[3], site_b_latitude=vals[2], site_a_longitude=vals[1], site_a_latitude=vals[0])
