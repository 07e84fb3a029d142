"""C13 inverse-distance interpolation against a brute-force computation."""
import numpy as np
import pandas as pd
from vlib import gen
from vlib.core import mismatch, must_return
import pycomlink.spatial.idw as idw
import pycomlink.spatial.interpolator as ip


def brute(X, z, Q, nnear, p, maxd, ctx):
    """expected value, lowest and highest used value, undecided mask; per query point"""
    n = len(Q)
    exp, lo, hi = np.full(n, np.nan), np.full(n, np.nan), np.full(n, np.nan)
    skip = np.zeros(n, bool)
    maxd = np.inf if maxd is None else float(maxd)
    for k, q in enumerate(Q):
        d = np.sqrt(((X - q) ** 2).sum(1))
        o = np.argsort(d, kind="stable"); ds = d[o]
        m = min(nnear, len(d))
        scale = max(ds[m - 1], 1e-300)
        if m < len(d) and ds[m] - ds[m - 1] <= 1e-9 * scale and ds[m - 1] < maxd * (1 + 1e-9):
            skip[k] = True                      # tie for the last place
        if np.isfinite(maxd) and (np.abs(ds[:m] - maxd) <= 1e-9 * max(maxd, 1e-300)).any():
            skip[k] = True                      # exactly at the limit
        use = o[:m][ds[:m] < maxd]
        if len(use) == 0: continue
        zu, du = z[use], d[use]
        lo[k], hi[k] = (zu.min(), zu.max()) if not np.isnan(zu).any() else (np.nan, np.nan)
        if 1e-12 < du[0] < 1e-9: skip[k] = True
        if du[0] <= 1e-10:
            same = zu[du <= 1e-10]
            exp[k] = same[0]; lo[k] = hi[k] = same[0]
            if len(same) > 1: skip[k] = True; 
            continue
        with np.errstate(all="ignore"):
            w = (du[0] / du) ** p
            exp[k] = (w * zu).sum() / w.sum() if not np.isnan(zu).any() else np.nan
    return exp, lo, hi, skip


def compare(ctx, ev, out, X, z, Q, nnear, p, maxd, shape):
    out = np.asarray(out)
    if out.shape != shape: ctx.violation(f"result has shape {out.shape}, expected {shape}", ev); return
    exp, lo, hi, skip = brute(X, z, Q, nnear, p, maxd, ctx)
    o = out.astype(float).ravel()
    zs = np.nanmax(np.abs(z), initial=0)
    ctx.check(mismatch(o, exp, rtol=1e-8, atol=1e-9 * zs, ignore=skip, what="interpolated value"), ev)
    with np.errstate(invalid="ignore"):
        bad = ~skip & ~np.isnan(lo) & ((o < lo - 1e-9 * (1 + zs)) | (o > hi + 1e-9 * (1 + zs)))
    if bad.any(): ctx.violation("value outside the range of the used values", ev)
    if np.isnan(exp).any(): ctx.tag("grid_point_without_neighbour")
    if (~np.isnan(exp)).any(): ctx.tag("interpolated")
    if (lo == hi).any(): ctx.tag("coincident_or_single")
    if nnear > len(z): ctx.tag("fewer_points_than_nnear")
    if nnear < len(z): ctx.tag("more_points_than_nnear")
    if maxd is not None: ctx.tag("max_distance")


STATE = {}


def o_tree(ctx, ev):
    self = ev.raw_args[0]
    b = ev.bound()
    q = np.asarray(b["q"], float); z = np.asarray(b["z"], float); nn = b["nnear"]
    if nn <= 1:
        ctx.tag("nnear<=1")
        if not isinstance(ev.exc, ValueError): ctx.violation("nnear <= 1 did not raise ValueError", ev)
        return
    if id(self) not in STATE: return "skip"
    X = STATE[id(self)]
    if len(X) != len(z):
        if ev.exc is None: ctx.violation("number of values differs from number of points, no error", ev)
        return
    if b["eps"] or z.ndim > 1: return "skip"
    if not must_return(ctx, ev): return
    Q = q[None] if q.ndim == 1 else q
    compare(ctx, ev, ev.value, X, z, Q, nn, b["p"], b["max_distance"], () if q.ndim == 1 else (len(Q),))
    ctx.tag("tree", f"dim{X.shape[1]}", f"q_ndim{q.ndim}")


CONF = {}


def o_init(ctx, ev):
    """The configuration an object was created with (documented defaults where omitted)."""
    CONF[id(ev.raw_args[0])] = (ev.raw_args[0], ev.bound())
    if len(CONF) > 8: CONF.pop(next(iter(CONF)))
    if not must_return(ctx, ev): return
    ctx.tag("created", "all_defaults" if len(ev.args) + len(ev.kwargs) == 1 else "configured")


def o_interp(ctx, ev):
    self = ev.raw_args[0]
    if type(self) is not ip.IdwKdtreeInterpolator or id(self) not in CONF: return "skip"
    b = ev.bound(); conf = CONF[id(self)][1]
    x, y, z = (np.asarray(b[k], float) for k in "xyz")
    if b["xgrid"] is None or b["ygrid"] is None:
        if b["resolution"] is None:
            if not isinstance(ev.exc, ValueError): ctx.violation("neither grid nor resolution: no ValueError", ev)
            ctx.tag("no_grid_no_resolution")
            return
        if not must_return(ctx, ev): return
        xg, yg = np.asarray(self.xgrid, float), np.asarray(self.ygrid, float)
        ctx.tag("own_grid")
        res = float(b["resolution"])
        if xg.ndim != 2 or xg.shape != yg.shape: ctx.violation("generated grid is not two-dimensional", ev); return
        for g, v, ax in ((xg, x, 1), (yg, y, 0)):
            line = g[0] if ax else g[:, 0]
            e = 1e-6 * res + 1e-9 * np.abs(v).max()
            if not np.allclose(g, line[None, :] if ax else line[:, None], rtol=0, atol=e): ctx.violation("generated grid is not regular", ev); return
            if len(line) > 1 and not np.allclose(np.diff(line), res, rtol=0, atol=e): ctx.violation(f"generated grid has steps {np.diff(line)[:3]}, resolution is {res}", ev); return
            if abs(line[0] - (v.min() - res)) > e or line[-1] < v.max() - e or line[-1] > v.max() + res + e:
                ctx.violation(f"generated grid spans {line[0]}..{line[-1]}, points {v.min()}..{v.max()}, resolution {res}", ev); return
    else:
        xg, yg = np.asarray(b["xgrid"], float), np.asarray(b["ygrid"], float)
        if not must_return(ctx, ev): return
    Q = np.stack([xg.ravel(), yg.ravel()], 1)
    ok = ~np.isnan(z)
    if not ok.any():
        v = np.asarray(ev.value)
        if v.shape != xg.shape or v.dtype.kind != "f" or not np.isnan(v).all(): ctx.violation("all values NaN, but the grid is not all NaN", ev)
        ctx.tag("all_nan", "all_nan_int_grid" if np.asarray(b["xgrid"]).dtype.kind == "i" else "all_nan_float_grid")
        return
    if not conf["exclude_nan"]: ok[:] = True; ctx.tag("exclude_nan_off" + ("_with_nan" if np.isnan(z).any() else ""))
    elif not ok.all(): ctx.tag("nan_excluded")
    compare(ctx, ev, ev.value, np.stack([x, y], 1)[ok], z[ok], Q, conf["nnear"], conf["p"], conf["max_distance"], xg.shape)
    ctx.tag("interpolator", f"grid_ndim{xg.ndim}", f"z:{np.asarray(b['z']).dtype.kind}", f"grid:{np.asarray(b['xgrid']).dtype.kind}")


def install(ctx):
    ctx.watch("pycomlink.spatial.interpolator", "IdwKdtreeInterpolator.__init__", o_init, name="IdwKdtreeInterpolator()")
    ctx.watch("pycomlink.spatial.idw", "Invdisttree.__call__", o_tree, name="Invdisttree.__call__")
    ctx.watch("pycomlink.spatial.interpolator", "PointsToGridInterpolator.__call__", o_interp, name="Interpolator.__call__")


def points(rng, n, dim=2):
    k = gen.pick(rng, ["uniform", "uniform", "cluster", "line", "lattice", "geo", "big"])
    if k == "uniform": return rng.uniform(0, 10, (n, dim))
    if k == "cluster": return rng.normal(0, 1, (n, dim)) + rng.integers(0, 3, (n, 1)) * 5
    if k == "line": return np.cumsum(rng.uniform(.1, 1, (n, 1)), 0) * np.ones(dim)
    if k == "lattice" and n <= 12 ** dim:
        u = np.array(np.unravel_index(rng.choice(12 ** dim, n, replace=False), (12,) * dim), float).T
        return u
    if k == "geo": return rng.uniform([9] + [47] * (dim - 1), [12] + [49] * (dim - 1), (n, dim))
    return rng.uniform(4e5, 6e5, (n, dim))


def values(rng, n):
    z = gen.pick(rng, [rng.normal(0, 1, n), rng.exponential(5, n), np.where(rng.random(n) < .6, 0, rng.exponential(5, n)), rng.integers(0, 20, n).astype(float), np.full(n, 3.25)])
    return np.array(z, float)


def grid(rng, X, size=None):
    lo, hi = X.min(0), X.max(0) + 1e-9
    e = (hi - lo) * gen.pick(rng, [.1, .5]) + 1e-6
    nd = int(gen.pick(rng, [1, 2, 2, 2, 3]))
    sh = tuple(int(rng.integers(1, 6)) for _ in range(nd))
    if size is not None: a = int(rng.integers(20, 90)); sh = (a, max(2, size // a)); nd = 2
    if nd == 2 and rng.random() < .6:
        xg, yg = np.meshgrid(np.linspace(lo[0] - e[0], hi[0] + e[0], sh[1]), np.linspace(lo[1] - e[1], hi[1] + e[1], sh[0]))
    else:
        xg, yg = rng.uniform(lo[0] - e[0], hi[0] + e[0], sh), rng.uniform(lo[1] - e[1], hi[1] + e[1], sh)
    m = rng.random(xg.shape) < .2                     # some grid points coincide with points
    j = rng.integers(0, len(X), xg.shape)
    xg, yg = np.where(m, X[j, 0], xg), np.where(m, X[j, 1], yg)
    r = rng.random()
    if r < .15: xg, yg = np.round(xg).astype(int), np.round(yg).astype(int)
    elif r < .3: xg, yg = np.asfortranarray(xg), np.asfortranarray(yg)
    elif r < .4: xg, yg = xg[::-1], yg[::-1]
    elif r < .45: xg, yg = np.round(xg).astype(np.float32), np.round(yg).astype(np.float32)
    return xg, yg


def case(ctx, rng, i):
    n = int(gen.pick(rng, [1, 2, 3, 5, 8, 9, 20, 60]))
    big = gen.big(i)
    if gen.big(i, 202): n = gen.big_n(rng, 6000); ctx.tag("many_points")
    if i % 3 == 0:
        dim = int(gen.pick(rng, [1, 2, 2, 3]))
        X = points(rng, min(n, 12) if dim == 1 else n, dim); n = len(X)
        z = values(rng, n)
        t = idw.Invdisttree(X if rng.random() < .5 else [tuple(v) for v in X], **({} if rng.random() < .5 else dict(leafsize=int(rng.integers(1, 20)))))
        STATE.clear(); STATE[id(t)] = X.copy(); STATE["keep"] = t
        for _ in range(2):
            Q = points(rng, int(rng.integers(1, 8)), dim) if rng.random() < .5 else X[rng.integers(0, n, 4)] + rng.normal(0, .3, (4, dim))
            if big: Q = np.concatenate([points(rng, 70, dim)] * 60) + rng.normal(0, .5, (4200, dim)); ctx.tag("many_queries")
            kw = {}
            if rng.random() < .7: kw["nnear"] = int(gen.pick(rng, [2, 3, 6, n + 2, 0, 1] if n > 1 else [2, 5]))
            if rng.random() < .6: kw["p"] = gen.pick(rng, [1, 2, 3, .5, 1.5, 2.0, 0, 8])
            if rng.random() < .5: kw["max_distance"] = gen.pick(rng, [None, float(rng.uniform(.1, 5)), 1e-3, 1e6, 2])
            if ctx.mode != "interp": kw["p"] = gen.pick(rng, [1, 2.0])
            if rng.random() < .3: Q = Q[0]
            ctx.quiet(t, Q, z.copy() if rng.random() < .8 else z.tolist(), **kw)
        return
    X = points(rng, n); z = values(rng, n)
    z[gen.nan_mask(rng, n, .5)] = np.nan
    if rng.random() < .06: z[:] = np.nan
    kw = {}
    if rng.random() < .7: kw["nnear"] = int(gen.pick(rng, [2, 3, 5, 8, 30]))
    if rng.random() < .6: kw["p"] = gen.pick(rng, [1, 2, 3, .5, 1.5, 0, 6.]) if ctx.mode == "interp" else gen.pick(rng, [1, 2, 1.5])
    if rng.random() < .2: kw["exclude_nan"] = False
    if rng.random() < .5: kw["max_distance"] = gen.pick(rng, [None, float(rng.uniform(.05, 4)), 1e5, 3])
    it = ip.IdwKdtreeInterpolator(**kw)
    zz = z
    if not np.isnan(z).any() and (z == np.round(z)).all() and rng.random() < .5: zz = z.astype(int)
    elif rng.random() < .2: zz = z.astype(np.float32)
    elif rng.random() < .2: zz = pd.Series(z)
    xx, yy = X[:, 0], X[:, 1]
    if rng.random() < .2: xx, yy = xx.tolist(), yy.tolist()
    if i % 50 == 1:
        ctx.quiet(it, xx, yy, zz); return
    if rng.random() < .12:
        one = {} if rng.random() < .7 else {gen.pick(rng, ["xgrid", "ygrid"]): grid(rng, X)[0]}
        ctx.quiet(it, xx, yy, zz, **one, resolution=float(max(np.ptp(X[:, 0]), np.ptp(X[:, 1]), .5) / rng.uniform(2, 6))); return
    xg, yg = grid(rng, X, None if not big else gen.big_n(rng, 14000))
    if big: ctx.tag("large_grid")
    r = ctx.quiet(it, xx, yy, zz, xg, yg) if rng.random() < .5 else ctx.quiet(it, x=xx, y=yy, z=zz, xgrid=xg, ygrid=yg)
    if r is not None and i % 4 == 1 and n > 1 and kw.get("nnear", 8) > n:
        o = rng.permutation(n)
        r2 = ctx.quiet(ip.IdwKdtreeInterpolator(**kw), np.asarray(xx)[o], np.asarray(yy)[o], np.asarray(zz, float)[o], xg, yg)
        if r2 is not None and not kw.get("exclude_nan") is False:
            ctx.check(mismatch(r2, r, rtol=1e-8, atol=1e-9 * (1 + np.nanmax(np.abs(z), initial=0)), what="result after reordering the points")); ctx.tag("reordered_points")
