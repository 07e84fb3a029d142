"""C15 ordinary kriging against an own solver of the kriging system."""
import datetime, math
import numpy as np
import pandas as pd
from vlib import gen
from vlib.core import mismatch, must_return
import pycomlink.spatial.interpolator as ip


def gamma(model, par, d):
    """Semivariance; sill is total sill, nugget included."""
    nug = par.get("nugget", 0.0)
    if model == "linear": return par["slope"] * d + nug
    if model == "power": return par["scale"] * d ** par["exponent"] + nug
    ps = par["psill"] if "psill" in par else par["sill"] - nug
    r = par["range"]
    if model == "spherical": return np.where(d <= r, ps * (1.5 * d / r - .5 * (d / r) ** 3) + nug, ps + nug)
    if model == "exponential": return ps * (1 - np.exp(-d / (r / 3))) + nug
    if model == "gaussian": return ps * (1 - np.exp(-d ** 2 / (r * 4 / 7) ** 2)) + nug
    raise ValueError(model)


def solve(X, z, q, model, par):
    n = len(X)
    D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1))
    A = np.ones((n + 1, n + 1)); A[:n, :n] = gamma(model, par, D); np.fill_diagonal(A, 0.0)
    d = np.sqrt(((X - q) ** 2).sum(1))
    rhs = np.ones(n + 1); rhs[:n] = np.where(d <= 1e-10, 0.0, gamma(model, par, d))
    w = np.linalg.solve(A, rhs)[:n]
    return float(w @ z), w, np.linalg.cond(A)


CONF = {}


def o_init(ctx, ev):
    """The configuration an object was created with (documented defaults where omitted)."""
    CONF[id(ev.raw_args[0])] = (ev.raw_args[0], ev.bound())
    if len(CONF) > 8: CONF.pop(next(iter(CONF)))
    if not must_return(ctx, ev): return
    ctx.tag("created", "all_defaults" if len(ev.args) + len(ev.kwargs) == 1 else "configured")
    for k in ("nlags", "variogram_model", "variogram_parameters", "weight", "n_closest_points"):
        if k not in ev.kwargs and len(ev.args) == 1: ctx.tag("default:" + k)


def o_krig(ctx, ev):
    self = ev.raw_args[0]
    if type(self) is not ip.OrdinaryKrigingInterpolator or id(self) not in CONF: return "skip"
    b = ev.bound(); conf = CONF[id(self)][1]
    x, y, z = (np.asarray(b[k], float) for k in "xyz")
    grid = b["xgrid"] is not None and b["ygrid"] is not None
    if not grid and b["resolution"] is None:
        ctx.tag("no_grid_no_resolution")
        if not isinstance(ev.exc, ValueError): ctx.violation("neither grid nor resolution: no ValueError", ev)
        return
    if not must_return(ctx, ev): return
    if grid: xg, yg = np.asarray(b["xgrid"], float), np.asarray(b["ygrid"], float)
    else:
        xg, yg = np.asarray(self.xgrid, float), np.asarray(self.ygrid, float); r = float(b["resolution"])
        eps = 1e-6 * r
        if xg.ndim != 2 or xg.shape != yg.shape: ctx.violation("default grid is not two-dimensional", ev); return
        if xg.min() > x.min() + eps or xg.max() < x.max() - eps or yg.min() > y.min() + eps or yg.max() < y.max() - eps: ctx.violation("default grid does not enclose all points", ev)
        if not (np.allclose(np.diff(xg, axis=1), r, rtol=1e-6) and np.allclose(np.diff(yg, axis=0), r, rtol=1e-6) and np.allclose(np.diff(xg, axis=0), 0) and np.allclose(np.diff(yg, axis=1), 0)):
            ctx.violation("default grid is not regular with the given resolution", ev)
        if xg.min() < x.min() - 2 * r or xg.max() > x.max() + 2 * r or yg.min() < y.min() - 2 * r or yg.max() > y.max() + 2 * r: ctx.violation("default grid is much larger than the points", ev)
        ctx.tag("own_grid")
    out = np.asarray(ev.value)
    if out.shape != xg.shape: ctx.violation(f"shape {out.shape}, expected {xg.shape}", ev); return
    ok = ~np.isnan(z)
    if not ok.any():
        if not np.isnan(out.astype(float)).all(): ctx.violation("all values NaN, but the grid is not", ev)
        ctx.tag("all_nan"); return
    if not ok.all():
        if not conf['exclude_nan']: return "skip"
        ctx.tag("nan_excluded")
    X, z = np.stack([x, y], 1)[ok], z[ok]
    par = conf['variogram_parameters']; model = conf['variogram_model']
    if par is None:
        from pykrige import OrdinaryKriging
        fit = OrdinaryKriging(X[:, 0], X[:, 1], z, nlags=conf['nlags'], variogram_model=model, weight=conf['weight'])
        v = fit.variogram_model_parameters
        par = dict(slope=v[0], nugget=v[1]) if model == "linear" else dict(psill=v[0], range=v[1], nugget=v[2]); ctx.tag("fitted_variogram")
    zs = 1 + np.abs(z).max()
    worst = None
    for q, v in zip(np.stack([xg.ravel(), yg.ravel()], 1), out.ravel()):
        XX, zz = X, z
        if conf['n_closest_points'] is not None:
            d = np.sqrt(((X - q) ** 2).sum(1)); o = np.argsort(d, kind="stable"); k = int(conf['n_closest_points'])
            if k < len(o) and d[o[k]] - d[o[k - 1]] < 1e-9 * (1 + d[o[k]]): continue
            XX, zz = X[o[:k]], z[o[:k]]
            ctx.tag("moving_window" if k < len(o) else "window_covers_all")
        e, w, cond = solve(XX, zz, q, model, par)
        if cond > 1e9: continue
        if not abs(float(v) - e) <= 1e-6 * zs * max(1, cond / 1e6):
            ctx.violation(f"estimate at {q.tolist()} is {float(v)!r}, kriging system gives {e!r}", ev); return
        ctx.tags["points_solved"] += 1
        if np.sqrt(((XX - q) ** 2).sum(1)).min() < 1e-10: ctx.tag("at_data_point")
    ctx.tag("model:" + model, "backend:" + conf['backend'], f"grid_ndim{xg.ndim}")


def o_clim(ctx, ev):
    b = ev.bound()
    if not must_return(ctx, ev): return
    d = pd.Timestamp(b["date_str"]); day = (datetime.date(d.year, d.month, d.day) - datetime.date(d.year, 1, 1)).days + 1
    D = float(b["time_scale_hours"])
    rng_m = (15.51 * D ** .09 + 2.06 * D ** -.12 * math.cos(2 * math.pi / 365 * (day - 7.37 * D ** .22))) ** 4
    sill = (.84 * D ** -.25 + .20 * D ** -.37 * math.cos(2 * math.pi / 365 * (day - 162 * D ** -.03))) ** 4
    r = ev.value
    for k, e in dict(sill=sill, range=rng_m / 1000, nugget=.1 * sill).items():
        if k not in r: ctx.violation(f"{k} missing", ev); return
        ctx.check(mismatch(float(r[k]), e, rtol=1e-9, what=k), ev)
    ctx.tag("clim")
    if day == 366: ctx.tag("clim_leap_day")


def install(ctx):
    ctx.watch("pycomlink.spatial.interpolator", "OrdinaryKrigingInterpolator.__init__", o_init, name="OrdinaryKrigingInterpolator()")
    ctx.watch("pycomlink.spatial.interpolator", "PointsToGridInterpolator.__call__", o_krig, name="Interpolator.__call__")
    ctx.watch("pycomlink.spatial.interpolator", "clim_var_param", o_clim, pure=True)


def case(ctx, rng, i):
    # climatological parameters
    d = pd.Timestamp("1999-01-01") + pd.Timedelta(days=int(rng.integers(0, 12000)), minutes=int(rng.integers(0, 1440)))
    if rng.random() < .1: d = pd.Timestamp(f"{gen.pick(rng, [2000, 2004, 2020])}-12-31 23:45")
    f = gen.pick(rng, ["%Y%m%d", "%Y-%m-%d", "%Y-%m-%d %H:%M", None])
    kw = {} if rng.random() < .3 else dict(time_scale_hours=gen.pick(rng, [.25, 1, 24, float(rng.uniform(.1, 30)), 1 / 12]))
    par_c = ctx.quiet(ip.clim_var_param, d.strftime(f) if f else d, **kw)
    if i % 40 == 0: ctx.quiet(ip.clim_var_param)
    n = int(rng.integers(4, 14))
    large = gen.big(i, 50, 100)
    if large and i % 200 == 50: n = int(rng.integers(40, 110)); ctx.tag("many_points")
    k = rng.random()
    X = rng.uniform(0, 10, (n, 2)) if k < .6 else (rng.uniform(0, 300, (n, 2)) if k < .8 else np.array(np.unravel_index(rng.choice(144, n, replace=False), (12, 12)), float).T)
    ext = np.ptp(X, axis=0).max()
    z = gen.pick(rng, [rng.normal(0, 1, n), rng.exponential(4, n), np.where(rng.random(n) < .5, 0, rng.exponential(4, n))]).astype(float)
    if np.all(z == z[0]): z[0] += 1
    if rng.random() < .4:
        m = rng.random(n) < .2
        if (~m).sum() >= 4: z[m] = np.nan
    if rng.random() < .04: z[:] = np.nan
    model = gen.pick(rng, ["spherical", "spherical", "exponential", "linear", "power", "gaussian"])
    nug = float(rng.uniform(.05, .5))
    if model == "linear": par = dict(slope=float(rng.uniform(.05, 2)), nugget=nug)
    elif model == "power": par = dict(scale=float(rng.uniform(.1, 2)), exponent=float(rng.uniform(.3, 1.7)), nugget=nug)
    else:
        par = dict(range=float(rng.uniform(.2, 2) * ext), nugget=nug); s = float(rng.uniform(.5, 5))
        par["psill" if rng.random() < .3 else "sill"] = s + (nug if rng.random() < 2 else 0)
    cfg = dict(variogram_model=model, variogram_parameters=par)
    r = rng.random()
    if r < .1: cfg = {}
    elif r < .25 and par_c is not None: cfg = dict(variogram_parameters=par_c)
    elif r < .32 and model in ("spherical", "linear", "exponential") and (~np.isnan(z)).sum() >= 6: cfg = dict(variogram_model=model, variogram_parameters=None, nlags=int(rng.integers(4, 8)), weight=bool(rng.random() < .5))
    if rng.random() < .4: cfg["n_closest_points"] = int(rng.integers(2, 5)); cfg["backend"] = gen.pick(rng, ["C", "loop"])
    elif rng.random() < .5: cfg["backend"] = gen.pick(rng, ["C", "loop", "vectorized"])
    it = ip.OrdinaryKrigingInterpolator(**cfg)
    if i % 30 == 3: ctx.quiet(it, X[:, 0], X[:, 1], z); return
    if rng.random() < .15:
        ctx.quiet(it, X[:, 0], X[:, 1], z, resolution=float(ext / rng.uniform(1.5, 4)) if rng.random() < .7 else float(max(1, round(ext / 3)))); return
    sh = gen.pick(rng, [(3, 4), (5,), (2, 2, 2), (1, 1), (4, 1)])
    if large and i % 200 != 50: a = int(rng.integers(20, 60)); sh = (a, gen.big_n(rng, 5000, 1200) // a); ctx.tag("large_grid")
    xg, yg = rng.uniform(-.1 * ext, 1.1 * ext, sh), rng.uniform(-.1 * ext, 1.1 * ext, sh)
    if rng.random() < .4: m = rng.random(sh) < .3; j = rng.integers(0, n, sh); xg, yg = np.where(m, X[j, 0], xg), np.where(m, X[j, 1], yg)
    if rng.random() < .2: xg, yg = np.round(xg).astype(int), np.round(yg).astype(int)
    xx, yy = (X[:, 0], X[:, 1]) if rng.random() < .8 else (X[:, 0].tolist(), X[:, 1].tolist())
    ctx.quiet(it, xx, yy, z if rng.random() < .8 else pd.Series(z), xg, yg)
