"""C14 history independence of interpolator objects: every call of a recorded
history is compared with the same call on a new object."""
import threading
import numpy as np
from vlib import gen
from vlib.core import mismatch, short, snap
import pycomlink.spatial.idw as idw
import pycomlink.spatial.interpolator as ip
from . import c13

OK_KW = [dict(variogram_model="spherical", variogram_parameters={"sill": 0.9, "range": 4, "nugget": 0.1}),
         dict(variogram_model="exponential", variogram_parameters={"sill": 2.0, "range": 6, "nugget": 0.2}, n_closest_points=4),
         dict(variogram_model="linear", variogram_parameters={"slope": 0.5, "nugget": 0.1}, backend="vectorized"),
         dict(variogram_model="spherical", variogram_parameters={"sill": 0.9, "range": 4, "nugget": 0.1}, n_closest_points=3, backend="loop"),
         dict(variogram_model="exponential", variogram_parameters={"sill": 2.0, "range": 6, "nugget": 0.2}),
         dict()]


def install(ctx):
    pass


def call(f, *a, **k):
    try: return ("ok", f(*a, **k))
    except Exception as e: return ("raised", type(e).__name__)


def same(ctx, got, exp, hist):
    with ctx.lock: ctx.events += 1; ctx.judged += 1
    ctx.nontrivial(hist[-1], len(hist))
    if got[0] != exp[0]:
        ctx.violation(f"call {len(hist)} of a history: {short(got)}; on a new object: {short(exp)}", extra=hist[-6:]); return False
    if got[0] == "ok":
        return ctx.check(mismatch(got[1], exp[1], rtol=1e-9, atol=1e-12, what=f"call {len(hist)} of the history vs a new object"), extra=hist[-6:])
    return True


def tree_history(ctx, rng):
    dim = 2
    X = c13.points(rng, int(rng.integers(2, 20)), dim)
    arr = X.copy()
    t = idw.Invdisttree(arr)
    if rng.random() < .4: arr += 3.0; ctx.tag("X_changed_in_place")        # the caller goes on using its array
    Q = [c13.points(rng, int(rng.integers(1, 6)), dim) for _ in range(2)]
    Q.append(X[:2] + .01)
    kw = dict(nnear=2, p=1, max_distance=None)
    z = c13.values(rng, len(X)); q = Q[0]
    hist, kept = [], []
    for k in range(int(rng.integers(3, 12))):
        op = gen.pick(rng, ["same", "z", "z_inplace", "q", "q_inplace", "nnear", "p", "maxd", "maxd_none", "eps", "single_q", "bad", "swap", "nudge_q", "round_q"])
        if op == "z": z = c13.values(rng, len(X))
        elif op == "z_inplace": z[int(rng.integers(len(z)))] += 1.5
        elif op == "q": q = Q[int(rng.integers(len(Q)))].copy()
        elif op == "q_inplace": np.atleast_2d(q)[0] += .7
        elif op == "nnear": kw["nnear"] = int(gen.pick(rng, [2, 3, 5, len(X), len(X) + 3]))
        elif op == "p": kw["p"] = gen.pick(rng, [1, 2, 1.5])
        elif op == "maxd": kw["max_distance"] = float(gen.pick(rng, [.5, 1.0, 2.0, 5.0, 1e5]))
        elif op == "maxd_none": kw["max_distance"] = None
        elif op == "eps": kw["eps"] = gen.pick(rng, [0, .5])
        elif op == "single_q": q = np.array(np.atleast_2d(q)[0]) if q.ndim == 2 else q[None].copy()
        elif op == "nudge_q": q = q + rng.normal(0, .1)
        elif op == "round_q": q = np.round(q, 1)
        elif op == "bad": call(t, q, z, nnear=1)
        elif op == "swap": q = np.array(q)[::-1].copy() if q.ndim == 2 else q
        k2 = dict(kw)
        hist.append((op, short(q), {a: b for a, b in k2.items()}))
        got = call(t, q, z, **k2)
        exp = call(idw.Invdisttree(X.copy()), snap(q), snap(z), **k2)
        ctx.tag("tree:" + op)
        if not same(ctx, got, exp, hist): return
        if got[0] == "ok" and np.ndim(got[1]):
            kept.append((got[1], np.array(got[1]), len(hist)))
            if rng.random() < .2: got[1][...] = -99.0; kept[-1] = (got[1], np.array(got[1]), len(hist)); ctx.tag("result_changed_by_caller")
    for r, c, k in kept:
        if mismatch(r, c, rtol=0, atol=0): ctx.violation(f"result of call {k} changed afterwards", extra=hist)


def grid_history(ctx, rng, kind, large=False):
    if kind == "idw":
        cfg = dict(nnear=int(gen.pick(rng, [2, 4, 8])), p=gen.pick(rng, [1, 2]), max_distance=gen.pick(rng, [None, 2.0, 4.0]), exclude_nan=bool(rng.random() < .85))
        make = lambda c: ip.IdwKdtreeInterpolator(**c)
    else:
        cfg = dict(OK_KW[int(rng.integers(len(OK_KW)))])
        if "variogram_parameters" in cfg: cfg["variogram_parameters"] = dict(cfg["variogram_parameters"])
        make = lambda c: ip.OrdinaryKrigingInterpolator(**snap(c))
    n = int(rng.integers(6, 16)) if not large else int(rng.integers(60, 160))
    P = rng.uniform(0, 10, (n, 2))
    if kind == "idw" and rng.random() < .3: P += gen.pick(rng, [np.array([11., 48.]), np.array([5e5, 5.4e6])]); ctx.tag("far_origin")
    x, y = P[:, 0].copy(), P[:, 1].copy()
    z = c13.values(rng, n); g = c13.grid(rng, P, gen.big_n(rng, 9000) if large and kind == "idw" else None)
    if large: ctx.tag("large_" + kind)
    xg, yg = np.array(g[0], float), np.array(g[1], float)
    it = make(cfg); cur = dict(cfg)
    hist, kept, old = [], [], []
    ops = ["same", "z", "z_inplace", "nan", "nan_swap", "all_nan", "x_inplace", "y_inplace", "nudge", "nudge_grid", "xy_new", "grid", "grid_inplace", "grid_same_values", "fewer", "perm", "res", "back", "swap_xy", "resize_grid", "bad"]
    ops += ["nnear", "p", "maxd", "exclude"] if kind == "idw" else ["model", "closest", "kexclude"]
    res = None
    for k in range(int(rng.integers(3, 14 if kind == "idw" else 7))):
        op = gen.pick(rng, ops)
        res = None
        if op == "z": z = c13.values(rng, n)
        elif op == "z_inplace": z[int(rng.integers(len(z)))] += 2.5
        elif op == "nan": z = z.copy(); z[rng.random(len(z)) < .3] = np.nan
        elif op == "nan_swap" and np.isnan(z).any() and not np.isnan(z).all():
            a, b = np.flatnonzero(np.isnan(z)), np.flatnonzero(~np.isnan(z)); z = z.copy(); i1, i2 = int(gen.pick(rng, a)), int(gen.pick(rng, b)); z[i1], z[i2] = 5.0, np.nan
        elif op == "all_nan": z = np.full(len(x), np.nan)
        elif op == "x_inplace": x[int(rng.integers(len(x)))] += 1.3
        elif op == "y_inplace": y[int(rng.integers(len(y)))] -= .9
        elif op == "nudge": x, y = x + rng.normal(0, .2, len(x)) * (rng.random() < .5), y + rng.normal(0, .2, len(x)) * (rng.random() < .7)     # slightly moved points
        elif op == "nudge_grid": xg, yg = xg + rng.normal(0, .1), yg + rng.normal(0, .1)
        elif op == "xy_new": old.append((x.copy(), y.copy(), z.copy())); x, y = P[:, 0].min() + rng.uniform(0, 10, len(x)), P[:, 1].min() + rng.uniform(0, 10, len(x))
        elif op == "grid": g = c13.grid(rng, P, gen.big_n(rng, 9000) if large and kind == "idw" else None); xg, yg = np.array(g[0], float), np.array(g[1], float)
        elif op == "grid_inplace": xg += .37
        elif op == "grid_same_values": xg, yg = xg.copy(), yg.copy()
        elif op == "fewer" and len(x) > 6: old.append((x.copy(), y.copy(), z.copy())); x, y, z = x[:-1].copy(), y[:-1].copy(), z[:-1].copy()
        elif op == "perm": o = rng.permutation(len(x)); x, y, z = x[o], y[o], z[o] if rng.random() < .5 else z
        elif op == "back" and old: x, y, z = (v.copy() for v in old[int(rng.integers(len(old)))])
        elif op == "swap_xy": x, y = y, x
        elif op == "resize_grid": xg, yg = xg.ravel().copy(), yg.ravel().copy()
        elif op == "res": res = float(rng.uniform(2, 4))
        elif op == "bad": call(it, x, y, z)
        elif op == "nnear": cur["nnear"] = it.nnear = int(gen.pick(rng, [2, 3, 8, 30]))
        elif op == "p": cur["p"] = it.p = gen.pick(rng, [1, 2, 3])
        elif op == "maxd": cur["max_distance"] = it.max_distance = gen.pick(rng, [None, .5, 1.0, 3.0, 6.0])
        elif op == "exclude": cur["exclude_nan"] = it.exclude_nan = not it.exclude_nan
        elif op == "model":
            c = OK_KW[int(rng.integers(len(OK_KW) - 1))]; it.variogram_model = cur["variogram_model"] = c["variogram_model"]; it.variogram_parameters = cur["variogram_parameters"] = dict(c["variogram_parameters"])
        elif op == "closest" and cur.get("backend", "C") != "vectorized": it.n_closest_points = cur["n_closest_points"] = gen.pick(rng, [None, 3, 5])
        if kind == "ok" and (np.isnan(z).sum() > len(z) - 5 and not np.isnan(z).all()): z = c13.values(rng, len(x))
        hist.append((op, short(xg), short(z), dict(cur)))
        with np.errstate(all="ignore"):
            if res is not None: a1, k1 = (x, y, z), dict(resolution=res)
            else: a1, k1 = (x, y, z, xg, yg), {}
            got = call(it, *a1, **k1)
            exp = call(make(cur), *snap(a1), **k1)
        ctx.tag(kind + ":" + op)
        if not same(ctx, got, exp, hist): return
        if got[0] == "ok": kept.append((got[1], np.array(got[1]), len(hist)))
    for r, c, k in kept:
        if mismatch(r, c, rtol=0, atol=0): ctx.violation(f"result of call {k} changed afterwards", extra=hist)


def case(ctx, rng, i):
    seeds = [int(v) for v in rng.integers(0, 2 ** 31, 4)]
    if i % 10 == 9:         # separate objects in concurrent threads
        th = [threading.Thread(target=(tree_history if s % 2 else (lambda c, r: grid_history(c, r, "idw"))), args=(ctx, np.random.default_rng(s))) for s in seeds]
        for t in th: t.start()
        for t in th: t.join()
        ctx.tag("concurrent_objects")
    elif i % 3 == 0: tree_history(ctx, rng)
    elif i % 3 == 1: grid_history(ctx, rng, "idw", i % 60 == 31)
    else: grid_history(ctx, rng, "ok" if i % 6 == 2 else "idw", i % 60 == 38)
