"""C16 coverage mask against point-to-segment distances."""
import numpy as np
from vlib import gen
from vlib.core import mismatch, must_return
import pycomlink.spatial.coverage as cov


class Cml:
    def __init__(self, a, b):
        self.metadata = dict(site_a_longitude=a[0], site_a_latitude=a[1], site_b_longitude=b[0], site_b_latitude=b[1])


def seg_dist(P, a, b):
    """distance to the segment and whether the foot point is inside it"""
    v = b - a; L2 = float(v @ v)
    if L2 == 0: return np.sqrt(((P - a) ** 2).sum(1)), np.zeros(len(P), bool)
    t = ((P - a) @ v) / L2
    f = a + np.clip(t, 0, 1)[:, None] * v
    return np.sqrt(((P - f) ** 2).sum(1)), (t >= 0) & (t <= 1)


def oracle(ctx, ev):
    b = ev.bound()
    if not must_return(ctx, ev): return
    xg, yg = np.asarray(b["xgrid"], float), np.asarray(b["ygrid"], float)
    d = float(b["max_dist_from_cml"])
    P = np.stack([xg.ravel(), yg.ravel()], 1)
    must, may = np.zeros(len(P), bool), np.zeros(len(P), bool)
    for c in b["cml_list"]:
        m = c.metadata
        dist, inside = seg_dist(P, np.array([m["site_a_longitude"], m["site_a_latitude"]], float), np.array([m["site_b_longitude"], m["site_b_latitude"]], float))
        must |= (dist < d * (1 - 1e-7)) & inside | (dist < d * .994)
        may |= dist <= d * (1 + 1e-7)
    o = np.asarray(ev.value)
    if o.shape != xg.shape: ctx.violation(f"mask has shape {o.shape}, grid {xg.shape}", ev); return
    o = o.astype(bool).ravel()
    if (must & ~o).any():
        k = int(np.flatnonzero(must & ~o)[0]); ctx.violation(f"grid point {P[k].tolist()} (index {np.unravel_index(k, xg.shape)}) is near a path but not covered", ev)
    if (o & ~may).any():
        k = int(np.flatnonzero(o & ~may)[0]); ctx.violation(f"grid point {P[k].tolist()} (index {np.unravel_index(k, xg.shape)}) is covered but too far from all paths", ev)
    if must.any() and not must.all(): ctx.tag("mixed")
    if (~may).any(): ctx.tag("uncovered")
    if must.any(): ctx.tag("covered")
    ctx.tag(f"links{min(len(b['cml_list']), 3)}")
    if xg.shape[0] != xg.shape[-1]: ctx.tag("non_square")


def install(ctx):
    ctx.watch("pycomlink.spatial.coverage", "calc_coverage_mask", oracle)


def case(ctx, rng, i):
    n = int(gen.pick(rng, [1, 1, 2, 3, 6]))
    if gen.big(i, 60, 120): n = int(rng.integers(30, 200)); ctx.tag("many_links")
    off = gen.pick(rng, [np.zeros(2), np.array([11., 48.]), np.array([5e5, 4e6])]); sc = gen.pick(rng, [1., .3, 1e4, .02])
    cmls = []
    for _ in range(n):
        a = off + rng.uniform(0, 1, 2) * sc; b = off + rng.uniform(0, 1, 2) * sc
        k = rng.random()
        if k < .15: b[0] = a[0]
        elif k < .3: b[1] = a[1]
        elif k < .36: b = a.copy(); ctx.tag("zero_length")
        if cmls and rng.random() < .3:      # shared site, parallel or reversed link
            m = gen.pick(rng, cmls).metadata; pa = np.array([m["site_a_longitude"], m["site_a_latitude"]]); pb = np.array([m["site_b_longitude"], m["site_b_latitude"]])
            t = gen.pick(rng, ["site_a", "site_b", "chain", "reversed", "mirror"])
            if t == "site_a": a = pa
            elif t == "site_b": b = pb
            elif t == "chain": a = pb
            elif t == "reversed": a, b = pb, pa
            else: a, b = pa, np.array([2 * pa[0] - pb[0], pb[1]])
            ctx.tag("topology:" + t)
        cmls.append(Cml(a, b) if rng.random() < .7 else Cml(a.tolist(), b.tolist()))
    if rng.random() < .15: cmls.append(cmls[0])
    d = float(gen.pick(rng, [.05, .2, .5, float(rng.uniform(.01, 1))]) * sc)
    ny, nx = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    if gen.big(i, 100, 120): ny = int(rng.integers(20, 90)); nx = gen.big_n(rng, 9000) // ny; ctx.tag("large_grid")
    x, y = off[0] + np.linspace(-.3, 1.3, nx) * sc, off[1] + np.linspace(-.3, 1.3, ny) * sc
    k = rng.random()
    if k < .6: xg, yg = np.meshgrid(x, y)
    elif k < .75: xg, yg = np.meshgrid(x, y, indexing="ij")
    else: xg, yg = off[0] + rng.uniform(-.3, 1.3, (ny, nx)) * sc, off[1] + rng.uniform(-.3, 1.3, (ny, nx)) * sc
    if rng.random() < .5:                # points around the link ends and just inside / outside the covered distance
        m = rng.random(xg.shape) < .6
        c = [cmls[int(j)].metadata for j in rng.integers(0, len(cmls), xg.size)]
        e = [gen.pick(rng, "ab") for _ in c]
        px = np.array([q[f"site_{k}_longitude"] for q, k in zip(c, e)]).reshape(xg.shape); py = np.array([q[f"site_{k}_latitude"] for q, k in zip(c, e)]).reshape(xg.shape)
        r = d * rng.choice([.5, .9, .98, 1.02, 1.2, 1.35], xg.shape); w = rng.uniform(0, 2 * np.pi, xg.shape)
        xg, yg = np.where(m, px + r * np.cos(w), xg), np.where(m, py + r * np.sin(w), yg); ctx.tag("points_at_link_ends")
    if rng.random() < .2: xg, yg = xg[::-1], yg[::-1]
    if rng.random() < .2: xg, yg = np.asfortranarray(xg), np.asfortranarray(yg)
    if rng.random() < .15: yg = np.asfortranarray(yg)
    r = ctx.quiet(cov.calc_coverage_mask, cmls, xg, yg, d) if rng.random() < .5 else ctx.quiet(cov.calc_coverage_mask, cml_list=cmls, xgrid=xg, ygrid=yg, max_dist_from_cml=d)
    if r is not None and i % 3 == 0:
        r2 = ctx.quiet(cov.calc_coverage_mask, cmls + [Cml(off + rng.uniform(0, 1, 2) * sc, off + rng.uniform(0, 1, 2) * sc)], xg, yg, d)
        if r2 is not None:
            if (np.asarray(r) & ~np.asarray(r2)).any():
                P = np.stack([xg.ravel(), yg.ravel()], 1); bad = (np.asarray(r) & ~np.asarray(r2)).ravel()
                # union of buffers: allow points within rounding of a boundary
                dd = np.min([seg_dist(P, np.array([c.metadata["site_a_longitude"], c.metadata["site_a_latitude"]], float), np.array([c.metadata["site_b_longitude"], c.metadata["site_b_latitude"]], float))[0] for c in cmls], 0)
                if (bad & (dd < d * .994)).any(): ctx.violation("adding a link un-covered a point")
            ctx.tag("link_added")
