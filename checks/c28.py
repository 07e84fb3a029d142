"""C28 compiled and interpreted execution agree, stay in bounds, read no uninitialised memory.

The same cases run in four processes: interpreted, compiled, compiled with
bounds checks, compiled with zero-filled heap; every process fills new and
freed memory with other bytes (MALLOC_PERTURB_, plus the array cache below).
run.py compares the recorded outcomes."""
import numpy as np
import pandas as pd
from vlib import gen
import pycomlink.processing.baseline as bl
import pycomlink.processing.wet_antenna as wa
import pycomlink.processing.blackout_gap_detection as bo
import pycomlink.spatial.idw as idw
import pycomlink.spatial.interpolator as ip
from checks import c13

SAME_CASES = True
POISON = dict(interp=12345.5, jit=-98765.25, bounds=4.5e7, jit0=0.0)


def poison(ctx, *sizes):
    """numpy keeps freed small blocks; fill them with a value of this mode."""
    keep = []
    for s in sizes:
        for _ in range(3):
            keep.append(np.full(s, POISON[ctx.mode]))
            b = np.empty(s, bool); b[:] = ctx.mode != "jit0"; keep.append(b)
    del keep


def seen(ctx, ev):
    if ev.exc is not None: ctx.tag("raised")
    return None


W = "pycomlink.processing."


def install(ctx):
    ctx.watch(W + "baseline", "baseline_constant", seen, pure=True)
    ctx.watch(W + "baseline", "baseline_linear", seen, pure=True)
    ctx.watch(W + "wet_antenna", "waa_schleiss_2013", seen, pure=True)
    ctx.watch(W + "blackout_gap_detection", "created_blackout_gap_mask_from_start_end_markers", seen, pure=True)
    ctx.watch("pycomlink.spatial.idw", "Invdisttree.__call__", seen, name="Invdisttree.__call__")


ALL = gen.LAYOUTS
ARR = ("plain", "plain", "strided", "reversed", "readonly", "f4", "offset", "series", "int", "column")
FL = ("plain", "bool", "int", "strided", "series", "readonly", "u1", "f4", "reversed", "offset")


def series(rng, ctx, layouts, flags, nmin=0):
    n = gen.length(rng, nmin, 60, 4000, .05) if not gen.big(ctx.case_index) else gen.big_n(rng, 40000)
    if n > 8192: ctx.tag("large")
    x = gen.signal(rng, n, nan=rng.random() < .4) if n else np.zeros(0)
    w = gen.wet_flags(rng, n) if n else np.zeros(0)
    if n and rng.random() < .1: w[:n // 2] = np.nan
    if n and rng.random() < .1: x[rng.integers(n)] = gen.pick(rng, [np.inf, -np.inf])
    m = len(w)
    if rng.random() < .08:                        # lengths that do not fit
        w = w[:int(rng.integers(0, n + 1))] if n else np.ones(2)
    if len(w) != n: ctx.tag("different_length")
    if n == 0: ctx.tag("empty")
    if n == 1: ctx.tag("one_sample")
    xo, _, kx = gen.dress(rng, x, layouts)
    wo, _, kw = gen.dress_flags(rng, w, flags)
    ctx.tag("signal:" + kx, "wet:" + kw)
    return n, xo, wo, len(w) != n


def lengths(ctx, label, differ):
    """Series of different lengths must have been refused."""
    if differ:
        _, kind, v, _ = ctx.records[ctx.case_index][-1]
        if kind != "raised": ctx.violation(f"{label} returned {str(v)[:200]} for series of different lengths")
        else: ctx.tag("different_length_refused")


def const(ctx, rng):
    n, x, w, bad = series(rng, ctx, ALL, FL + ("list",))
    nav = int(gen.pick(rng, [1, 1, 2, 3, 5, 24, n, n + 3]))
    nav = max(nav, 1)
    poison(ctx, n, nav)
    ctx.record("baseline_constant", bl.baseline_constant, x, w, nav)
    lengths(ctx, "baseline_constant", bad)
    ctx.tag("baseline_constant")


def linear(ctx, rng):
    n, x, w, bad = series(rng, ctx, ARR, FL)
    poison(ctx, n, n + 1)
    ctx.record("baseline_linear", bl.baseline_linear, x, w, ignore_nan=bool(rng.random() < .5))
    lengths(ctx, "baseline_linear", bad)
    ctx.tag("baseline_linear")


def schleiss(ctx, rng):
    n, x, w, bad = series(rng, ctx, ALL, FL + ("list",))
    b = np.asarray(x, float) - np.round(rng.normal(2, 3, n), 2)
    if rng.random() < .2 and n: b[gen.nan_mask(rng, n)] = np.nan
    if rng.random() < .08: b = b[:int(gen.pick(rng, [max(n - 1, 0), 1, 0]))]
    bad = bad or len(b) != n
    bo_, _, _ = gen.dress(rng, b, ALL)
    poison(ctx, n)
    ctx.record("waa_schleiss_2013", wa.waa_schleiss_2013, x, bo_, w, float(rng.uniform(.5, 5)), float(gen.pick(rng, [1, .25, 5])), float(gen.pick(rng, [15., 3., 40.])))
    lengths(ctx, "waa_schleiss_2013", bad)
    ctx.tag("waa_schleiss_2013")


def blackout(ctx, rng):
    n = gen.length(rng, 0, 60, 3000, .05) if not gen.big(ctx.case_index) else gen.big_n(rng, 40000)
    x = np.round(rng.normal(-60, 8, n))
    if n: x[gen.runs(rng, n, .3)] = np.nan
    if n and rng.random() < .7:
        st, en = bo.get_blackout_start_and_end(x, -60.)
    else:
        st, en = gen.runs(rng, n), gen.runs(rng, n)
    if rng.random() < .08:
        st = st[:max(0, n - int(rng.integers(1, 4)))]; ctx.tag("different_length")
    if rng.random() < .05:
        en = en[:max(0, n - int(rng.integers(1, 4)))]; ctx.tag("different_length")
    o = gen.dress(rng, x, ("plain", "plain", "strided", "f4"))[0]
    poison(ctx, n)
    ctx.record("blackout mask", bo.created_blackout_gap_mask_from_start_end_markers, o, np.ascontiguousarray(st), np.ascontiguousarray(en), tol=0)
    lengths(ctx, "blackout mask", not len(x) == len(st) == len(en))
    ctx.tag("blackout")


def idwcase(ctx, rng):
    n = int(gen.pick(rng, [1, 2, 3, 5, 8, 9, 20, 60]))
    X = c13.points(rng, n); z = c13.values(rng, n)
    if rng.random() < .4: z[gen.nan_mask(rng, n, 0)] = np.nan
    kw = dict(nnear=int(gen.pick(rng, [2, 3, 6, n + 4])), p=gen.pick(rng, [1, 2, 1.5]),
              max_distance=gen.pick(rng, [None, None, float(rng.uniform(.05, 4)), 1e-9]))
    ctx.tag("idw")
    if kw["nnear"] > n: ctx.tag("fewer_points_than_nnear")
    if rng.random() < .5:
        Q = np.concatenate([c13.points(rng, int(rng.integers(1, 30))), X[rng.integers(0, n, 3)]])
        poison(ctx, n, kw["nnear"], len(Q))
        t = idw.Invdisttree(X)
        for zz in (z, z.astype(np.float32), z[::-1], np.asfortranarray(np.stack([z, z * 2], 1))[:, 0]):
            ctx.record("Invdisttree", t, Q, zz, **kw)
    else:
        xg, yg = c13.grid(rng, X, None if not gen.big(ctx.case_index, 99) else gen.big_n(rng, 9000))
        poison(ctx, n, kw["nnear"], xg.size)
        it = ip.IdwKdtreeInterpolator(exclude_nan=bool(rng.random() < .8), **kw)
        ctx.record("IdwKdtreeInterpolator", it, X[:, 0], X[:, 1], z, xg, yg)


def case(ctx, rng, i):
    k = i % 4
    if k == 0: const(ctx, rng)
    elif k == 1: linear(ctx, rng)
    elif k == 2: (schleiss if i % 8 == 2 else blackout)(ctx, rng)
    else: idwcase(ctx, rng)
