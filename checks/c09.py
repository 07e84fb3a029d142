"""C09 blackout gap markers and masks."""
import numpy as np
import pandas as pd
import xarray as xr
from vlib import gen, ref
from vlib.core import mismatch, must_return
import pycomlink.processing.blackout_gap_detection as bo


def markers(rsl, thr):
    n = len(rsl)
    st, en = np.zeros(n, bool), np.zeros(n, bool)
    for i in range(n):
        if rsl[i] == rsl[i] and rsl[i] < thr:
            st[i] = np.isnan(rsl[(i + 1) % n])
            en[i] = np.isnan(rsl[(i - 1) % n])
    return st, en


def o_markers(ctx, ev):
    b = ev.bound()
    if not must_return(ctx, ev): return
    r = b["rsl"]
    if isinstance(r, xr.DataArray) and "time" in r.dims:
        arr, thr = r, b["rsl_threshold"]
        oth = [d for d in r.dims if d != "time"]
        e = [xr.zeros_like(r, dtype=bool) for _ in range(2)]
        import itertools
        for idx in itertools.product(*[range(r.sizes[d]) for d in oth]):
            sel = dict(zip(oth, idx))
            t = thr.isel({d: j for d, j in sel.items() if d in thr.dims}).values.item() if isinstance(thr, xr.DataArray) else thr
            for k, m in enumerate(markers(r.isel(sel).values, float(t))): e[k][sel] = xr.DataArray(m, dims="time") if not oth else m
        if not (isinstance(ev.value, tuple) and len(ev.value) == 2): ctx.violation("not two outputs", ev); return
        for k, nm in enumerate(("start", "end")):
            v = ev.value[k]
            if not isinstance(v, xr.DataArray) or set(v.dims) != set(r.dims): ctx.violation(f"{nm}: not labelled like the input", ev); return
            ctx.check(mismatch(v.transpose(*r.dims).values.astype(float), e[k].values.astype(float), what=nm + " markers"), ev)
        ctx.tag("markers_labelled")
        return
    x = np.asarray(r, float)
    st, en = markers(x, float(b["rsl_threshold"]))
    if not (isinstance(ev.value, tuple) and len(ev.value) == 2): ctx.violation("not two outputs", ev); return
    ctx.check(mismatch(np.asarray(ev.value[0], float), st.astype(float), what="start markers"), ev)
    ctx.check(mismatch(np.asarray(ev.value[1], float), en.astype(float), what="end markers"), ev)
    if st[-1] and len(x) > 1: ctx.tag("circular_start")
    if en[0] and len(x) > 1: ctx.tag("circular_end")
    if (st & en).any(): ctx.tag("both_markers")
    if (x == float(b["rsl_threshold"])).any(): ctx.tag("at_threshold")


def o_mask(ctx, ev):
    b = ev.bound()
    if not must_return(ctx, ev): return
    x, st, en = np.asarray(b["rsl"], float), np.asarray(b["gap_start"], bool), np.asarray(b["gap_end"], bool)
    isn = np.isnan(x)
    if (isn & (st | en)).any() or (st & ~np.roll(isn, -1)).any() or (en & ~np.roll(isn, 1)).any():
        return "skip"       # markers that do not belong to this series
    exp, alt = np.zeros(len(x), bool), np.zeros(len(x), bool)
    for s, e in ref.segments(isn):
        if s > 0 and st[s - 1]:
            exp[s:e] = True
            alt[s:e] = not en[s - 1]
    out = np.asarray(ev.value)
    if out.shape != x.shape: ctx.violation(f"mask has shape {out.shape}, series {x.shape}", ev); return
    out = out.astype(bool)
    if (out & ~isn).any(): ctx.violation("mask covers a valid sample", ev); return
    if np.array_equal(out, exp):
        pass
    elif np.array_equal(out, alt):
        ctx.violation("a gap that follows a single below-threshold sample between two gaps is not masked", ev, finding="gap_after_single_sample")
    else:
        ctx.check(mismatch(out.astype(float), exp.astype(float), what="mask"), ev)
    if exp.any(): ctx.tag("masked_gap")
    if (isn & ~exp).any(): ctx.tag("unmasked_gap")
    for s, e in ref.segments(isn):
        if e - s > 1 and exp[s]: ctx.tag("long_masked_gap")
        if e == len(x) and exp[s]: ctx.tag("masked_gap_at_end")
        if e - s > 1440 and exp[s]: ctx.tag("day_long_masked_gap")
        if s == 0: ctx.tag("gap_at_start")


def install(ctx):
    ctx.watch("pycomlink.processing.blackout_gap_detection", "get_blackout_start_and_end", o_markers, pure=True)
    ctx.watch("pycomlink.processing.blackout_gap_detection", "created_blackout_gap_mask_from_start_end_markers", o_mask, pure=True)


def series(rng, n):
    x = np.round(gen.signal(rng, n, level=-60.)) if rng.random() < .6 else gen.pick(rng, [rng.normal(-60, 8, n), rng.choice([-70., -65., -60.], n)])
    x = np.clip(np.array(x, float), -120, 20)
    m = gen.nan_mask(rng, n, .05)
    if rng.random() < .3: m = gen.runs(rng, n, .4)
    x[m] = np.nan
    if rng.random() < .06: x[rng.random(n) < .15] = gen.pick(rng, [-np.inf, -np.inf, np.inf])
    return x


def case(ctx, rng, i):
    n = gen.length(rng, 1, 60, 1500) if not gen.big(i) else gen.big_n(rng)
    x = series(rng, n)
    thr = gen.pick(rng, [-65, -65.0, -60.0, float(rng.uniform(-75, -45)), np.float64(-62)])
    if i % 8 == 0:
        dims = ["time", "cml_id", "channel_id"][:int(rng.integers(1, 4))]
        sz = [n] + [int(rng.integers(1, 4)) for _ in dims[1:]]
        d = np.stack([series(rng, n) for _ in range(int(np.prod(sz[1:], dtype=int)))], -1).reshape(sz)
        da = xr.DataArray(d, dims=dims, coords={k: np.arange(s) for k, s in zip(dims, sz)}).transpose(*rng.permutation(dims))
        t = xr.DataArray(rng.uniform(-70, -50, sz[1]), dims="cml_id", coords=dict(cml_id=np.arange(sz[1]))) if len(dims) > 1 and rng.random() < .5 else thr
        ctx.quiet(bo.get_blackout_start_and_end, da, t)
        return
    o, xc, k = gen.dress(rng, x, ("plain", "strided", "reversed", "readonly", "f4", "offset", "column"))
    ctx.tag("rsl:" + k)
    r = ctx.quiet(bo.get_blackout_start_and_end, o, thr) if rng.random() < .5 else ctx.quiet(bo.get_blackout_start_and_end, rsl=o, rsl_threshold=thr)
    if r is None: return
    st, en = r
    m = ctx.quiet(bo.created_blackout_gap_mask_from_start_end_markers, o, np.asarray(st), np.asarray(en))
    o2 = np.ascontiguousarray(o[::-1]) if rng.random() < .5 else o[::-1]
    mr = ctx.quiet(bo.created_blackout_gap_mask_from_start_end_markers, o2, np.asarray(en)[::-1], np.asarray(st)[::-1])
    if m is None or mr is None: return
    comb = np.asarray(m) | np.asarray(mr)[::-1]
    exp, alt = np.zeros(n, bool), np.zeros(n, bool)
    low = ~np.isnan(xc) & (xc < float(thr))
    isn = np.isnan(xc)
    for s, e in ref.segments(isn):
        l, rr = s > 0 and low[s - 1], e < n and low[e]
        exp[s:e] = l or rr
        # known finding: a single sample between two gaps ends the one but does not start the other
        l2 = l and not isn[(s - 2) % n]
        r2 = rr and not isn[(e + 1) % n]
        alt[s:e] = l2 or r2
        if l != rr: ctx.tag("one_sided_gap")
    if not np.array_equal(comb, exp):
        if np.array_equal(comb, alt):
            ctx.violation("a gap next to a single below-threshold sample between two gaps is not covered", finding="gap_after_single_sample")
        else:
            ctx.check(mismatch(comb.astype(float), exp.astype(float), what="forward | reversed mask"), extra=dict(rsl=xc.tolist()[:100], thr=float(thr)))
    ctx.tag("combined")
