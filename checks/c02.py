"""C02 linear baseline."""
import numpy as np
from vlib import gen, ref
from vlib.core import mismatch, must_return
import pycomlink.processing.baseline as bl


def oracle(ctx, ev):
    b = ev.bound()
    if not must_return(ctx, ev):
        return
    rsl, wet, ign = np.asarray(b["rsl"], float), np.asarray(b["wet"], float), bool(b["ignore_nan"])
    exp, kill = ref.baseline_linear(rsl, wet, ign)
    atol = 1e-10 * (1 + np.nanmax(np.abs(rsl), initial=0))
    ctx.check(mismatch(ev.value, exp, rtol=1e-9, atol=atol, what="baseline"), ev)
    un = np.isnan(wet); w = ~un & (wet != 0)
    w[0] = False
    if len(wet) > 8192: ctx.tag("large")
    if un.any(): ctx.tag("wet_nan_ignored" if ign else "wet_nan")
    if kill.any(): ctx.tag("killed_gap")
    if kill.any() and any(kill[s - 1] and not kill[s] and e < len(w) for s, e in ref.segments(w)): ctx.tag("shared_bound")
    if w[-1]: ctx.tag("trailing_wet")
    if np.isnan(rsl).any(): ctx.tag("signal_nan")
    if wet[0] == 1: ctx.tag("first_flag_wet")
    for s, e in ref.segments(w):
        if e < len(w) and e - s > 1: ctx.tag("enclosed_event")
        if e < len(w) and e - s == 1: ctx.tag("one_sample_event")


def install(ctx):
    ctx.watch("pycomlink.processing.baseline", "baseline_linear", oracle, pure=True)


LAY = tuple(k for k in gen.LAYOUTS if k != "list")


def case(ctx, rng, i):
    n = gen.length(rng, 1, 80, 3000) if not gen.big(i) else gen.big_n(rng)
    x = gen.signal(rng, n, nan=rng.random() < 0.3)
    if rng.random() < .05:
        keep = rng.random(n) < gen.pick(rng, [0., .02, .1])
        x = np.where(keep, x, np.nan); ctx.tag("hardly_any_signal")
    w = gen.wet_flags(rng, n)
    xo, _, k1 = gen.dress(rng, x, LAY)
    wo, _, k2 = gen.dress_flags(rng, w, ("plain", "bool", "int", "strided", "series", "readonly", "u1", "f4", "reversed", "offset"))
    ctx.tag("signal:" + k1, "wet:" + k2)
    how = rng.random()
    if how < 0.3:
        ctx.quiet(bl.baseline_linear, xo, wo)
    elif how < 0.6:
        ctx.quiet(bl.baseline_linear, xo, wo, bool(rng.random() < 0.5))
    else:
        ctx.quiet(bl.baseline_linear, rsl=xo, wet=wo, ignore_nan=bool(rng.random() < 0.5))
