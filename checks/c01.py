"""C01 constant baseline."""
import numpy as np
from vlib import gen, ref
from vlib.core import mismatch, must_return
import pycomlink.processing.baseline as bl


def oracle(ctx, ev):
    b = ev.bound()
    if not must_return(ctx, ev):
        return
    trsl, wet, n = np.asarray(b["trsl"], float), np.asarray(b["wet"], float), int(b["n_average_last_dry"])
    out = np.asarray(ev.value)
    exp = ref.baseline_constant(trsl, wet, n)
    atol = 1e-10 * (1 + np.nanmax(np.abs(trsl), initial=0))
    ctx.check(mismatch(out, exp, rtol=1e-9, atol=atol, what="baseline"), ev)
    un = np.isnan(wet)
    w = ~un & (wet != 0)
    if len(wet) > 8192: ctx.tag("large")
    if un.any(): ctx.tag("wet_nan")
    if (w[1:] & un[:-1]).any(): ctx.tag("wet_after_nan")
    if (w[1:] & ~w[:-1] & ~un[:-1]).any(): ctx.tag("wet_start")
    if n > 1: ctx.tag("n>1")
    if n > len(trsl): ctx.tag("n>len")
    elif n > 60: ctx.tag("n>60")
    if np.isnan(trsl).any(): ctx.tag("signal_nan")
    for s, e in ref.segments(w):
        if n <= s and e - s > 1: ctx.tag("long_event")
        if s > n and w[s - n:s].any(): ctx.tag("event_within_n_of_previous")


def install(ctx):
    ctx.watch("pycomlink.processing.baseline", "baseline_constant", oracle, pure=True)


def case(ctx, rng, i):
    n = gen.length(rng, 1, 80, 3000) if not gen.big(i) else gen.big_n(rng)
    x = gen.signal(rng, n, nan=rng.random() < 0.3)
    if rng.random() < .05:
        keep = rng.random(n) < gen.pick(rng, [0., .02, .1])
        x = np.where(keep, x, np.nan); ctx.tag("hardly_any_signal")
    w = gen.wet_flags(rng, n)
    xo, _, k1 = gen.dress(rng, x)
    wo, _, k2 = gen.dress_flags(rng, w)
    ctx.tag("signal:" + k1, "wet:" + k2)
    nav = int(gen.pick(rng, [1, 1, 2, 3, 5, 10, n, n + 3, 24] + ([61, 120, 240, 1000, n // 3] if n > 200 else [])))
    how = rng.random()
    if how < 0.25:
        ctx.quiet(bl.baseline_constant, xo, wo)
    elif how < 0.5:
        ctx.quiet(bl.baseline_constant, xo, wo, nav)
    elif how < 0.9:
        ctx.quiet(bl.baseline_constant, trsl=xo, wet=wo, n_average_last_dry=nav)
    else:
        # metamorphic: the signal inside a wet event has no influence on the baseline there
        y = np.array(x)
        un = np.isnan(w)
        inside = ~un & (w != 0) & (np.arange(n) >= nav)
        y[inside] = rng.normal(0, 1e3, int(inside.sum()))
        r1 = ctx.quiet(bl.baseline_constant, x, w, nav)
        r2 = ctx.quiet(bl.baseline_constant, y, w, nav)
        if r1 is not None and r2 is not None:
            ctx.check(mismatch(r2, r1, atol=1e-9, what="baseline after changing the signal inside wet periods"))
            ctx.tag("signal_in_event_changed")
