"""C06 Schleiss 2013 dynamic wet antenna attenuation: online recursion check."""
import numpy as np
from vlib import gen
from vlib.core import mismatch, must_return
import pycomlink.processing.wet_antenna as wa


def oracle(ctx, ev):
    b = ev.bound()
    if not must_return(ctx, ev):
        return
    rsl, base, wet = (np.asarray(b[k], float) for k in ("rsl", "baseline", "wet"))
    mx, dt, tau = (float(b[k]) for k in ("waa_max", "delta_t", "tau"))
    A = rsl - base
    out = np.asarray(ev.value, float)
    if out.shape != A.shape:
        ctx.violation(f"result has shape {out.shape}, expected {A.shape}", ev); return
    if out[0] != 0:
        ctx.violation(f"does not start at 0 but at {out[0]}", ev)
    rate = 3 * dt / tau
    tol = 1e-10 * (1 + np.nanmax(np.abs(A), initial=0) + abs(mx)) * (1 + rate)
    seen = set()
    for i in range(1, len(A)):
        if np.isnan(A[i]):
            seen.add("A_nan")
            if not np.isnan(out[i]):
                ctx.violation(f"sample {i}: observed attenuation is missing but the result is {out[i]!r}", ev); break
            continue
        e = min(A[i], mx)
        if wet[i] == 1:
            if np.isnan(out[i - 1]):     # no value to relax from: only the bounds apply
                seen.add("after_gap")
                if np.isnan(out[i]) or out[i] > e + tol:
                    ctx.violation(f"sample {i} after a gap: got {out[i]!r}, bound is {e!r}", ev); break
                continue
            r = out[i - 1] + (mx - out[i - 1]) * rate
            seen.add("wet_relaxing" if r < e else ("wet_at_A" if A[i] <= mx else "wet_at_max"))
            e = min(e, r)
        else:
            seen.add("flag_nan" if np.isnan(wet[i]) else "dry")
        if not abs(out[i] - e) <= tol:
            ctx.violation(f"sample {i}: got {out[i]!r}, recursion gives {e!r} (A={A[i]}, wet={wet[i]}, previous={out[i-1]})", ev); break
        if out[i] > mx + tol or out[i] > A[i] + tol:
            ctx.violation(f"sample {i} exceeds maximum or observed attenuation", ev); break
    if len(A) > 8192: seen.add("large")
    ctx.tag(*seen)


def install(ctx):
    ctx.watch("pycomlink.processing.wet_antenna", "waa_schleiss_2013", oracle, pure=True)


def case(ctx, rng, i):
    n = gen.length(rng, 1, 70, 2000) if not gen.big(i) else gen.big_n(rng)
    w = gen.wet_flags(rng, n, nan=rng.random() < .3)
    base = gen.signal(rng, n) if rng.random() < .3 else np.full(n, float(gen.pick(rng, [50., 60.3, 0., 55.7])))
    A = gen.pick(rng, [rng.exponential(3, n), rng.normal(0, 2, n), np.abs(np.cumsum(rng.normal(0, 1, n))), np.where(np.isnan(w), 0, w) * rng.uniform(1, 20), rng.integers(-2, 8, n).astype(float)])
    rsl = base + A
    if rng.random() < .25: rsl = rsl.copy(); rsl[gen.nan_mask(rng, n)] = np.nan
    ro, _, k1 = gen.dress(rng, rsl); bo, _, k2 = gen.dress(rng, base); wo, _, k3 = gen.dress_flags(rng, w)
    ctx.tag("rsl:" + k1, "baseline:" + k2, "wet:" + k3)
    mx = gen.pick(rng, [2.2, 2, 5.0, float(rng.uniform(.1, 10)), 0.0]); dt = gen.pick(rng, [1, 1.0, .25, 5.0, float(rng.uniform(.05, 3))]); tau = gen.pick(rng, [15, 15.0, 20.5, float(rng.uniform(5, 60)), 3.0, 2.0])
    if ctx.mode != "interp":     # few type signatures, each costs a compilation
        mx, dt, tau = (float(mx), float(dt), float(tau)) if rng.random() < .8 else (3, 1, 17)
        if "readonly" in (k1, k2, k3): ro, bo, wo = rsl, base, w
    if rng.random() < .5: ctx.quiet(wa.waa_schleiss_2013, ro, bo, wo, mx, dt, tau)
    else: ctx.quiet(wa.waa_schleiss_2013, rsl=ro, baseline=bo, wet=wo, waa_max=mx, delta_t=dt, tau=tau)
    if i % 6 == 0 and n > 3:     # causality: the future has no influence
        k = int(rng.integers(1, n))
        r1 = ctx.quiet(wa.waa_schleiss_2013, rsl, base, w, float(mx), float(dt), float(tau))
        r2 = ctx.quiet(wa.waa_schleiss_2013, rsl[:k], base[:k], w[:k], float(mx), float(dt), float(tau))
        if r1 is not None and r2 is not None:
            ctx.check(mismatch(r2, np.asarray(r1)[:k], what="prefix of the series")); ctx.tag("prefix_pair")
