"""C29 min-max attenuation and rain rate, step by step."""
import inspect, math
import numpy as np
from vlib import gen, ref
from vlib.core import mismatch, must_return
import pycomlink.processing.min_max as mm
import pycomlink.processing.k_R_relation as kR


def attenuation_name():
    """the function is private by its name, so it is found by its documented arguments if it got another name"""
    if hasattr(mm, "_calc_A_min_max"): return "_calc_A_min_max"
    for n, f in vars(mm).items():
        if inspect.isfunction(f) and {"tx_min", "tx_max", "rx_min", "rx_max", "window"} <= set(inspect.signature(f).parameters): return n
    raise RuntimeError("no function for the min-max attenuation in pycomlink.processing.min_max")


A_MIN_MAX = attenuation_name()


def filled(v):
    """missing values replaced by the rounded mean (both roundings at a tie)"""
    ok = [x for x in v if not math.isnan(x)]
    if len(ok) == len(v): return [v]
    if not ok: return [v]
    m = math.fsum(ok) / len(ok); c = {float(round(m))}
    if abs(m - math.floor(m) - .5) < 1e-9 * max(1, abs(m)): c |= {float(math.floor(m)), float(math.ceil(m))}
    return [[q if math.isnan(x) else x for x in v] for q in sorted(c)]


def o_A(ctx, ev):
    b = ev.bound()
    tm, tM, rm, rM = (np.asarray(b[k], float) for k in ("tx_min", "tx_max", "rx_min", "rx_max"))
    w = int(b["window"]); bias = (b["gT"] + b["gR"]) / 2; n = len(tm)
    if n == 0: return "skip"
    if not must_return(ctx, ev): return
    big = [float(x) for x in tM - rm - bias]; small = [float(x) for x in tm - rM + bias]
    msg = None
    for B in filled(big):
        for S in filled(small):
            e = [math.nan] * n
            for i in range(w, n):
                s = S[i - w:i + 1]
                z = math.nan if any(math.isnan(q) for q in s) else min(s)
                d = B[i] - z
                e[i] = d if math.isnan(d) else max(0.0, d)
            msg = mismatch(ev.value, e, 1e-9, 1e-9, what="attenuation")
            if msg is None: break
        if msg is None: break
    if not ctx.check(msg, ev): return
    if n > 8192: ctx.tag("large")
    if any(map(math.isnan, big)) or any(map(math.isnan, small)): ctx.tag("missing")
    if all(map(math.isnan, big)): ctx.tag("all_missing")
    if w == 0: ctx.tag("window0")
    if w >= n: ctx.tag("window>=len")
    v = np.asarray(ev.value)
    if (v == 0).any(): ctx.tag("clipped")
    if (v > 0).any(): ctx.tag("attenuation")
    if b["gT"] != 1.0 or b["gR"] != .6: ctx.tag("own_bias")


def o_R(ctx, ev):
    b = ev.bound()
    if b["f_GHz"] is None and (b["a"] is None or b["b"] is None): return "skip"
    if not must_return(ctx, ev): return
    A = np.atleast_1d(np.asarray(b["Ar_max"], float))
    a, bb = (b["a"], b["b"]) if b["f_GHz"] is None else ref.itu_ab(float(b["f_GHz"]), b["pol"])
    am = a * (math.log(b["k"]) + 0.5772156649) ** bb
    e = np.array([ref.rain_rate(x, b["L"], am, bb, b["R_min"]) for x in A.ravel()]).reshape(A.shape)
    r0 = np.array([ref.rain_rate(x, b["L"], am, bb, 0) for x in A.ravel()]).reshape(A.shape)
    with np.errstate(invalid="ignore"): edge = np.abs(r0 - b["R_min"]) <= 1e-7 * max(b["R_min"], 1e-300)
    ctx.check(mismatch(np.asarray(ev.value), e, 2e-7, 1e-300, ignore=edge, what="R"), ev)
    if np.isnan(A).any(): ctx.tag("A_nan")
    if (A < 0).any(): ctx.tag("A_negative")
    with np.errstate(invalid="ignore"):
        if ((r0 > 0) & (r0 < b["R_min"])).any(): ctx.tag("below_R_min")
    if (np.asarray(ev.value) > 0).any(): ctx.tag("raining")
    ctx.tag("by_f" if b["f_GHz"] is not None else "by_ab", f"R_ndim{np.asarray(b['Ar_max']).ndim}")
    if b["k"] != 90: ctx.tag("own_k")


def install(ctx):
    ctx.watch("pycomlink.processing.min_max", A_MIN_MAX, o_A, pure=True, name="_calc_A_min_max")
    ctx.watch("pycomlink.processing.k_R_relation", "calc_R_from_A_min_max", o_R, pure=True)


def case(ctx, rng, i):
    if i % 2 == 0:
        n = gen.length(rng, 1, 80, 500) if not gen.big(i) else gen.big_n(rng)
        t0 = np.round(rng.uniform(0, 20)) + rng.integers(0, 2, n); t1 = t0 + rng.integers(0, 3, n)
        r1 = np.round(-45 + np.cumsum(rng.normal(0, .4, n))) - np.where(gen.runs(rng, n), rng.uniform(0, 25), 0); r0 = r1 - rng.integers(0, 8, n)
        xs = [np.asarray(v, float) for v in (t0, t1, r0, r1)]
        if rng.random() < .3: xs = [v + rng.normal(0, .3, n) for v in xs]
        for v in xs:
            if rng.random() < .3: v[gen.nan_mask(rng, n, 0)] = np.nan
        if rng.random() < .04: xs[int(rng.integers(4))][:] = np.nan
        if not any(np.isnan(v).any() for v in xs) and rng.random() < .2: xs = [np.round(v).astype(np.int64) for v in xs]
        elif rng.random() < .15: xs = [np.repeat(v, 2)[::2] for v in xs]
        kw = {}
        if rng.random() < .4: kw["window"] = int(gen.pick(rng, [0, 1, 3, 12, n - 1, n, n + 3]))
        if rng.random() < .4: kw.update(gT=float(gen.pick(rng, [rng.uniform(0, 2), 0., 1.])), gR=float(gen.pick(rng, [rng.uniform(0, 2), 0., 1.])))
        kw = {k: max(0, v) for k, v in kw.items()}
        fn = getattr(mm, A_MIN_MAX)
        A = ctx.quiet(fn, *xs, **kw) if rng.random() < .7 else ctx.quiet(fn, tx_min=xs[0], tx_max=xs[1], rx_min=xs[2], rx_max=xs[3], **kw)
        if A is None: return
    else:
        nd = int(rng.integers(0, 3)) if not gen.big(i) else 1
        A = rng.exponential(4, tuple(int(v) for v in rng.integers(1, 12, nd)) if not gen.big(i) else gen.big_n(rng)) - .5
        if nd:
            A[rng.random(A.shape) < .1] = np.nan
            if rng.random() < .15: A = A.tolist()
            elif rng.random() < .15: A = rng.integers(-1, 20, A.shape)
        else: A = gen.pick(rng, [float(A), np.float64(A), int(A)])
    kw = dict(L=float(gen.uni(rng, .1, 30)))
    if rng.random() < .5: kw["f_GHz"] = float(gen.uni(rng, 1, 100)); kw.update(gen.pick(rng, [{}, dict(pol="V"), dict(pol="h"), dict(pol="H")]))
    else: kw.update(a=float(gen.uni(rng, .01, 2)), b=float(gen.uni(rng, .7, 1.3)))
    if rng.random() < .4: kw["k"] = int(gen.pick(rng, [1, 2, 15, 90, 900]))
    if rng.random() < .4: kw["R_min"] = float(gen.pick(rng, [0., .01, 1., 5.]))
    if kw.get("k") == 1: kw["k"] = 2
    ctx.quiet(kR.calc_R_from_A_min_max, A, **kw)
    if i % 5 == 1:      # a rate exactly at R_min is kept
        r0 = ctx.quiet(kR.calc_R_from_A_min_max, A, **(kw | dict(R_min=0.)))
        if r0 is None: return
        r0 = np.asarray(r0, float); c = r0[r0 > 0]
        if not len(c): return
        m = float(gen.pick(rng, list(c)))
        r1 = ctx.quiet(kR.calc_R_from_A_min_max, A, **(kw | dict(R_min=m)))
        if r1 is None: return
        e = np.where(np.isnan(r0) | (r0 >= m), r0, 0.)
        ctx.check(mismatch(r1, e, 0, 0, what="R with R_min set to one of the rates")); ctx.tag("exactly_at_R_min")
