"""C23 wet/dry metrics against pairwise counting."""
import math, warnings
import numpy as np
import pandas as pd
from vlib import gen
from vlib.core import must_return
import pycomlink.validation.stats as st
import pycomlink.validation.validator as va


def same(a, e, tol=1e-12):
    a = float(a)
    return (math.isnan(a) and math.isnan(e)) or a == e or abs(a - e) <= tol * max(1, abs(e))


def div(a, b): return a / b if b else math.nan


def count(r, p):
    c = dict(tp=0, tn=0, fp=0, fn=0, nan=0, rn=0, pn=0)
    for x, y in zip(r, p):
        x, y = float(x), float(y)
        c["rn"] += math.isnan(x); c["pn"] += math.isnan(y)
        if math.isnan(x) or math.isnan(y): c["nan"] += 1; continue
        c[("t" if (x > 0) == (y > 0) else "f") + ("p" if y > 0 else "n")] += 1
    return c


def count_many(r, p):
    """the same counting for long records"""
    r, p = r.astype(float), p.astype(float); rn, pn = np.isnan(r), np.isnan(p); ok = ~rn & ~pn; a, b = r[ok] > 0, p[ok] > 0
    n = lambda m: int(np.count_nonzero(m))
    return dict(tp=n(a & b), tn=n(~a & ~b), fp=n(~a & b), fn=n(a & ~b), nan=n(~ok), rn=n(rn), pn=n(pn))


def oracle(ctx, ev):
    b = ev.bound(); R, P_ = np.asarray(b["reference"]), np.asarray(b["predicted"])
    if R.shape != P_.shape:
        ctx.check(None if ev.exc is not None else "arrays of different shape accepted", ev); ctx.tag("bad_shape"); return
    if not must_return(ctx, ev): return
    c = (count if R.size < 20000 else count_many)(R.ravel(), P_.ravel()); v = ev.value
    tp, tn, fp, fn = c["tp"], c["tn"], c["fp"], c["fn"]
    den = math.sqrt(tp + fp) * math.sqrt(tp + fn) * math.sqrt(tn + fp) * math.sqrt(tn + fn)
    e = dict(false_wet_rate=div(fp, fp + tn), missed_wet_rate=div(fn, fn + tp), true_wet_rate=div(tp, fn + tp), true_dry_rate=div(tn, fp + tn),
             matthews_correlation=0.0 if tp + fp == 0 else div(tp * tn - fp * fn, den), N_dry_reference=tn + fp, N_wet_reference=tp + fn, N_true_wet=tp, N_true_dry=tn, N_false_wet=fp, N_missed_wet=fn,
             N_all_pairs=R.size, N_nan_pairs=c["nan"], N_nan_reference_only=c["rn"], N_nan_predicted_only=c["pn"])
    for k, x in e.items():
        if not same(getattr(v, k), x, 1e-9): ctx.violation(f"{k} is {getattr(v, k)!r}, expected {x!r} for counts {c}", ev); return
    m = float(v.matthews_correlation)
    if not math.isnan(m) and abs(m) > 1 + 1e-9: ctx.violation(f"correlation {m}", ev)
    if c["nan"]: ctx.tag("nan_pairs")
    if c["rn"] and c["pn"]: ctx.tag("nan_both_sides")
    if tp and tn and fp and fn: ctx.tag("all_four")
    if tp + fp == 0: ctx.tag("nothing_predicted_wet")
    if tn + fn == 0 and tp + fp: ctx.tag("everything_predicted_wet")
    if tp + fn == 0: ctx.tag("no_wet_reference")
    if tp + tn + fp + fn == 0: ctx.tag("no_valid_pair")
    ctx.tag(f"ndim{R.ndim}", f"ref:{R.dtype.kind}", f"pred:{P_.dtype.kind}")


def o_err(ctx, ev):
    b = ev.bound(); t, p = np.asarray(b["df_wet_truth"]).ravel(), np.asarray(b["df_wet"]).ravel()
    if not must_return(ctx, ev): return
    c = count(t, p); f, m = div(c["fp"], c["fp"] + c["tn"]), div(c["fn"], c["fn"] + c["tp"])
    if ev.name == "calc_wet_error_rates": g = (ev.value.false, ev.value.missed)
    else: g = (ev.value[1], ev.value[0])
    if not (same(g[0], f) and same(g[1], m)): ctx.violation(f"false-wet {g[0]!r} missed-wet {g[1]!r}, expected {f!r} {m!r}", ev)
    ctx.tag("deprecated")


def install(ctx):
    ctx.watch("pycomlink.validation.stats", "calc_wet_dry_performance_metrics", oracle)
    ctx.watch("pycomlink.validation.stats", "calc_wet_error_rates", o_err)
    ctx.watch("pycomlink.validation.validator", "calc_wet_dry_error", o_err)


def shape(rng):
    return gen.pick(rng, [(int(rng.integers(1, 60)),), (int(rng.integers(1, 60)),), (1,), (int(rng.integers(1, 9)), int(rng.integers(1, 9))), (2, int(rng.integers(1, 5)), 3), (0,), (int(rng.integers(60, 3000)),)])


def flags(rng, s):
    x = (rng.random(s) < gen.pick(rng, [.1, .5, .9, 0., 1.])).astype(float)
    k = gen.pick(rng, ["bool", "int", "float", "nan", "nan", "u1", "f4", "values"])
    if k == "bool": return x.astype(bool)
    if k == "int": return x.astype(np.int64)
    if k == "u1": return x.astype(np.uint8)
    if k == "f4": return x.astype(np.float32)
    if k == "values": x = x * rng.uniform(.01, 3, s) - (x == 0) * (rng.random(s) < .2) * .5
    if k in ("nan", "values"): x[rng.random(s) < gen.pick(rng, [.05, .3, .3, 1.])] = np.nan
    return x


def case(ctx, rng, i):
    s = shape(rng) if i % 500 != 7 else (int(rng.integers(150000, 400000)),)      # long records: counts beyond 16 and products beyond 32 bit
    if s[0] > 1e5: ctx.tag("long_record")
    r, p = flags(rng, s), flags(rng, s)
    if s[0] > 1e5: r, p = (rng.random(s) < .5).astype(float), p if rng.random() < .5 else (rng.random(s) < .5)
    if rng.random() < .1: p = r.copy()
    if len(s) == 1 and rng.random() < .2: r, p = pd.Series(r), pd.Series(p)
    elif rng.random() < .2: r = np.asfortranarray(r)
    elif rng.random() < .1: r, p = r[::-1], p[::-1]
    if rng.random() < .03:
        r = np.zeros(s); p = np.zeros(tuple(s) + (2,)); ctx.quiet(st.calc_wet_dry_performance_metrics, r, p); return
    v = ctx.quiet(st.calc_wet_dry_performance_metrics, r, p)
    if v is not None and len(s) == 1 and i % 4 == 0:
        q = rng.permutation(s[0]); v2 = ctx.quiet(st.calc_wet_dry_performance_metrics, np.asarray(r)[q], np.asarray(p)[q])
        if v2 is not None and any(not same(a, float(b), 1e-12) for a, b in zip(v2, v)): ctx.violation("result depends on the order of the pairs")
    if i % 4 == 1:
        a, b = rng.random(s) < .4, rng.random(s) < .5
        if len(s) == 1 and rng.random() < .5: a, b = pd.Series(a), pd.Series(b)
        for fn in (st.calc_wet_error_rates, va.calc_wet_dry_error):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                if rng.random() < .5: ctx.quiet(fn, a, b)
                else: ctx.quiet(fn, df_wet=b, df_wet_truth=a)
            if not any("deprecated" in str(x.message) for x in w): ctx.violation(f"{fn.__name__} does not warn about its deprecation")
            else: ctx.tag("deprecation_warning")
