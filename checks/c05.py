"""C05 labelled arrays: per-series results, labels kept, argument binding."""
import itertools
import numpy as np
import pandas as pd
import xarray as xr
from vlib import gen
from vlib.core import mismatch, must_return, short
import pycomlink.processing.baseline as bl
import pycomlink.processing.wet_antenna as wa
import pycomlink.processing.k_R_relation as kR
import pycomlink.processing.blackout_gap_detection as bo
import pycomlink.processing.nearby_rain_retrival as nr

MODS = dict(baseline_constant=bl, waa_schleiss_2013=wa, waa_leijnse_2008_from_A_obs=wa, waa_pastorek_2021_from_A_obs=wa,
            calc_R_from_A=kR, get_blackout_start_and_end=bo, nearby_rainfall_retrival=nr)
NOUT = dict(get_blackout_start_and_end=2)


NUDGE = {"f_Hz", "f_GHz", "L_km", "length", "a", "b"}


def nudged(args, n=0):
    """the same arguments but for the last bits: the separate calls must not live on what the labelled call remembered"""
    return {k: v * (1 + 2e-15 * (n + 1)) if k in NUDGE and isinstance(v, float) and v != 100. else v for k, v in args.items()}


def disordered(das):
    """dimensions along which the labelled arguments do not share their labels in the same order"""
    lab = {}
    bad = set()
    for v in das.values():
        for d in v.dims:
            if d in v.coords:
                x = v.coords[d].values
                if d in lab and not np.array_equal(lab[d], x):
                    bad.add(d)
                lab.setdefault(d, x)
    return bad


def differing(das):
    """dimensions along which the labelled arguments cover different sets of labels"""
    lab, bad = {}, set()
    for v in das.values():
        for d in v.dims:
            if d in v.coords:
                x = set(v.coords[d].values.tolist())
                if lab.setdefault(d, x) != x:
                    bad.add(d)
    return bad


def judge_disordered(ctx, ev, b, das):
    """labels in another order: refusing is fine, matching by label is fine, matching by position is not"""
    ctx.tag("disordered_labels")
    if ev.exc is not None:
        ctx.tag("disordered:refused")
        return
    nout = NOUT.get(ev.name, 1)
    vals = ev.value if nout > 1 else (ev.value,)
    dims = [d for d in {d: 0 for v in das.values() for d in v.dims}]
    extra = [d for d in dims if d != "time"]
    f = getattr(MODS[ev.name], ev.name)
    for j, out in enumerate(vals):
        if not isinstance(out, xr.DataArray) or set(out.dims) != set(dims):
            ctx.violation(f"output {j} is not a labelled array over {dims}", ev)
            continue
        for idx in itertools.product(*[range(out.sizes[d]) for d in extra]):
            o = out.isel(dict(zip(extra, idx)))
            where = {d: o.coords[d].values for d in extra if d in o.coords}
            args = {}
            for k, v in b.items():
                if k in das:
                    w = v.sel({d: l for d, l in where.items() if d in v.dims and d in v.coords})
                    w = w.isel({d: q for d, q in zip(extra, idx) if d in w.dims})
                    if "time" in w.dims and "time" in w.coords and "time" in o.coords:
                        w = w.sel(time=o.time)
                    args[k] = w.values.copy() if "time" in w.dims else w.values.item()
                else:
                    args[k] = v
            r = f(**args)
            ctx.check(mismatch(o.values, np.asarray(r[j] if nout > 1 else r, float), rtol=1e-9, atol=1e-12,
                               what=f"output {j} of link {where}: arguments matched by position, not by label"), ev)


def oracle(ctx, ev):
    b = ev.bound()
    das = {} if b is None else {k: v for k, v in b.items() if isinstance(v, xr.DataArray)}
    if b is None:
        ctx.tag("unbindable")
        if ev.exc is None:
            ctx.violation("misspelled or missing argument was accepted", ev)
        return
    if not any("time" in v.dims for v in das.values()):
        return "skip"
    if differing(das):
        ctx.tag("different_labels:" + ",".join(sorted("time" if d == "time" else "link" for d in differing(das))))
        if ev.exc is None:
            ctx.violation(f"arguments covering different {sorted(differing(das))} were combined without any word", ev)
        return
    if disordered(das):
        return judge_disordered(ctx, ev, b, das)
    if not must_return(ctx, ev):
        return
    nout = NOUT.get(ev.name, 1)
    vals = ev.value if nout > 1 else (ev.value,)
    if nout > 1 and not (isinstance(ev.value, tuple) and len(ev.value) == nout):
        ctx.violation(f"expected {nout} labelled arrays", ev)
        return
    sizes = {}
    for v in das.values():
        sizes.update({d: s for d, s in v.sizes.items()})
    extra = [d for d in sizes if d != "time"]
    f = getattr(MODS[ev.name], ev.name)
    exp = [np.full([sizes[d] for d in extra] + [sizes["time"]], np.nan) for _ in range(nout)]
    for idx in itertools.product(*[range(sizes[d]) for d in extra]):
        args = {}
        for k, v in b.items():
            if k in das:
                w = v.isel({d: j for d, j in zip(extra, idx) if d in v.dims})
                args[k] = w.values.copy() if "time" in w.dims else w.values.item()
            else:
                args[k] = v
        r = f(**nudged(args, sum(x * 7 ** q for q, x in enumerate(idx))))
        for j, x in enumerate(r if nout > 1 else (r,)):
            exp[j][idx] = np.asarray(x, float)
    for j, v in enumerate(vals):
        if not isinstance(v, xr.DataArray):
            ctx.violation(f"output {j} is {type(v).__name__}, not a labelled array", ev)
            continue
        if set(v.dims) != set(sizes):
            ctx.violation(f"output {j} has dims {v.dims}, expected {set(sizes)}", ev)
            continue
        vt = v.transpose(*extra, "time")
        ctx.check(mismatch(vt.values, exp[j], rtol=1e-9, atol=1e-12, what=f"output {j} vs separate calls"), ev)
        for k, a in das.items():
            for c in a.coords:
                if c in v.coords:
                    x, y = v.coords[c], a.coords[c]
                    if x.dims != y.dims or not np.array_equal(x.values, y.values):
                        if all(c not in o.coords or np.array_equal(o.coords[c].values, y.values) for o in das.values()):
                            ctx.violation(f"coordinate {c} of {k} was changed", ev)
                elif all(c not in o.coords or (o.coords[c].dims == a.coords[c].dims and np.array_equal(o.coords[c].values, a.coords[c].values)) for o in das.values()):
                    ctx.violation(f"coordinate {c} of {k} was lost", ev)
    ctx.tag("fn:" + ev.name, f"extra_dims:{len(extra)}", f"positional:{min(len(ev.args), 3)}")
    if any("time" in v.dims and v.dims[-1] != "time" for v in das.values()): ctx.tag("time_not_last")
    if any("time" not in v.dims and v.ndim for v in das.values()): ctx.tag("per_link_parameter")
    if len({frozenset(v.dims) for v in das.values()}) > 1: ctx.tag("different_dims")


def install(ctx):
    for n, m in MODS.items():
        ctx.watch(m.__name__, n, oracle, pure=True)


def case(ctx, rng, i):
    name = list(MODS)[i % len(MODS)]
    fn = getattr(MODS[name], name)
    T = gen.length(rng, 2, 40) if rng.random() < .9 else 1
    nx = int(gen.pick(rng, [0, 1, 1, 2, 2, 3]))
    extra = list(rng.permutation(["cml_id", "channel_id", "sublink"]))[:nx]
    sizes = {d: int(rng.integers(1, 4)) for d in extra}
    if T == 1: ctx.tag("single_time_step")
    if gen.big(i):
        T = gen.big_n(rng, 20000); extra = extra[:2]; sizes = {d: 2 for d in extra}; ctx.tag("long_series")
    elif gen.big(i, 200):
        T = int(rng.integers(2, 12)); extra = extra[:2] or ["cml_id"]; sizes = {d: (int(rng.integers(70, 300)) if k == 0 else 2) for k, d in enumerate(extra)}; ctx.tag("many_links")
    coords = {d: (gen.ids(rng, s) if rng.random() < .8 else np.arange(s)) for d, s in sizes.items()}
    coords["time"] = gen.times(rng, T)
    aux = {}
    if extra:
        aux["site_lat"] = (extra[0], rng.normal(48, 1, sizes[extra[0]]))
    aux["quality"] = ("time", rng.integers(0, 5, T))
    use_coords = rng.random() < .9

    def lab(maker, dims, with_aux=False):
        """labelled array over dims (any order), filled per element / per series"""
        dims = list(rng.permutation(dims)) if dims else []
        oth = [d for d in dims if d != "time"]
        if "time" in dims:
            data = np.array([maker(T) for _ in range(int(np.prod([sizes[d] for d in oth], dtype=int)))]).reshape([sizes[d] for d in oth] + [T])
            da = xr.DataArray(data, dims=oth + ["time"])
        else:
            data = np.array([maker(1)[0] for _ in range(int(np.prod([sizes[d] for d in oth], dtype=int)))]).reshape([sizes[d] for d in oth])
            da = xr.DataArray(data, dims=oth)
        if use_coords:
            da = da.assign_coords({d: coords[d] for d in dims})
            if with_aux:
                da = da.assign_coords({k: v for k, v in aux.items() if v[0] in dims})
                if rng.random() < .3:
                    da = da.assign_coords(campaign="x1")
        return da.transpose(*dims)

    def sub(p_all=.7):
        return list(extra) if rng.random() < p_all else [d for d in extra if rng.random() < .5]

    def par(maker, p=.6):
        """a parameter: scalar or per-link labelled array"""
        if extra and rng.random() < p:
            s = sub(.5) or [extra[0]]
            return lab(maker, s)
        v = maker(1)[0]
        return v.item() if hasattr(v, "item") else v

    def tseries(maker):
        return lab(maker, sub() + ["time"], with_aux=rng.random() < .5)

    main_dims = list(extra) + ["time"]
    sig = lambda n: gen.signal(rng, n, nan=rng.random() < .4)
    att = lambda n: np.abs(rng.normal(0, 5, n))

    def attn(n):
        x = att(n); x[gen.nan_mask(rng, n)] = np.nan; return x
    wet = lambda n: gen.wet_flags(rng, n, nan=True)
    uni = lambda lo, hi: (lambda n: gen.uni(rng, lo, hi, n))
    pol = lambda n: np.array([gen.pick(rng, gen.POL_H + gen.POL_V) for _ in range(n)], dtype=object)
    main = lambda mk: lab(mk, main_dims, with_aux=True)
    if name == "baseline_constant":
        a = dict(trsl=main(sig), wet=tseries(wet), n_average_last_dry=par(lambda n: rng.integers(1, 6, n), .3))
        opt = ["n_average_last_dry"]
    elif name == "waa_schleiss_2013":
        a = dict(rsl=main(lambda n: rng.normal(3, 3, n)), baseline=tseries(lambda n: rng.normal(1, 1, n)), wet=tseries(lambda n: gen.wet_flags(rng, n, nan=False)),
                 waa_max=par(uni(1, 5)), delta_t=par(uni(.1, 2)), tau=par(uni(10, 30)))
        opt = []
    elif name == "waa_leijnse_2008_from_A_obs":
        a = dict(A_obs=main(attn), f_Hz=par(uni(5e9, 80e9)), pol=par(pol), L_km=par(uni(.5, 20)), T_K=par(uni(275, 305), .2),
                 gamma=par(uni(1e-5, 3e-5), .2), delta=par(uni(.2, .3), .2))
        opt = ["T_K", "gamma", "delta"]
    elif name == "waa_pastorek_2021_from_A_obs":
        a = dict(A_obs=main(attn), f_Hz=par(uni(5e9, 80e9)), pol=par(pol), L_km=par(uni(.5, 20)), A_max=par(uni(3, 14), .3), zeta=par(uni(.4, .8), .3), d=par(uni(.05, .2), .3))
        opt = ["A_max", "zeta", "d"]
    elif name == "calc_R_from_A":
        a = dict(A=main(lambda n: np.where(rng.random(n) < .1, np.nan, rng.normal(1, 3, n))), L_km=par(uni(.5, 20)))
        if rng.random() < .5: a.update(f_GHz=par(uni(5, 80)), pol=par(pol), a=None, b=None)
        else: a.update(f_GHz=None, pol=None, a=par(uni(.01, 1)), b=par(uni(.8, 1.3)))
        a.update(a_b_approximation=gen.pick(rng, ["ITU_2003", "ITU_2005"]), R_min=par(uni(0, 1), .3))
        opt = ["a_b_approximation", "R_min"] + [k for k in ("f_GHz", "pol", "a", "b") if a[k] is None]
    elif name == "get_blackout_start_and_end":
        a = dict(rsl=main(lambda n: np.where(gen.nan_mask(rng, n, .1), np.nan, rng.normal(-60, 10, n))), rsl_threshold=par(uni(-70, -50)))
        opt = []
    else:
        pref = main(lambda n: np.where(rng.random(n) < .1, np.nan, rng.normal(-45, 1, n)))
        a = dict(pref=pref, p_c_min=tseries(lambda n: rng.normal(-52, 4, n)), p_c_max=tseries(lambda n: rng.normal(-48, 3, n)), F=tseries(lambda n: rng.normal(-20, 20, n)),
                 length=par(uni(.5, 20)))
        if rng.random() < .5: a.update(f_GHz=par(uni(5, 80)), pol=par(pol), a=None, b=None)
        else: a.update(f_GHz=None, pol=None, a=par(uni(.01, 1)), b=par(uni(.8, 1.3)))
        a.update(a_b_approximation=gen.pick(rng, ["ITU_2003", "ITU_2005"]), waa_max=par(uni(1, 4), .3), alpha=par(uni(.1, .5), .3), F_value_threshold=gen.pick(rng, [-32.5, None, -10.]))
        opt = ["a_b_approximation", "waa_max", "alpha", "F_value_threshold"] + [k for k in ("f_GHz", "pol", "a", "b") if a[k] is None]
        # this function writes to R at F positions: F must have the dims of R
        a["F"] = lab(lambda n: rng.normal(-20, 20, n), main_dims)
    keys = list(a)
    npos = int(rng.integers(0, len(keys) + 1))
    drop = {k for k in opt if rng.random() < .5}
    pos, kw = [], {}
    for j, k in enumerate(keys):
        if j < npos and k not in drop and len(pos) == j:
            pos.append(a[k])
        elif k not in drop or (k in ("f_GHz", "pol", "a", "b") and a[k] is not None):
            kw[k] = a[k]
    items = list(kw.items())
    kw = dict(items[j] for j in rng.permutation(len(items))) if items else {}
    if drop & set(keys): ctx.tag("defaults_used")
    ctx.quiet(fn, *pos, **kw)
    # the same call with the labels of one argument in another order
    if use_coords and i % 3 == 0:
        cand = [k for k, v in a.items() if isinstance(v, xr.DataArray) and k not in drop and any(d != "time" and v.sizes[d] > 1 for d in v.dims)]
        if len(cand) and sum(isinstance(v, xr.DataArray) for v in a.values()) > 1:
            k = gen.pick(rng, cand)
            d = gen.pick(rng, [d for d in a[k].dims if d != "time" and a[k].sizes[d] > 1])
            n = a[k].sizes[d]
            a2 = dict({q: v for q, v in a.items() if q not in drop or (q in ("f_GHz", "pol", "a", "b") and v is not None)})
            a2[k] = a[k].isel({d: np.roll(np.arange(n), int(rng.integers(1, n)))})
            ctx.quiet(fn, **a2)
    # the same call with one argument covering fewer or other links or times
    if use_coords and i % 3 == 1:
        das = [v for k, v in a.items() if isinstance(v, xr.DataArray) and k not in drop]
        cand = [(k, d) for k, v in a.items() if isinstance(v, xr.DataArray) and k not in drop for d in v.dims
                if v.sizes[d] > 1 and sum(d in w.dims for w in das) > 1]
        if cand:
            k, d = gen.pick(rng, cand)
            n = a[k].sizes[d]
            a2 = dict({q: v for q, v in a.items() if q not in drop or (q in ("f_GHz", "pol", "a", "b") and v is not None)})
            how = rng.random()
            if how < .6 or d != "time":
                c = np.sort(rng.permutation(n)[:int(rng.integers(1, n))]) if how < .4 else (np.arange(1, n) if how < .7 else np.arange(n - 1))
                a2[k] = a[k].isel({d: c})
            else:
                a2[k] = a[k].assign_coords(time=a[k].time.values + np.diff(a[k].time.values[:2])[0])
            ctx.quiet(fn, **a2)
    # argument errors
    if i % 4 == 0:
        if rng.random() < .5 and kw:
            k = gen.pick(rng, list(kw)); kw2 = dict(kw); v = kw2.pop(k); kw2[k + gen.pick(rng, ["_", "s", "2"])] = v
            ctx.quiet(fn, *pos, **kw2)
        elif rng.random() < .5:
            ctx.quiet(fn, *pos, **dict(kw, unknown_option=1))
        else:
            req = [k for k in keys if k not in opt and k not in ("f_GHz", "pol", "a", "b", "n_average_last_dry")]
            k = gen.pick(rng, req[1:] or req)
            ctx.quiet(fn, **{q: v for q, v in a.items() if q != k and v is not None})
        ctx.tag("bad_arguments")
