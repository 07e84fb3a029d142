"""C31 the documented call interface: argument names, order and defaults.

The workloads of the other checks drive the public functions.  Each observed
call is repeated in other spellings - all arguments by keyword, a prefix by
position in the documented order, optional arguments left out, and the same
with the documented default values written out - and the outcomes compared."""
import importlib, pkgutil
import numpy as np
import xarray as xr
import pycomlink
import pycomlink.spatial.interpolator as ip
import pycomlink.spatial.idw as idw
from vlib import gen
from vlib.core import Ctx, digest, short, snap
from vlib.defaults import DEFAULTS, PARAMS
from checks import c27
from checks.c27 import FUNCS, SRC, arrays, same

SKIP = {"calc_wet_error_rates"}
ORIG, KEY, SUBS, NEW = {}, {}, {}, []
HEAVY = {"c11", "c15", "c18", "c19", "c20"}


def recorder(ctx, ev):
    if sum(x.nbytes for x in arrays([list(ev.args), list(ev.kwargs.values())])) > 3e5: return
    NEW.append((ev.name, ev.args, ev.kwargs))


def install(ctx):
    for m in pkgutil.walk_packages(pycomlink.__path__, "pycomlink."):
        if ".tests" not in m.name:
            try: importlib.import_module(m.name)
            except Exception: pass
    import torch
    torch.set_num_threads(1)
    for s in SRC: SUBS[s] = importlib.import_module("checks." + s)
    for mod, n in FUNCS:
        k = f"{mod}.{n}"
        if n.startswith("_") or n in SKIP or k not in PARAMS: continue
        w = ctx.watch(mod, n, recorder, name=n)
        ORIG[n] = w.__wrapped_original__; KEY[n] = k


def run(f, args, kwargs):
    try:
        return f(*snap(tuple(args)), **snap(dict(kwargs))), None
    except Exception as e:
        return None, e


def differs(a, b):
    (v, e), (w, x) = a, b
    if (e is None) != (x is None): return f"{'raised ' + repr(x) if x is not None else 'returned ' + short(w)} instead of {'raised ' + repr(e) if e is not None else 'returned ' + short(v)}"
    if e is not None: return None if type(e) is type(x) else f"raised {x!r} instead of {e!r}"
    if isinstance(v, xr.DataArray) and v.name != w.name: return f"named {w.name} instead of {v.name}"
    return same(v, w)


def spellings(ctx, rng, name, args, kwargs):
    f, names, dflt = ORIG[name], PARAMS[KEY[name]], DEFAULTS.get(KEY[name], {})
    lead = args[:1] if names and names[0] == "self" else ()
    nm = names[len(lead):]; pos = args[len(lead):]
    if len(pos) > len(nm) or any(k not in nm for k in kwargs) or set(nm[:len(pos)]) & set(kwargs): return    # not a valid call
    given = dict(zip(nm, pos)) | dict(kwargs)
    if any(k not in dflt for k in nm if k not in given): return
    info = dict(call=name, given={k: short(v) for k, v in given.items()})
    full = dflt | given
    first = run(f, lead, given)                                # everything by keyword
    ctx.tag("called:" + name); ctx.events += 1; ctx.judged += 1; ctx.funcs[name] += 1
    ctx.digests.add(digest(name, given))
    # 1. by position in the documented order
    k = int(rng.integers(0, len(nm) + 1))
    if rng.random() < .5: k = len(nm)
    m = differs(first, run(f, (*lead, *[full[n] for n in nm[:k]]), {n: v for n, v in given.items() if n not in nm[:k]}))
    if m: ctx.violation(f"{name} with the first {k} arguments by position in the documented order: {m}", extra=info)
    ctx.tag("positional")
    # 2. omitted arguments are the documented defaults
    opt = [n for n in nm if n in dflt]
    if not opt: return
    mode = rng.random()
    drop = [n for n in opt if n not in given or (mode < .3 and rng.random() < .5) or mode > .8]
    some = [n for n in opt if n in given]
    if .3 <= mode <= .8 and some: drop.append(gen.pick(rng, some))
    if not drop: return
    rest = {n: v for n, v in given.items() if n not in drop}
    a = run(f, lead, rest)
    expl = rest | {n: dflt[n] for n in drop if n in given or rng.random() < .9}
    b = run(f, lead, expl)
    m = differs(b, a)
    if m: ctx.violation(f"{name} without {drop} is not the same as with the documented defaults {[dflt[n] for n in drop]}: {m}", extra=info)
    ctx.tag("omitted")
    chg = [n for n in drop if n in given]
    if len(chg) == 1 and b[1] is None and first[1] is None and differs(first, b): ctx.tag(f"matters:{name}.{chg[0]}")


def objects(ctx, rng):
    """the same for the configuration of the interpolators"""
    n = int(rng.integers(10, 25))
    X = rng.uniform(0, 3, (n, 2)); z = rng.exponential(3, n)
    xg, yg = np.meshgrid(rng.uniform(0, 3, 3), rng.uniform(0, 3, 3))
    if rng.random() < .5:
        cls, opts = ip.IdwKdtreeInterpolator, dict(nnear=int(rng.integers(2, 8)), p=gen.pick(rng, [1, 3, .5]), exclude_nan=False, max_distance=float(rng.uniform(.5, 2)))
        if rng.random() < .3: z[0] = np.nan
    else:
        cls, opts = ip.OrdinaryKrigingInterpolator, dict(nlags=int(rng.integers(4, 12)), variogram_model=gen.pick(rng, ["exponential", "gaussian"]), weight=False, n_closest_points=int(rng.integers(3, 9)), backend=gen.pick(rng, ["loop", "vectorized"]),
                                                         exclude_nan=False, variogram_parameters=gen.pick(rng, [None, dict(sill=float(rng.uniform(1, 3)), range=float(rng.uniform(.5, 3)), nugget=float(rng.uniform(0, .4)))]))
        if opts["n_closest_points"]: opts["backend"] = "loop"
    key = f"{cls.__module__}.{cls.__qualname__}.__init__"
    if key not in DEFAULTS: return
    d = {k: v for k, v in DEFAULTS[key].items()}
    nm = PARAMS[key][1:]
    keep = {k: v for k, v in opts.items() if rng.random() < .35}
    if keep.get("n_closest_points") and "backend" not in keep: keep["backend"] = "loop"

    def use(*a, **k): return cls(*a, **k)(X[:, 0].copy(), X[:, 1].copy(), z.copy(), xg.copy(), yg.copy())
    a = run(use, (), keep); b = run(use, (), d | keep); c = run(use, [(d | keep)[q] for q in nm], {})
    m = differs(b, a)
    if m: ctx.violation(f"{cls.__name__}({keep}) differs from the one with the documented defaults written out: {m}")
    m = differs(b, c)
    if m: ctx.violation(f"{cls.__name__}({keep}) differs from the one with all arguments by position: {m}")
    ctx.tag("object:" + cls.__name__); ctx.events += 3; ctx.judged += 3; ctx.nontrivial(cls.__name__, keep, X, z)
    for q in keep:
        w = run(use, (), {**d, **{t: v for t, v in keep.items() if t != q}})
        if differs(b, w): ctx.tag(f"matters:{cls.__name__}.{q}")


def targeted(rng, k):
    """calls in which the less visible options matter, all options given with uncommon values"""
    T = int(rng.integers(60, 130))
    if k == 0:       # network of links of which some lie around the default radius
        T = int(rng.integers(40, 110)); n = int(rng.integers(6, 10)); ids = np.array([f"c{q}" for q in range(n)])
        lon, lat = 10 + rng.uniform(-.13, .13, n), 48 + rng.uniform(-.09, .09, n)
        ds = ORIG["calc_distance_between_cml_endpoints"](ids, lat, lon, lat + .02, lon + rng.uniform(-.03, .03, n))
        storm = np.where(gen.runs(rng, T, .3), -rng.uniform(0, 4, T), 0)
        P = -50 + rng.normal(0, .5, (n, T)) + storm * rng.uniform(.3, 1.5, (n, 1))
        if rng.random() < .5: P[:, :int(rng.integers(1, 40))] = np.nan
        pm = xr.DataArray(P, dims=("cml_id", "time"), coords=dict(cml_id=ids, time=gen.times(rng, T, step="15min"), length=("cml_id", rng.uniform(1, 6, n))))
        return "nearby_wetdry", dict(pmin=pm, ds_dist=ds, radius=float(rng.uniform(8, 25)), thresh_median_P=float(rng.uniform(-2.5, -.3)), thresh_median_PL=float(rng.uniform(-1.5, -.1)),
                                     min_links=int(rng.integers(0, 6)), interval=int(gen.pick(rng, [20, 30, 10])), timeperiod=int(gen.pick(rng, [4, 8, 12])), min_hours=int(gen.pick(rng, [1, 2, 4])))
    if k == 1:
        t = gen.times(rng, T); mk = lambda a: xr.DataArray(a, dims="time", coords=dict(time=t))
        ref = -45 + rng.normal(0, .1, T); mx = ref - rng.exponential(2, T); mn = mx - rng.exponential(8, T)
        return "nearby_rainfall_retrival", dict(pref=mk(ref), p_c_min=mk(mn), p_c_max=mk(mx), F=mk(rng.normal(-30, 12, T)), length=float(rng.uniform(.5, 6)), f_GHz=float(rng.uniform(8, 40)), pol=gen.pick(rng, ["H", "V"]),
                                                a_b_approximation="ITU_2003", waa_max=float(rng.uniform(.2, 4)), alpha=float(rng.uniform(0, 1)), F_value_threshold=float(rng.uniform(-50, -10)))
    if k == 2:
        return "calc_R_from_A", dict(A=rng.exponential(2, 30), L_km=float(rng.uniform(.5, 20)), f_GHz=float(rng.uniform(6, 60)), pol=gen.pick(rng, ["H", "V"]), a_b_approximation="ITU_2003", R_min=float(rng.uniform(0, 2)))
    if k == 3:
        x = np.cumsum(rng.normal(0, 1, int(rng.integers(700, 1300)))) * .05 + rng.normal(0, .3)
        return "find_lowest_std_dev_period", dict(rsl=x, window_length=int(rng.integers(20, 500)))
    n, m, L = int(rng.integers(190, 220)), 2, int(rng.integers(3, 150))
    ds = xr.Dataset({v: (("cml_id", "time"), rng.normal(50, 3, (m, n))) for v in ("a", "b")}, coords=dict(cml_id=["x", "y"], time=gen.times(rng, n)))
    if k == 4: return "create_samples", dict(ds=ds, cml_ids=["y", "x"], input_vars=["b", "a"], seq_len=L, time_dim="time", cml_dim="cml_id")
    if k == 5:
        c = int(rng.integers(2, 20))
        return "store_predictions", dict(ds=ds, model_prob=rng.random(c), cml_ids=np.array(["x", "y"])[rng.integers(0, 2, c)], time_indices=rng.permutation(n)[:c], model_name="mine", time_dim="time", cml_dim="cml_id", cml_ids_to_use=["x"]) | \
            ({} if rng.random() < .5 else dict(var_name="prob"))
    x = rng.normal(0, 1, (n, 2))
    if k == 6:
        A = rng.exponential(3, T); return "calc_R_from_A_min_max", dict(Ar_max=A, L=float(rng.uniform(.5, 20)), f_GHz=float(rng.uniform(6, 60)), pol="V", R_min=float(rng.uniform(.2, 2)), k=float(rng.uniform(20, 120)))
    return "stft_classification", dict(rsl=np.cumsum(rng.normal(0, 1, 400)) * .1, window_length=int(gen.pick(rng, [32, 64])), threshold=float(rng.uniform(.1, 3)), f_divide=float(rng.uniform(.001, .004)), dry_length=int(rng.integers(80, 150)), mirror=True, f_sampling=float(gen.pick(rng, [1 / 50, 1 / 90])))


def case(ctx, rng, i):
    s = SRC[i % len(SRC)]
    sub = Ctx(s.upper(), ctx.mode, ctx.seed, "quick"); sub.scratch, sub.repo = ctx.scratch, ctx.repo
    j = gen.case_number(ctx, rng, s, .015)
    if s == "c19" and j % 160 != 41: j = j - j % 4 + 1 + int(rng.integers(3))
    NEW.clear()
    for k in range(1 if s in HEAVY else 4):
        SUBS[s].case(sub, rng, j + k * (8 if s == "c20" else 4))
    ctx._local.off = 1
    try:
        new = list(NEW)
        o = rng.permutation(len(new))
        for q in o[:6]:
            spellings(ctx, rng, *new[int(q)])
        if i % 4 == 1: objects(ctx, rng)
        if i % 2 == 0:
            name, kw = targeted(rng, int(gen.pick(rng, [0, 1, 1, 2, 3, 3, 4, 5, 5, 6, 7, 7])))
            if name in ORIG:
                for _ in range(4): spellings(ctx, rng, name, (), kw)
    finally:
        ctx._local.off = 0
