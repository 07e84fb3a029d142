"""C27 purity and repeatability.

The workloads of the other checks drive every public function; each call is
recorded (arguments, outcome).  Recorded calls are later repeated with equal
arguments after other calls, after the caller overwrote earlier results, and
from several threads at once; outcomes must not change."""
import importlib, pkgutil, sys, threading, types
import numpy as np
import pandas as pd
import xarray as xr
import pycomlink
from vlib import gen
from vlib.core import Ctx, digest, mismatch, short, snap

SRC = ["c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c15", "c16", "c17", "c18", "c19", "c20", "c23", "c24", "c25", "c26", "c29"]
P = "pycomlink."
FUNCS = [(P + "processing.baseline", "baseline_constant"), (P + "processing.baseline", "baseline_linear"),
         (P + "processing.k_R_relation", "a_b"), (P + "processing.k_R_relation", "calc_R_from_A"), (P + "processing.k_R_relation", "calc_R_from_A_min_max"),
         (P + "processing.wet_antenna", "waa_schleiss_2013"), (P + "processing.wet_antenna", "waa_leijnse_2008"), (P + "processing.wet_antenna", "waa_pastorek_2021"),
         (P + "processing.wet_antenna", "waa_leijnse_2008_from_A_obs"), (P + "processing.wet_antenna", "waa_pastorek_2021_from_A_obs"), (P + "processing.wet_antenna", "eps_water"),
         (P + "processing.blackout_gap_detection", "get_blackout_start_and_end"), (P + "processing.blackout_gap_detection", "created_blackout_gap_mask_from_start_end_markers"),
         (P + "processing.min_max", "_calc_A_min_max"), (P + "spatial.helper", "haversine"), (P + "processing.wet_dry.nearby_wetdry", "calc_distance_between_cml_endpoints"),
         (P + "processing.wet_dry.nearby_wetdry", "nearby_wetdry"), (P + "processing.nearby_rain_retrival", "nearby_determine_reference_level"),
         (P + "processing.nearby_rain_retrival", "nearby_correct_received_signals"), (P + "processing.nearby_rain_retrival", "nearby_rainfall_retrival"),
         (P + "processing.wet_dry.stft", "stft_classification"), (P + "processing.wet_dry.stft", "find_lowest_std_dev_period"), (P + "processing.wet_dry.mlp", "mlp_wet_dry"),
         (P + "processing.pytorch_utils.run_inference", "rolling_window"), (P + "processing.pytorch_utils.run_inference", "batchify_windows"), (P + "processing.pytorch_utils.run_inference", "redistribute_results"),
         (P + "processing.tensorflow_utils.inference_utils", "create_samples"), (P + "processing.tensorflow_utils.inference_utils", "scale_features"), (P + "processing.tensorflow_utils.inference_utils", "store_predictions"),
         (P + "spatial.coverage", "calc_coverage_mask"), (P + "spatial.interpolator", "clim_var_param"),
         (P + "spatial.idw", "Invdisttree.__call__"), (P + "spatial.interpolator", "PointsToGridInterpolator.__call__"),
         (P + "validation.stats", "calc_wet_dry_performance_metrics"), (P + "validation.stats", "calc_rain_error_performance_metrics"), (P + "validation.stats", "calc_wet_error_rates"),
         (P + "validation.validator", "GridValidator.get_time_series"), (P + "validation.validator", "GridValidator.resample_to_grid_time_series"),
         (P + "util.temporal", "aggregate_df_onto_DatetimeIndex")]
NETS = [(P + "processing.pytorch_utils.run_inference", "cnn_wd"), (P + "processing.pytorch_utils.run_inference", "run_inference"), (P + "processing.pytorch_utils.pytorch_utils", "build_dataloader"),
        (P + "processing.tensorflow_utils.run_inference", "wet_dry_1d_cnn")]
POOL, LIVE, NEW = [], [], []
ORIG, SUBS, TABLES, DEFAULTS = {}, {}, {}, {}


def same(a, b, what="result"):
    """None if two results are equal, else a description."""
    if type(a) is not type(b) and not (np.isscalar(a) and np.isscalar(b)): return f"{what}: {type(b).__name__} instead of {type(a).__name__}"
    if isinstance(a, (tuple, list)):
        if len(a) != len(b): return f"{what}: length {len(b)} instead of {len(a)}"
        return next((m for m in (same(x, y, f"{what}[{k}]") for k, (x, y) in enumerate(zip(a, b))) if m), None)
    if isinstance(a, dict):
        if list(a) != list(b): return f"{what}: keys {list(b)} instead of {list(a)}"
        return next((m for m in (same(a[k], b[k], f"{what}[{k}]") for k in a) if m), None)
    if isinstance(a, xr.DataArray):
        if a.dims != b.dims: return f"{what}: dims {b.dims} instead of {a.dims}"
        if set(a.coords) != set(b.coords): return f"{what}: other coordinates"
        return next((m for m in [mismatch(b.values, a.values, what=what)] + [mismatch(b[c].values, a[c].values, what=f"{what}.{c}") for c in a.coords] if m), None)
    if isinstance(a, xr.Dataset):
        if set(a.variables) != set(b.variables): return f"{what}: other variables"
        return next((m for m in (same(a[v], b[v], f"{what}.{v}") for v in a.data_vars) if m), None)
    if isinstance(a, pd.DataFrame):
        if list(a.columns) != list(b.columns) or not a.index.equals(b.index): return f"{what}: other rows or columns"
        return next((m for m in (mismatch(b[c].to_numpy(), a[c].to_numpy(), what=f"{what}[{c}]") for c in a.columns) if m), None)
    if isinstance(a, pd.Series):
        return mismatch(b.to_numpy(), a.to_numpy(), what=what)
    if isinstance(a, (np.ndarray, np.generic, int, float, complex, bool)):
        return mismatch(b, a, what=what)
    if a is None or isinstance(a, str):
        return None if a == b else f"{what}: {b!r} instead of {a!r}"
    return None


def arrays(x, depth=0):
    """all numeric arrays inside a result"""
    if isinstance(x, np.ndarray): yield x
    elif isinstance(x, (tuple, list)) and depth < 4:
        for v in x: yield from arrays(v, depth + 1)
    elif isinstance(x, dict):
        for v in x.values(): yield from arrays(v, depth + 1)
    elif isinstance(x, xr.DataArray): yield x.values
    elif isinstance(x, xr.Dataset):
        for v in x.data_vars: yield x[v].values
    elif isinstance(x, pd.DataFrame):
        for c in x.columns: yield x[c].to_numpy()
    elif isinstance(x, pd.Series): yield x.to_numpy()


def scribble(x):
    n = 0
    for a in arrays(x):
        if a.size and a.flags.writeable and a.dtype.kind in "fiubc":
            a[...] = 1 if a.dtype.kind in "bu" else -77; n += 1
    return n


def contiguous(x):
    if isinstance(x, np.ndarray): return x.flags.c_contiguous and x.flags.aligned
    if isinstance(x, (tuple, list)): return all(contiguous(v) for v in x)
    if isinstance(x, dict): return all(contiguous(v) for v in x.values())
    if isinstance(x, (xr.DataArray, xr.Dataset)): return all(a.flags.c_contiguous for a in arrays(x))
    return True


def own_args(ev, raw=False):
    a = (ev.raw_args, ev.raw_kwargs) if raw else (ev.args, ev.kwargs)
    return (a[0][1:] if "." in ev.name else a[0]), a[1]


def run(name, args, kwargs):
    try:
        return ORIG[name](*args, **kwargs), None
    except Exception as e:
        return None, e


def recorder(ctx, ev):
    a, k = own_args(ev); ra, rk = own_args(ev, True)
    if digest(tuple(a), dict(k)) != digest(tuple(ra), dict(rk)):
        ctx.violation(f"{ev.name} modified its arguments", ev)
    sz = sum(x.nbytes for x in arrays([list(ev.args), list(ev.kwargs.values())]))
    if sz > 3e5: ctx.tag("too_large_to_keep"); return
    NEW.append([ev.name, ev.args, ev.kwargs, ev.value, ev.exc, contiguous([list(ra), dict(rk)])])
    if len(LIVE) < 12: LIVE.append((ev.name, ev.value, snap(ev.value)))
    return


def tables():
    """module level tables of the package (not scalars, not functions)"""
    out = {}
    for name, m in list(sys.modules.items()):
        if not name.startswith("pycomlink") or ".tests" in name or not isinstance(m, types.ModuleType): continue
        for k, v in list(vars(m).items()):
            if k.startswith("_") and k != "__all__": continue      # private: only their effect on results counts
            if isinstance(v, (list, dict)) and not v: continue      # an empty container is not a table
            if isinstance(v, (np.ndarray, list, dict, tuple, pd.DataFrame, pd.Series, xr.DataArray, xr.Dataset)): out[f"{name}.{k}"] = v
            elif type(v).__module__.startswith("sklearn"):
                out[f"{name}.{k}"] = {q: getattr(v, q) for q in ("coefs_", "intercepts_") if hasattr(v, q)}
    return out


def defaults():
    out = {}
    for (m, n) in FUNCS:
        f = ORIG.get(n)
        f = getattr(f, "py_func", f)
        for w in (f, getattr(f, "__wrapped__", None)):
            if w is None: continue
            d = list(getattr(w, "__defaults__", None) or ()) + list((getattr(w, "__kwdefaults__", None) or {}).values())
            out[n + str(w is f)] = [v for v in d]
    return out


def install(ctx):
    for m in pkgutil.walk_packages(pycomlink.__path__, "pycomlink."):
        if ".tests" not in m.name:
            try: importlib.import_module(m.name)
            except Exception: pass
    import torch
    torch.set_num_threads(1)
    for s in SRC: SUBS[s] = importlib.import_module("checks." + s)
    for mod, n in FUNCS:
        w = ctx.watch(mod, n, recorder, name=n, optional=n.startswith("_"))
        if w is not None: ORIG[n] = w.__wrapped_original__
    for m, n in NETS:
        w = ctx.watch(m, n, recorder, name=n, optional=True)
        if w is not None: ORIG[n] = w.__wrapped_original__
    for k, v in tables().items(): TABLES[k] = (digest({q: x for q, x in v.items()}) if isinstance(v, dict) else digest(v), list(v) if isinstance(v, dict) else None)
    for k, v in defaults().items(): DEFAULTS[k] = digest(v)
    ctx.tags["tables_watched"] = len(TABLES)


def check_tables(ctx, when):
    now = tables()
    for k, (d, keys) in TABLES.items():
        if k not in now: continue
        v = now[k]
        if keys is not None:
            if [q for q in keys if q not in v]: ctx.violation(f"module table {k} lost entries {when}"); continue
            v = {q: v[q] for q in keys}
        if digest(v) != d: ctx.violation(f"module table {k} changed {when}"); TABLES[k] = (digest(v), keys)
    for k, v in defaults().items():
        if k in DEFAULTS and digest(v) != DEFAULTS[k]: ctx.violation(f"default arguments of {k} changed {when}"); DEFAULTS[k] = digest(v)


def outcome(ctx, e, v, exc, when):
    name, args, kwargs, value, exc0 = e[:5]
    d = dict(call=name, args=[short(a) for a in args], kwargs={k: short(a) for k, a in kwargs.items()})
    if (exc is None) != (exc0 is None) or (exc is not None and type(exc) is not type(exc0)):
        ctx.violation(f"{name} {when}: {'raised ' + repr(exc) if exc is not None else 'returned ' + short(v)}, first {'raised ' + repr(exc0) if exc0 is not None else 'returned ' + short(value)}", extra=d); return False
    if exc is None:
        m = same(value, v)
        if m: ctx.violation(f"{name} {when}: {m}", extra=d); return False
    return True


def again(ctx, e, when):
    v, exc = run(e[0], snap(e[1]), snap(e[2]))
    outcome(ctx, e, v, exc, when)
    return v


def threaded(ctx, rng, batch):
    """every thread runs its own calls, all at the same time"""
    jobs = [[(e, snap(e[1]), snap(e[2])) for e in part] for part in batch]
    res = [[] for _ in jobs]
    bar = threading.Barrier(len(jobs))

    def work(k):
        ctx._local.off = 1
        bar.wait()
        for e, a, kw in jobs[k]: res[k].append((e, *run(e[0], a, kw)))
    old = sys.getswitchinterval(); sys.setswitchinterval(1e-5)
    try:
        th = [threading.Thread(target=work, args=(k,)) for k in range(len(jobs))]
        [t.start() for t in th]; [t.join() for t in th]
    finally:
        sys.setswitchinterval(old)
    for r in res:
        for e, v, exc in r: outcome(ctx, e, v, exc, "called from several threads at once")
    ctx.tag("threaded_calls"); ctx.tags["calls_in_threads"] += sum(map(len, res))
    ctx.nontrivial("threads", [e[0] for p in batch for e in p], int(rng.integers(1 << 40)))


def networks(ctx, rng, i):
    """the entry points that load a network, on the models of the C19 and C20 workloads"""
    sub = Ctx("C27", ctx.mode, ctx.seed, "quick"); sub.scratch, sub.repo = ctx.scratch, ctx.repo
    if "nets" not in SUBS: SUBS["nets"] = True; SUBS["c20"].models(ctx); SUBS["c19"].models(ctx)
    NEW.clear(); LIVE.clear()
    for k in range(3): SUBS["c20"].case(sub, rng, 8 * int(rng.integers(6, 1000)) + int(rng.integers(2)))
    SUBS["c19"].case(sub, rng, 4 * int(rng.integers(41, 79)))
    SUBS["c19"].case(sub, rng, 4 * int(rng.integers(41, 79)) + 1)
    ctx._local.off = 1
    try:
        new = [list(e) for e in NEW if e[0] in ("cnn_wd", "wet_dry_1d_cnn")]; rng.shuffle(new)
        for e in new[:3]:
            v, exc = run(e[0], snap(e[1]), snap(e[2])); e[3], e[4] = snap(v), exc
            if scribble(v): ctx.tag("overwritten_result")
            again(ctx, e, "called again after the caller overwrote an earlier result")
            ctx.tag("repeated:" + e[0])
    finally: ctx._local.off = 0
    check_tables(ctx, "after network calls")


def case(ctx, rng, i):
    if i % 48 == 25 and ctx.mode == "interp": networks(ctx, rng, i); return
    s = SRC[i % len(SRC)]
    sub = Ctx(s.upper(), ctx.mode, ctx.seed, "quick"); sub.scratch, sub.repo = ctx.scratch, ctx.repo
    j = gen.case_number(ctx, rng, s, 0.03)
    if s == "c19" and j % 160 != 41: j = j - j % 4 + 1 + int(rng.integers(3))
    NEW.clear(); LIVE.clear()
    for k in range(1 if s in ("c11", "c15", "c18", "c19", "c20") else 4):
        SUBS[s].case(sub, rng, j + k * (8 if s == "c20" else 4))
    ctx._local.off = 1
    try:
        new = [list(e) for e in NEW]
        rng.shuffle(new)
        fresh = []
        new = [e for e in new if e[0] not in ("cnn_wd", "wet_dry_1d_cnn", "run_inference", "build_dataloader")]
        for e in new[:6]:
            # the first repetition, on plain copies, is the baseline for all later ones
            v, exc = run(e[0], snap(e[1]), snap(e[2]))
            if e[5]: outcome(ctx, e, v, exc, "called again")
            e[3], e[4] = snap(v), exc
            LIVE.append((e[0], v, snap(v))); fresh.append(e)
            ctx.tag("repeated:" + e[0])
        # results must survive later calls and in-place changes of later results
        for e in fresh[:4]:
            v = again(ctx, e, "called again after other calls")
            if scribble(v):
                ctx.tag("overwritten_result")
                for nm, live, cp in LIVE:
                    if same(cp, live): ctx.violation(f"a result of {nm} changed when a later result of {e[0]} was overwritten by the caller"); break
                again(ctx, e, "after the caller overwrote an earlier result")
        for e in [POOL[int(q)] for q in rng.integers(0, len(POOL), 3)] if POOL else []:
            again(ctx, e, "called again much later"); ctx.tag("repeated_later")
        for nm, live, cp in LIVE:
            m = same(cp, live)
            if m: ctx.violation(f"a result of {nm} changed after later calls: {m}"); break
        POOL.extend(fresh[:3])
        if len(POOL) > 160: [POOL.pop(int(rng.integers(len(POOL)))) for _ in range(len(POOL) - 160)]
        check_tables(ctx, f"after calls of workload {s}")
        if i % 3 == 2 and len(POOL) > 12:
            k = int(gen.pick(rng, [2, 4, 8]))
            by = gen.pick(rng, [None, None, POOL[int(rng.integers(len(POOL)))][0]])
            c = [e for e in POOL if by is None or e[0] == by]
            threaded(ctx, rng, [[c[int(q)] for q in rng.integers(0, len(c), 4)] for _ in range(k)])
            if by: ctx.tag("threads_same_function")
    finally:
        ctx._local.off = 0
