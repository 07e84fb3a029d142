"""C34 only the values of the arguments matter, not how they are stored.

The workloads of the other checks drive the public functions.  Each observed
call is repeated with the same values stored in another way - Fortran order,
views with positive and negative strides, read-only, memory-mapped, the other
byte order, numpy instead of Python scalars and the reverse - and the outcomes
compared.  Numbers in the other byte order may be
refused (numba, pandas and PyTorch do), but never read as other numbers."""
import importlib, os, pkgutil
import numpy as np
import pandas as pd
import xarray as xr
import pycomlink
import pycomlink.spatial.interpolator as ip
from vlib import gen
from vlib.core import Ctx, digest, short, snap
from checks import c31
from checks.c27 import FUNCS, SRC, arrays, same

ORIG, SUBS, NEW = {}, {}, []
HEAVY = {"c11", "c15", "c18", "c19", "c20"}
KINDS = ["fortran", "strided", "reversed", "readonly", "swapped", "memmap"]
MAPS = []


def recorder(ctx, ev):
    if sum(x.nbytes for x in arrays([list(ev.args), list(ev.kwargs.values())])) > 3e5: return
    NEW.append((ev.name, ev.args, ev.kwargs))


def install(ctx):
    for m in pkgutil.walk_packages(pycomlink.__path__, "pycomlink."):
        if ".tests" not in m.name:
            try: importlib.import_module(m.name)
            except Exception: pass
    import torch
    torch.set_num_threads(1)
    for s in SRC: SUBS[s] = importlib.import_module("checks." + s)
    for mod, n in FUNCS:
        if n.startswith("_"): continue
        w = ctx.watch(mod, n, recorder, name=n)
        ORIG[n] = c31.ORIG[n] = w.__wrapped_original__


def store(ctx, a, kind):
    """the same values, shape and type of numbers as a, stored in another way"""
    a = np.array(a, copy=True, subok=False)
    if a.dtype.kind not in "biufcMm" or a.size == 0 or a.ndim == 0: return a
    if kind == "fortran": return np.asfortranarray(a)
    if kind == "strided":
        b = np.full(tuple(2 * n + 1 for n in a.shape), a.flat[0], a.dtype)
        v = b[tuple(slice(1, None, 2) for _ in a.shape)]; v[...] = a
        return v
    if kind == "reversed":
        f = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[f])[f]
    if kind == "readonly": a.flags.writeable = False; return a
    if kind == "swapped": return a.astype(a.dtype.newbyteorder("S")) if a.dtype.itemsize > 1 else a
    if kind == "memmap" and a.dtype.kind in "biuf":
        p = os.path.join(ctx.scratch, f"m{len(MAPS)}_{os.getpid()}.bin"); MAPS.append(p)
        m = np.memmap(p, a.dtype, "w+", shape=a.shape); m[...] = a; m.flush()
        return np.memmap(p, a.dtype, "r", shape=a.shape)
    return a


def restore(ctx, rng, x, kinds, n):
    """x with its arrays stored in another way; n counts them"""
    if isinstance(x, np.ndarray):
        k = gen.pick(rng, kinds); n[k] = n.get(k, 0) + 1
        return store(ctx, x, k)
    if isinstance(x, xr.DataArray):
        k = gen.pick(rng, kinds); n[k] = n.get(k, 0) + 1
        y = x.copy(data=np.asarray(store(ctx, x.values, k)))
        return y.assign_coords({c: (v.dims, restore(ctx, rng, v.values, kinds, n), v.attrs) for c, v in x.coords.items() if c not in x.indexes and rng.random() < .5})
    if isinstance(x, xr.Dataset):
        return x.assign({v: (x[v].dims, restore(ctx, rng, x[v].values, kinds, n), x[v].attrs) for v in x.data_vars})
    if isinstance(x, (list, tuple)) and x and all(isinstance(v, (np.ndarray, xr.DataArray)) for v in x):
        return type(x)(restore(ctx, rng, v, kinds, n) for v in x)
    if isinstance(x, pd.Series) and x.dtype.kind in "fiu":
        k = gen.pick(rng, [q for q in kinds if q not in ("swapped", "memmap")] or ["readonly"]); n[k] = n.get(k, 0) + 1
        return pd.Series(store(ctx, x.to_numpy(), k), index=x.index, name=x.name, copy=False)
    return x


def number(x, n):
    """the same scalar as a numpy / Python scalar"""
    y = x
    if isinstance(x, np.generic) and not isinstance(x, (np.datetime64, np.timedelta64)): y = x.item()
    elif isinstance(x, bool): y = np.bool_(x)
    elif isinstance(x, int) and abs(x) < 2 ** 62: y = np.int64(x)
    elif isinstance(x, float): y = np.float64(x)
    elif isinstance(x, str): y = np.str_(x)
    if y is not x: n["scalar"] = n.get("scalar", 0) + 1
    return y


def run(f, args, kwargs):
    try:
        return f(*args, **kwargs), None
    except Exception as e:
        return None, e


def plain(x):
    """strip what only describes storage"""
    if isinstance(x, np.ndarray): return np.array(x, dtype=x.dtype.newbyteorder("="), subok=False)
    if isinstance(x, (list, tuple)) : return tuple(plain(v) for v in x)
    if isinstance(x, dict): return {k: plain(v) for k, v in x.items()}
    return x


def differs(a, b):
    (v, e), (w, x) = a, b
    if (e is None) != (x is None): return f"{'raised ' + repr(x)[:300] if x is not None else 'returned ' + short(w)} instead of {'raised ' + repr(e)[:300] if e is not None else 'returning ' + short(v)}"
    if e is not None: return None if type(e) is type(x) else f"raised {x!r} instead of {e!r}"
    v, w = plain(v), plain(w)
    return same(v, w)


def nudge(rng, x):
    """values changed in the last bits"""
    if isinstance(x, np.ndarray) and x.dtype.kind == "f": return x * (1 + rng.uniform(-1, 1, x.shape) * 1e-13)
    if isinstance(x, xr.DataArray) and x.dtype.kind == "f": return x.copy(data=nudge(rng, x.values))
    if isinstance(x, xr.Dataset): return x.assign({v: nudge(rng, x[v]) for v in x.data_vars})
    if isinstance(x, (list, tuple)) and x and all(isinstance(v, (np.ndarray, xr.DataArray)) for v in x): return type(x)(nudge(rng, v) for v in x)
    if isinstance(x, pd.Series) and x.dtype.kind == "f": return x * (1 + 1e-13)
    return x


def stored(ctx, rng, name, args, kwargs):
    f = ORIG[name]
    first = run(f, snap(tuple(args)), snap(dict(kwargs)))
    ctx.events += 1; ctx.judged += 1; ctx.funcs[name] += 1
    # next to numbers of less than 64 bits numpy's promotion depends on the type of the scalar
    plain64 = all(x.dtype.kind in "bMmUSO" or x.dtype.itemsize >= 8 for x in arrays([list(args), list(kwargs.values())]))
    for _ in range(3):
        kinds = KINDS if rng.random() < .3 else [gen.pick(rng, KINDS)]
        n = {}; lead = 1 if "." in name else 0
        a = [snap(v) if q < lead else restore(ctx, rng, snap(v), kinds, n) for q, v in enumerate(args)]
        k = {q: restore(ctx, rng, snap(v), kinds, n) for q, v in kwargs.items()}
        if plain64 and rng.random() < .4:
            a = [number(v, n) if q >= lead and rng.random() < .7 else v for q, v in enumerate(a)]
            k = {q: number(v, n) if rng.random() < .7 else v for q, v in k.items()}
        if not n: continue
        other = run(f, a, k)
        ctx.events += 1; ctx.judged += 1; ctx.tag(*["stored:" + q for q in n]); ctx.tag("called:" + name)
        ctx.digests.add(digest(name, args, kwargs, sorted(n)))
        if "swapped" in n and first[1] is None and other[1] is not None: ctx.tag("other_byte_order_refused"); continue
        m = differs(first, other)
        if m and any(differs(first, run(f, [nudge(rng, snap(v)) if q >= lead else snap(v) for q, v in enumerate(args)], {q: nudge(rng, snap(v)) for q, v in kwargs.items()})) for _ in range(3)):
            ctx.tag("decided_by_last_bits"); continue
        if m: ctx.violation(f"{name} with its arrays stored as {'/'.join(n)}: {m}", extra=dict(call=name, args=[short(v) for v in args], kwargs={q: short(v) for q, v in kwargs.items()}))


def targeted(rng):
    """a series without channels cut into windows; calls with all options given"""
    if rng.random() < .4:
        n = int(rng.integers(5, 60)); w = int(rng.integers(1, n + 1))
        a = rng.normal(50, 9, n if rng.random() < .7 else (n, 2))
        return "rolling_window", dict(timeseries=a, valid_times=np.arange(n), window_size=w, reflength=int(rng.integers(2, 2 * w + 2)))
    return c31.targeted(rng, int(rng.integers(0, 8)))


def case(ctx, rng, i):
    s = SRC[i % len(SRC)]
    sub = Ctx(s.upper(), ctx.mode, ctx.seed, "quick"); sub.scratch, sub.repo = ctx.scratch, ctx.repo
    j = gen.case_number(ctx, rng, s, 0.04)
    if s == "c19" and j % 160 != 41: j = j - j % 4 + 1 + int(rng.integers(3))
    NEW.clear()
    for k in range(1 if s in HEAVY else 4):
        SUBS[s].case(sub, rng, j + k * (8 if s == "c20" else 4))
    ctx._local.off = 1
    try:
        new = list(NEW); o = rng.permutation(len(new))
        for q in o[:6]: stored(ctx, rng, *new[int(q)])
        if i % 4 == 0:
            name, kw = targeted(rng)
            if name in ORIG: stored(ctx, rng, name, (), kw)
    finally:
        ctx._local.off = 0
        while MAPS:
            try: os.unlink(MAPS.pop())
            except OSError: pass
