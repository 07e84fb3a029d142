"""C35 continuous use: calls leave nothing behind that grows with their number.

Calls recorded from the workloads of the other checks are repeated many times on fresh
copies with slightly different values, on plain functions and on long-lived objects.
The monitor holds weak references to every array and table that went in or came out,
and watches traced Python memory, live models and tensors, open descriptors, threads
and child processes.  A suspicion is confirmed by many more calls: only growth that
continues counts, a memory of bounded size does not."""
import collections, contextlib, gc, http.server, importlib, io, os, pkgutil, shutil, sys, threading, time, tracemalloc, types, weakref
import numpy as np
import pandas as pd
import xarray as xr
import pycomlink
import pycomlink.spatial.idw as idw
import pycomlink.spatial.interpolator as ip
from vlib import gen
from vlib.core import Ctx, short, snap
from checks import c27

SRC = c27.SRC
HEAVY = ("c11", "c15", "c18", "c19", "c20")
FEW = {"nearby_wetdry", "calc_distance_between_cml_endpoints", "GridValidator.get_time_series", "mlp_wet_dry", "nearby_rainfall_retrival", "calc_coverage_mask", "files", "downloads"}
SUBS, ORIG, NEW, DONE = {}, {}, [], {}
HOME = os.path.dirname(os.path.abspath(pycomlink.__file__))


def recorder(ctx, ev):
    if ev.name in [e[0] for e in NEW]: return
    if sum(x.nbytes for x in c27.arrays([list(ev.args), list(ev.kwargs.values())])) > 3e5: return
    NEW.append((ev.name, ev.args, ev.kwargs))


def install(ctx):
    for m in pkgutil.walk_packages(pycomlink.__path__, "pycomlink."):
        if ".tests" not in m.name:
            try: importlib.import_module(m.name)
            except Exception: pass
    import torch
    torch.set_num_threads(1)
    for s in SRC + ["c22"]: SUBS[s] = importlib.import_module("checks." + s)
    for mod, n in c27.FUNCS + c27.NETS:
        w = ctx.watch(mod, n, recorder, name=n, optional=n.startswith("_") or n in ("build_dataloader", "run_inference"))
        if w is not None: ORIG[n] = w.__wrapped_original__
    gc.collect(); gc.freeze()
    tracemalloc.start(1)


def fresh(x, k):
    """a copy with slightly different floating point values"""
    if isinstance(x, np.ndarray): return x * (1 - 1e-9 * k) if x.dtype.kind == "f" else x.copy()
    if isinstance(x, (float, np.floating)): return type(x)(x * (1 - 1e-9 * k))
    if isinstance(x, tuple) and type(x) is tuple: return tuple(fresh(v, k) for v in x)
    if isinstance(x, list): return [fresh(v, k) for v in x]
    if isinstance(x, dict) and type(x) is dict: return {q: fresh(v, k) for q, v in x.items()}
    if isinstance(x, (xr.DataArray, xr.Dataset, pd.Series)):
        y = snap(x)
        return y * (1 - 1e-9 * k) if isinstance(x, (xr.DataArray, pd.Series)) and x.dtype.kind == "f" else y
    return snap(x)


def refs(x, out, depth=0):
    if isinstance(x, (np.ndarray, xr.DataArray, xr.Dataset, pd.DataFrame, pd.Series)):
        try: out.append(weakref.ref(x))
        except TypeError: pass
        if isinstance(x, xr.DataArray): refs(x.variable._data, out)
        elif isinstance(x, xr.Dataset):
            for v in x.data_vars: refs(x.variables[v]._data, out)
        elif isinstance(x, np.ndarray) and isinstance(x.base, np.ndarray): refs(x.base, out)
    elif isinstance(x, (tuple, list)) and depth < 4:
        for v in x: refs(v, out, depth + 1)
    elif isinstance(x, dict):
        for v in x.values(): refs(v, out, depth + 1)


def held():
    kids = 0
    for t in os.listdir("/proc/self/task"):
        try: kids += len(open(f"/proc/self/task/{t}/children").read().split())
        except OSError: pass
    return dict(descriptors=len(os.listdir("/proc/self/fd")), threads=threading.active_count(), children=kids)


def networks_alive():
    r = {"network": 0, "tensor": 0}
    for o in gc.get_objects():
        m = [c.__module__ for c in type(o).__mro__[:-1] if isinstance(getattr(c, "__module__", None), str)]
        n = [c.__name__ for c in type(o).__mro__[:-1]]
        if "Module" in n and "torch.nn.modules.module" in m or any(q.startswith("keras.") and t == "Model" for q, t in zip(m, n)): r["network"] += 1
        elif type(o).__name__ in ("Tensor", "EagerTensor"): r["tensor"] += 1
    return r


def own_bytes():
    """traced memory that was allocated by lines of the library itself"""
    n = m = 0
    for t in tracemalloc._get_traces():
        if t[2][0][0].startswith(HOME): n += t[1]; m += 1
    return n, m


def entries():
    """number of entries of all containers kept by the library's modules and functions"""
    n = 0
    for name, m in list(sys.modules.items()):
        if not name.startswith("pycomlink") or m is None: continue
        for k, v in list(vars(m).items()):
            if k.startswith("__") or isinstance(v, (str, bytes)): continue
            if isinstance(v, (dict, list, set, tuple, collections.deque, pd.DataFrame, pd.Series, np.ndarray)): n += np.size(v) if isinstance(v, np.ndarray) else len(v)
            elif hasattr(v, "cache_info"):
                try: n += v.cache_info().currsize
                except Exception: pass
            elif isinstance(v, (types.FunctionType, type)) and str(getattr(v, "__module__", "")).startswith("pycomlink"):
                n += sum(len(x) for q, x in list(vars(v).items()) if isinstance(x, (dict, list, set, tuple)) and not q.startswith("__"))
    return n


class Burst:
    """one series of calls and what is left after it"""
    def __init__(self, call, n, start, nets=False, files=None, own=False):
        gc.collect()
        f0 = files() if files else 0
        e0 = entries()
        h0 = held(); n0 = networks_alive() if nets else {}
        self.ins, self.outs = [], []
        flags = np.zeros(n, bool)
        ctx_out = contextlib.redirect_stdout(io.StringIO())
        w0 = own_bytes() if own else (0, 0)
        m0 = tracemalloc.get_traced_memory()[0]
        with ctx_out:
            for k in range(n):
                a, o = [], []
                flags[k] = one(call, start + k, a, o)
                if a: self.ins.append(a)
                if o: self.outs.append(o)
                if nets and k < 2 or k % 50 == 49: gc.collect()
        self.refs = sum(map(len, self.ins)) + sum(map(len, self.outs))
        gc.collect()
        self.look()
        self.memory = (tracemalloc.get_traced_memory()[0] - m0 - 200 * self.refs) / n
        w1 = own_bytes() if own else (0, 0)
        self.own = (w1[0] - w0[0]) / n if w1[1] - w0[1] >= n / 2 else 0     # many pieces, not one larger table
        self.calls, self.failed = n, int((~flags).sum())
        t = time.time()
        while True:     # a server thread of ours may still be about to end
            h1 = held(); self.more = {k: h1[k] - h0[k] for k in h0}
            if max(self.more.values()) <= 0 or time.time() - t > 3: break
            time.sleep(.02)
        self.more["entries in containers of the library"] = entries() - e0
        if files: self.more["files"] = files() - f0
        if nets: n1 = networks_alive(); self.more.update({k: n1[k] - n0[k] for k in n0})

    def look(self):
        self.alive_in = sum(any(r() is not None for r in a) for a in self.ins)
        self.alive_out = sum(any(r() is not None for r in a) for a in self.outs)


def one(call, k, a, o):
    f, args, kwargs = call(k)
    refs([list(args), kwargs], a)
    try: v = f(*args, **kwargs)
    except Exception: return False
    refs(v, o)
    return True


LEAST = 8000.    # bytes per call that are worth a second look (the libraries lose up to 2 kB in small pieces when traced)
OWN = 150.       # the same for memory allocated by lines of the library itself


def suspicious(b, n, least=LEAST):
    r = {}
    if b.alive_in > max(3, n // 2): r["in"] = f"inputs of {b.alive_in} of {n} finished calls are still held"
    if b.alive_out > max(3, n // 2): r["out"] = f"results of {b.alive_out} of {n} finished calls are still held"
    if b.memory > least: r["memory"] = f"memory grew by {b.memory:.0f} bytes per call over {n} calls"
    if b.own > OWN: r["own"] = f"memory allocated in the library grew by {b.own:.0f} bytes per call over {n} calls"
    for k, v in b.more.items():
        if v >= max(3, n // 2): r[k] = f"{v} more {k} after {n} calls"
    return r


def observe(ctx, what, call, n, key, nets=False, least=LEAST, files=None):
    t = time.time()
    warm = 4 if not nets else 2
    Burst(call, warm, 1, False, files)
    t = (time.time() - t) / warm
    if not nets: n = int(np.clip(1.2 / max(t, 1e-9), 8, n))
    b = Burst(call, n, 100, nets, files, not nets)
    ctx.tag("repeated:" + what); ctx.tags["calls_made"] += n; ctx.tags["objects_watched"] += b.refs
    if b.failed == n: ctx.tag("all_failed:" + what)
    elif b.failed: ctx.tag("some_failed")
    ctx.nontrivial(what, key)
    if not suspicious(b, n, least) or DONE.get(what, 0) >= 2: return
    # many more calls: what is bounded stops growing, and lets go of the first of them
    ctx.tag("second_look:" + what); DONE[what] = DONE.get(what, 0) + 1
    N = int(np.clip(8 / max(t, 1e-9), 12 if nets else 40, 80 if nets else 1500))
    first = Burst(call, N, 1000, nets, files, not nets)
    s1 = suspicious(first, N, least)
    if not s1: return
    last = Burst(call, N // 2, 100000, nets, files, not nets)
    s2 = suspicious(last, N // 2, least)
    gc.collect(); first.look()
    s3 = suspicious(first, N, least)
    bad = [s2[k] for k in s1 if k in s2 and (k in s3) and (N >= 80 or k not in ("in", "out", "memory", "own"))]
    if bad:
        DONE[what] = 9
        ctx.violation(f"{what}: use leaves more and more behind: {'; '.join(bad)} (after {N + n} earlier calls, which show the same)")


def recorded(ctx, rng, i):
    s = SRC[(i // 6 * 4 + (0, 1, 0, 2, 3, 0)[i % 6]) % len(SRC)]
    sub = Ctx(s.upper(), ctx.mode, ctx.seed, "quick"); sub.scratch, sub.repo = ctx.scratch, ctx.repo
    j = gen.case_number(ctx, rng, s, 0.0)
    if s == "c19": j = j - j % 4 + 1 + int(rng.integers(3))
    NEW.clear()
    for k in range(1 if s in HEAVY else 4): SUBS[s].case(sub, rng, j + k * (8 if s == "c20" else 4))
    ctx._local.off = 1
    try:
        new = [e for e in NEW if e[0] not in ("cnn_wd", "wet_dry_1d_cnn", "run_inference", "build_dataloader")]
        rng.shuffle(new)
        for name, args, kwargs in new[:4 if s not in HEAVY else 2]:
            n = 10 if name in FEW else 40
            try:
                a0, k0 = snap(tuple(args)), snap(dict(kwargs))
            except Exception: continue
            if "." in name:      # a method: every time on a new object
                call = lambda k, name=name, a0=a0, k0=k0: (ORIG[name], (snap(a0[0]),) + tuple(fresh(v, k) for v in a0[1:]), fresh(k0, k))
            else:
                call = lambda k, name=name, a0=a0, k0=k0: (ORIG[name], fresh(a0, k), fresh(k0, k))
            observe(ctx, name, call, n, (short(a0), int(rng.integers(1 << 40))))
    finally: ctx._local.off = 0


def networks(ctx, rng, i):
    sub = Ctx("C27", ctx.mode, ctx.seed, "quick"); sub.scratch, sub.repo = ctx.scratch, ctx.repo
    if "nets" not in SUBS: SUBS["nets"] = True; SUBS["c20"].models(ctx); SUBS["c19"].models(ctx)
    NEW.clear()
    for k in range(3): SUBS["c20"].case(sub, rng, 8 * int(rng.integers(6, 1000)) + int(rng.integers(2)))
    SUBS["c19"].case(sub, rng, 4 * int(rng.integers(41, 79)))
    SUBS["c19"].case(sub, rng, 4 * int(rng.integers(41, 79)) + 1)
    ctx._local.off = 1
    try:
        for name, args, kwargs in [e for e in NEW if e[0] in ("cnn_wd", "wet_dry_1d_cnn")]:
            a0, k0 = snap(tuple(args)), snap(dict(kwargs))
            observe(ctx, name, lambda k: (ORIG[name], fresh(a0, k), fresh(k0, k)), 6, (short(a0), i), nets=True, least=20000.)
    finally: ctx._local.off = 0


def objects(ctx, rng, i):
    """one object used over and over with new data"""
    ctx._local.off = 1
    try:
        m = int(rng.integers(4, 9))
        X, Q = rng.random((m, 2)), rng.random((12, 2))
        xg, yg = np.meshgrid(np.linspace(0, 1, 4), np.linspace(0, 1, 3))
        which = i % 4
        if which == 0:
            t = idw.Invdisttree(X)
            call = lambda k: (t, (Q + 1e-6 * k, rng.random(m)), dict(nnear=int(3 + k % 2)))
            what = "object:Invdisttree"
        elif which == 1:
            o = ip.IdwKdtreeInterpolator(nnear=3 + i % 3)
            what = "object:IdwKdtreeInterpolator"
        elif which == 2:
            o = ip.OrdinaryKrigingInterpolator(nlags=4, variogram_model=gen.pick(rng, ["spherical", "exponential"]), variogram_parameters={"sill": .9, "range": 1., "nugget": .1})
            what = "object:OrdinaryKrigingInterpolator"
        if which in (1, 2):
            def call(k):
                z = rng.random(m)
                if rng.random() < .3: z[0] = np.nan
                return o, (X[:, 0] + 1e-6 * k, X[:, 1].copy(), z), dict(xgrid=xg + 1e-7 * k, ygrid=yg.copy())
        if which == 3:
            import pycomlink.validation.validator as va
            what = "object:GridValidator"
            c26 = SUBS["c26"]; t0 = pd.Timestamp("2021-05-01")
            glon, glat = np.meshgrid(5 + np.arange(5) * .1, 50 + np.arange(4) * .1)
            v = va.GridValidator(xr_ds=xr.Dataset({"rain": (("time", "y", "x"), rng.gamma(.5, 5, (20, 4, 5)))}, coords={"time": pd.date_range(t0, periods=20, freq="5min"), "longitudes": (("y", "x"), glon), "latitudes": (("y", "x"), glat)}))
            def link(k):
                df = c26.frame(rng, t0, 30)
                return c26.Cml(np.array([5.05, 50.06 + 1e-5 * k]), np.array([5.31, 50.22]), df, df * 2)
            call = lambda k: (v.get_time_series, (link(k), "rain"), {})
        observe(ctx, what, call, 40 if which != 3 else 12, int(rng.integers(1 << 40)))
    finally: ctx._local.off = 0


def disk(ctx, rng, i):
    """reading files and filling model caches, also with failures"""
    import pycomlink.io.cmlh5_to_xarray as rd
    import pycomlink.processing.pytorch_utils.inference_utils as tu
    import pycomlink.processing.tensorflow_utils.inference_utils as fu
    base = os.path.join(ctx.scratch, f"d{i}"); os.makedirs(base)
    count = lambda: sum(len(f) for _, _, f in os.walk(base))
    ctx._local.off = 1
    try:
        if i % 2 == 0:
            fn = os.path.join(base, "a.h5"); bad = os.path.join(base, "b.h5")
            SUBS["c22"].write(rng, fn); SUBS["c22"].write(rng, bad)
            import h5py
            with h5py.File(bad, "r+") as f: del f[list(f)[-1]].attrs["site_b_latitude"]
            fail = i % 4 == 2
            def read(name):      # every time another file
                shutil.copyfile(bad if fail else fn, name)
                try: return rd.read_cmlh5_file_to_xarray(name)
                finally: os.remove(name)
            observe(ctx, "files", lambda k: (read, (os.path.join(base, f"n{k}.h5"),), {}), 12, int(rng.integers(1 << 40)), files=count)
            ctx.tag("files_failing" if fail else "files_read")
        else:
            if "srv" not in SUBS:
                class H(http.server.BaseHTTPRequestHandler):
                    def log_message(self, *a): pass
                    def do_GET(self):
                        if "gone" in self.path: self.send_error(404); return
                        b = b"x" * 20000
                        self.send_response(200); self.send_header("Content-Length", str(len(b))); self.end_headers()
                        self.wfile.write(b[:5000] if "cut" in self.path else b)
                s = SUBS["srv"] = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H); s.daemon_threads = True
                threading.Thread(target=s.serve_forever, daemon=True).start()
            kind = gen.pick(rng, ["ok", "ok", "gone", "cut"]); url = f"http://127.0.0.1:{SUBS['srv'].server_address[1]}/{kind}.pt"
            f = gen.pick(rng, [tu.download_and_cache_model, fu.download_and_cache])
            force = bool(rng.random() < .7)
            observe(ctx, "downloads", lambda k: (f, (url, os.path.join(base, "cache"), force), {}), 10, (kind, force, int(rng.integers(1 << 40))), files=count)
            ctx.tag("download:" + kind)
    finally:
        ctx._local.off = 0
        shutil.rmtree(base, ignore_errors=True)


def case(ctx, rng, i):
    if i % 6 == 2: disk(ctx, rng, i // 6)
    elif i % 80 == 33 and ctx.mode == "interp": networks(ctx, rng, i // 80)
    elif i % 6 == 5: objects(ctx, rng, i // 6)
    else: recorded(ctx, rng, i)
