"""C33 the package leaves the process and the machine alone.

Every call of a public function made by the workloads of the other checks is watched
from inside the interpreter: an audit hook sees each file opened for writing, each
program started and each connection attempted while the call runs, and the state that
belongs to the whole process is compared before and after.  Fresh interpreters show
what importing does, with and without TensorFlow and PyTorch, and when the TensorFlow
installer is run (stand-ins for pip and nvidia-smi record their command lines)."""
import functools, gc, importlib, json, locale, logging, os, pkgutil, random, resource, shutil, signal, socket, subprocess, sys, tempfile, threading, urllib.request, warnings
import numpy as np
import pandas as pd
import xarray as xr
import pycomlink
from vlib.core import Ctx, digest, short
from vlib import gen
from checks import c27
from checks.c27 import FUNCS as COMMON, SRC as COMMON_SRC

SRC = COMMON_SRC + ["c22", "c14"]
P = "pycomlink."
FUNCS = COMMON + [(P + "io.cmlh5_to_xarray", "read_cmlh5_file_to_xarray"), (P + "io.examples", "get_one_cml"), (P + "io.examples", "get_75_cmls"), (P + "processing.pytorch_utils.run_inference", "cnn_wd"),
                  (P + "processing.pytorch_utils.run_inference", "run_inference"), (P + "processing.pytorch_utils.pytorch_utils", "predict_batch"), (P + "processing.pytorch_utils.pytorch_utils", "build_dataloader"),
                  (P + "validation.validator", "calc_wet_dry_error")]
SUBS = {}
HEAVY = {"c11", "c15", "c19", "c20"}
DL = [(P + "processing.pytorch_utils.inference_utils", n) for n in ("download_and_cache_model", "clear_model_cache", "list_cached_models", "get_model")] + [(P + "processing.tensorflow_utils.inference_utils", n) for n in ("download_and_cache", "resolve_model_paths")]
tl = threading.local()
WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
MODULES = None


def importing():
    f = sys._getframe(2)
    while f is not None:
        n = f.f_code.co_filename
        if n == "<frozen importlib._bootstrap>": return True
        if "/pycomlink/" in n: return False
        f = f.f_back
    return False


def hook(ev, a):
    log = getattr(tl, "log", None)
    if log is None: return
    if ev == "open":
        mode, flags = a[1], a[2]
        if not ((isinstance(mode, str) and any(c in mode for c in "wax+")) or (isinstance(flags, int) and flags & WRITE)): return
        if str(a[0]).startswith("/dev/") or importing() or asked_for(a[0]): return
        log.append(f"opened {a[0]!s} for writing")
    elif ev in ("subprocess.Popen", "os.exec", "os.posix_spawn", "os.system", "os.fork", "os.forkpty", "os.spawn"):
        if not importing(): log.append(f"started a program: {str(a)[:150]}")
    elif ev in ("socket.connect", "socket.getaddrinfo", "socket.bind", "urllib.Request"):
        if ev == "urllib.Request" and str(a[0]) in getattr(tl, "urls", ()): return
        if not importing(): log.append(f"used the network: {ev} {str(a[1:])[:120]}")
    elif ev in ("os.mkdir", "os.remove", "os.rename", "os.rmdir", "os.chdir", "os.chmod", "os.link", "os.symlink", "os.truncate", "shutil.rmtree", "os.putenv", "os.unsetenv", "signal.pthread_kill"):
        if not importing() and not all(asked_for(x) for x in a[:2 if ev in ("os.rename", "os.link", "os.symlink") else 1]): log.append(f"{ev} {str(a)[:120]}")


def asked_for(p):
    """a download may write below the cache directory it was given, or temporary files"""
    root = getattr(tl, "allow", None)
    if root is None or not isinstance(p, (str, bytes, os.PathLike)): return False
    p = os.path.realpath(os.path.join(os.getcwd(), os.fsdecode(p)))
    if any(p == r or p.startswith(r + os.sep) for r in root): return True
    t = os.path.realpath(tempfile.gettempdir())
    return p.startswith(t + os.sep) and not p.startswith(SCRATCH[0] + os.sep)


SCRATCH = [""]


def files():
    r = []
    for n in os.listdir("/proc/self/fd"):
        try: t = os.readlink("/proc/self/fd/" + n)
        except OSError: continue
        if t.startswith("/") and not t.startswith(("/dev/", "/proc/")): r.append(t)
    return tuple(sorted(r))


def state():
    t = sys.modules.get("torch")
    r = np.random.get_state()
    return dict(numpy_random_state=(hash(r[1].tobytes()), r[2:]), random_state=hash(random.getstate()), float_error_mode=tuple(sorted(np.geterr().items())),
                warning_filters=tuple(warnings.filters), working_directory=os.getcwd(), environment=hash(tuple(sorted(os.environ.items()))), module_search_path=tuple(sys.path),
                stdout=sys.stdout, stderr=sys.stderr, print_options=tuple(sorted((k, repr(v)) for k, v in np.get_printoptions().items())), recursion_limit=sys.getrecursionlimit(),
                open_files=files(), xarray_options=repr(sorted(xr.get_options().items(), key=str)),
                pandas_options=repr(getattr(PDC, "_global_config", None)), matplotlib_settings=hash(repr([x for x in dict.items(RC) if not x[0].startswith("backend")])) if RC is not None else None,
                socket_timeout=socket.getdefaulttimeout(), url_opener=opener(), logging=(logging.root.level, tuple(map(id, logging.root.handlers)), logging.root.manager.disable), locale=locale.setlocale(locale.LC_ALL),
                garbage_collector=(gc.isenabled(), gc.get_threshold()), exception_hooks=(sys.excepthook, threading.excepthook, warnings.showwarning, np.geterrcall()), switch_interval=sys.getswitchinterval(),
                signal_handlers=tuple(signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGCHLD, signal.SIGPIPE)), timer=signal.getitimer(signal.ITIMER_REAL)[1],
                limits=tuple(resource.getrlimit(r) for r in (resource.RLIMIT_AS, resource.RLIMIT_NOFILE, resource.RLIMIT_FSIZE, resource.RLIMIT_STACK)), priority=os.getpriority(os.PRIO_PROCESS, 0), processors=len(os.sched_getaffinity(0)),
                temporary_directory=tempfile.tempdir,
                torch_modes=(t.is_grad_enabled(), t.get_num_threads(), str(t.get_default_dtype())) if t is not None and hasattr(t, "is_grad_enabled") else None)


try: import pandas._config.config as PDC
except ImportError: PDC = None
try: import matplotlib; RC = matplotlib.rcParams
except ImportError: RC = None


def opener():
    o = urllib.request._opener
    return None if o is None else (tuple(o.addheaders), tuple(sorted(type(h).__name__ for h in o.handlers)))


def others():
    """threads of the workload (a progress bar keeps one of its own)"""
    return sum(1 for t in threading.enumerate() if type(t).__name__ != "TMonitor") > 1


def guard(ctx, mod, attr, name):
    obj = importlib.import_module(mod)
    *path, last = attr.split(".")
    for p in path: obj = getattr(obj, p)
    orig = getattr(obj, last)

    @functools.wraps(orig)
    def guarded(*a, **k):
        if getattr(tl, "log", None) is not None or others(): return orig(*a, **k)      # nested in another watched call, or the workload has threads
        n0 = len(sys.modules); s0 = state(); tl.log = log = []
        exc = None
        try: v = orig(*a, **k)
        except Exception as e: exc = e
        finally: tl.log = None
        s1 = state()
        with ctx.lock:
            ctx.events += 1; ctx.judged += 1; ctx.funcs[name] += 1
            ctx.raised += exc is not None
        try: ctx.nontrivial(name, [x for x in a if isinstance(x, (np.ndarray, xr.DataArray, float, int, str))], k)
        except Exception: pass
        fresh = len(sys.modules) != n0      # a library loaded on first use may set itself up
        for key in s0:
            if key == "open_files" and exc is not None: continue          # its traceback may hold them
            if s0[key] != s1[key] and not (fresh and key in ("open_files", "warning_filters", "environment", "torch_modes", "module_search_path", "logging", "pandas_options", "matplotlib_settings", "exception_hooks", "signal_handlers")):
                d = dict(before=short(s0[key]), after=short(s1[key])) if key not in ("environment",) else {}
                ctx.violation(f"{name} changed {key.replace('_', ' ')} of the process" + (" (and raised)" if exc is not None else ""), extra=d)
        for e in log: ctx.violation(f"{name} {e}")
        if exc is not None: ctx.tag("raising_call"); raise exc
        ctx.tag("returned:" + name)
        return v
    setattr(obj, last, guarded)


def install(ctx):
    global MODULES
    MODULES = [m.name for m in pkgutil.walk_packages(pycomlink.__path__, "pycomlink.", onerror=lambda n: None) if ".tests" not in m.name]
    for m in MODULES:
        try: importlib.import_module(m)
        except Exception: pass
    import torch
    torch.set_num_threads(1)
    for s in SRC: SUBS[s] = importlib.import_module("checks." + s)
    g = np.random.default_rng(5)
    for ch in (1, 2, 3):
        for sq in (True, False): torch.jit.script(SUBS["c19"].Lin(g.normal(0, .2, (ch, 180)), sq)).save(os.path.join(ctx.scratch, f"m{ch}{'s' if sq else ''}.pt"))
    for mod, n in FUNCS + DL:
        if not n.startswith("_"): guard(ctx, mod, n, n)
    SCRATCH[0] = os.path.realpath(ctx.scratch); tempfile.gettempdir()
    f = os.path.join(ctx.scratch, "warm"); open(f, "w").close(); urllib.request.urlopen("file://" + f).close()
    sys.addaudithook(hook)


def calls(ctx, rng, i):
    s = SRC[i % len(SRC)]
    sub = Ctx(s.upper(), ctx.mode, ctx.seed, "quick"); sub.scratch, sub.repo = ctx.scratch, ctx.repo
    j = gen.case_number(ctx, rng, s, .08)
    if s == "c19" and j % 160 != 41: j = j - j % 4 + int(rng.integers(4))
    # surroundings a caller may have set up
    old, cwd, po, filt = np.geterr(), os.getcwd(), np.get_printoptions(), list(warnings.filters)
    work = os.path.join(ctx.scratch, f"cwd{i % 5}"); os.makedirs(work, exist_ok=True)
    with_opt = None
    torch = sys.modules["torch"]; grad = torch.is_grad_enabled()
    try:
        os.chdir(work)
        np.seterr(**{k: gen.pick(rng, ["ignore", "ignore", "warn"]) for k in ("divide", "invalid", "over", "under")})
        np.set_printoptions(precision=int(rng.integers(3, 9)))
        if rng.random() < .5: warnings.filterwarnings("ignore", message=f"nothing {i}")
        with_opt = xr.set_options(keep_attrs=gen.pick(rng, [True, "default"]), arithmetic_join="inner") if rng.random() < .4 else None
        np.random.seed(int(rng.integers(1 << 30))); random.seed(int(rng.integers(1 << 30)))
        if rng.random() < .5: torch.set_grad_enabled(False)
        for k in range(1 if s in HEAVY else 4):
            try: SUBS[s].case(sub, rng, j + k * (8 if s == "c20" else 4))
            except Exception: pass                 # the other checks judge that
        left = sorted(os.listdir(work))
        if left: ctx.violation(f"files left in the working directory: {left[:5]}", extra=s)
        ctx.tag("source:" + s)
    finally:
        if with_opt is not None: with_opt.__exit__(None, None, None)
        torch.set_grad_enabled(grad)
        os.chdir(cwd); np.seterr(**old); np.set_printoptions(**po); warnings.filters[:] = filt
        shutil.rmtree(work, ignore_errors=True)


def downloads(ctx, rng, i):
    """the model caches: what they write stays below the cache directory, the rest of the process as it was"""
    import pycomlink.processing.pytorch_utils.inference_utils as tu
    import pycomlink.processing.tensorflow_utils.inference_utils as fu
    base = os.path.join(ctx.scratch, f"dl{i}"); src = os.path.join(base, "src"); work = os.path.join(base, "work"); home = os.path.join(base, "home")
    for d in (src, work, home): os.makedirs(d)
    cwd, h0 = os.getcwd(), os.environ.get("HOME")
    try:
        os.chdir(work); os.environ["HOME"] = home
        names = ["a.pt", "b.weights.h5", "c.json", "d%20e.pt"]
        for n in names[:3]:
            with open(os.path.join(src, n), "wb") as f: f.write(rng.bytes(int(rng.integers(0, 40000))))
        shutil.copy(os.path.join(ctx.scratch, "m1.pt"), os.path.join(src, "a.pt"))
        before = {n: open(os.path.join(src, n), "rb").read() for n in os.listdir(src)}
        for step in range(int(rng.integers(3, 9))):
            url = "file://" + os.path.join(src, gen.pick(rng, names + ["gone.pt"])); cd = gen.pick(rng, [os.path.join(base, "cache"), os.path.join(base, "c2", "deep")])
            force = bool(rng.random() < .4); k = int(rng.integers(6))
            dflt = [os.path.join(home, ".cml_wd_pytorch"), os.path.join(work, "model_cnn")]
            url2 = "file://" + os.path.join(src, "c.json")
            tl.urls = (url, url2); tl.allow = [os.path.realpath(cd), os.path.join(base, "c2")] if "deep" in cd else [os.path.realpath(cd)]
            try:
                if k == 0: ctx.quiet(tu.download_and_cache_model, url, cd, force)
                elif k == 1: ctx.quiet(fu.download_and_cache, url, cd, force)
                elif k == 2: ctx.quiet(tu.list_cached_models, cd)
                elif k == 3: ctx.quiet(tu.clear_model_cache, cd)
                elif k == 4: tl.allow = [os.path.realpath(d) for d in dflt]; ctx.quiet(tu.get_model, gen.pick(rng, [url, url, os.path.join(src, "a.pt"), "nothing.pt"]))
                else: ctx.quiet(fu.resolve_model_paths, url2, url, cache_dir=cd, force_download=force)
                ctx.tag("download:" + str(k))
            finally: tl.allow, tl.urls = None, ()
            left = sorted(set(os.listdir(base)) - {"src", "work", "home", "cache", "c2"}) + sorted(set(os.listdir(home)) - {".cml_wd_pytorch"}) + sorted(set(os.listdir(work)) - {"model_cnn"})
            if left: ctx.violation(f"a download left {left[:4]} outside the cache directory")
            now = {n: open(os.path.join(src, n), "rb").read() for n in os.listdir(src)}
            if now != before: ctx.violation("the source of a download was changed")
    finally:
        os.chdir(cwd)
        if h0 is None: os.environ.pop("HOME", None)
        else: os.environ["HOME"] = h0
        shutil.rmtree(base, ignore_errors=True)


def fresh(ctx, rng, i):
    block = gen.pick(rng, [["tensorflow"], ["torch"], ["tensorflow", "torch"], ["tensorflow", "torch"], []])
    mods = ["pycomlink"] + [m for m in rng.permutation(MODULES).tolist()] if rng.random() < .7 else rng.permutation(MODULES).tolist()
    sc = []
    if "tensorflow" in block:
        for k in range(int(rng.integers(8, 14))):
            n = int(gen.pick(rng, [1, 1, 2, 3]))
            steps = []
            for _ in range(n):
                op = gen.pick(rng, ["get_tf", "get_tf", "ensure", "wet_dry"]); kw = {}
                if rng.random() < .7: kw = {"install_tensorflow" if op == "wet_dry" else "auto_install": bool(rng.random() < .4)}
                steps.append(dict(op=op, kw=kw))
                if rng.random() < .15: steps.append(dict(op="appears", kw={}))
            sc.append(dict(mark=f"stub{i}-{k}", present=bool(rng.random() < .3), env=gen.pick(rng, [None, None, "", "0", "1", "1", "no", "false"]), nvidia=gen.pick(rng, [None, 0, 1]),
                           installer=gen.pick(rng, ["works", "works", "fails", "useless"]), gpu_seen=bool(rng.random() < .3), steps=steps))
    job = dict(block=block, modules=mods, installs=sc, seed=int(rng.integers(1 << 30)), seterr=dict(divide=gen.pick(rng, ["ignore", "raise", "warn"]), over=gen.pick(rng, ["ignore", "warn"])), filter=gen.pick(rng, ["ignore", "always", "default"]))
    d = os.path.join(ctx.scratch, f"fresh{i}"); os.makedirs(d, exist_ok=True)
    try:
        p = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "c33_child.py"), ctx.repo, d, json.dumps(job)],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, cwd=d)
        try: out = json.loads(p.stdout.decode().splitlines()[-1])
        except Exception: ctx.violation(f"the fresh interpreter ended with {p.returncode}", extra=p.stderr.decode()[-1500:]); return
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if out["error"]: ctx.violation("the package broke the fresh interpreter", extra=out["error"]); return
    nope = lambda m: ("pytorch_utils" in m and "torch" in block)
    for r in out["imports"]:
        ctx.events += 1; ctx.judged += 1; m = r["module"]
        ctx.nontrivial("import", m, block, job["seed"])
        info = dict(module=m, not_installed=block, observed=r)
        if nope(m):
            ctx.tag("torch_missing")
            if r["outcome"] == "ok" or "torch" not in r["outcome"].lower(): ctx.violation("the PyTorch part is imported without PyTorch, or fails without naming it", extra=info)
        elif r["outcome"] != "ok": ctx.violation(f"import of {m} fails without {block}: {r['outcome']}", extra=info)
        if r["changed"] and "torch" not in r["loaded"]: ctx.violation(f"importing {m} changed {r['changed']}", extra=info)
        for k, what in r["seen"]: ctx.violation(f"importing {m}: {k} {what}", extra=info)
        if "tensorflow" in r["loaded"]: ctx.violation(f"importing {m} loads TensorFlow", extra=info)
        if "torch" in r["loaded"] and "pytorch_utils" not in m: ctx.violation(f"importing {m} loads PyTorch", extra=info)
    ctx.tag("imports:" + ("+".join(block) if block else "all_installed"))
    for r in out["installs"]: judge(ctx, r)


def judge(ctx, r):
    sc = r["sc"]; present = sc["present"]; got = False
    steps = iter(r["steps"])
    for st in sc["steps"]:
        if st["op"] == "appears": present = True; continue
        o = next(steps)
        ctx.events += 1; ctx.judged += 1; ctx.nontrivial(json.dumps([sc, o], default=str))
        info = dict(scenario=sc, step=o)
        runs = [x for x in o["ran"] if x.startswith("python ")]
        other = [w for k, w in o["seen"] if k == "process" and "nvidia-smi" not in str(w) and "bin/python" not in str(w)]
        asked = any(bool(v) for v in st["kw"].values()) or sc["env"] == "1"
        if other: ctx.violation(f"another program was started: {other}", extra=info)
        for k, w in o["seen"]:
            if k not in ("process",) and not (st["op"] == "wet_dry" and "/model_cnn" in w): ctx.violation(f"asking for TensorFlow: {k} {w}", extra=info)
        if o["changed"]: ctx.violation(f"asking for TensorFlow changed {o['changed']}", extra=info)
        kind = o["outcome"][0]
        found = (kind == "module" and o["outcome"][1] == sc["mark"])
        if present or got:
            if o["ran"]: ctx.violation("TensorFlow is there, but a program was run", extra=info)
            if st["op"] != "wet_dry" and not found: ctx.violation("TensorFlow is there but was not returned", extra=info)
            if st["op"] == "wet_dry" and kind == "raised" and "ImportError" in o["outcome"][1]: ctx.violation("TensorFlow is there, but was reported missing", extra=info)
            ctx.tag("tf_present"); got = True; continue
        if not asked:
            if runs: ctx.violation("the installer was run without being asked for", extra=info)
            if not (kind == "raised" and "ImportError" in o["outcome"][1]): ctx.violation("TensorFlow is missing, but no ImportError", extra=info)
            elif "tensorflow" not in o["outcome"][2].lower(): ctx.violation("the ImportError does not name TensorFlow", extra=info)
            ctx.tag("tf_missing_not_asked"); continue
        pkg = "tensorflow[and-cuda]" if sc["nvidia"] == 0 else "tensorflow"
        if runs != [f"python -m pip install {pkg}"]: ctx.violation(f"installer runs {runs}, expected one of {pkg}", extra=info)
        ctx.tag("install_asked", "install_by_environment" if sc["env"] == "1" and not any(st["kw"].values()) else "install_by_argument", "gpu_package" if sc["nvidia"] == 0 else "cpu_package")
        if sc["installer"] == "works":
            if st["op"] != "wet_dry" and not found: ctx.violation("installed, but not returned", extra=info)
            got = True; ctx.tag("installed")
        elif kind != "raised": ctx.violation("the installation failed, but no error", extra=info)
        else: ctx.tag("install_failed")


def case(ctx, rng, i):
    if (i + i // 8) % 8 == 1: fresh(ctx, rng, i)
    elif (i + i // 8) % 16 == 6: downloads(ctx, rng, i)
    else: calls(ctx, rng, i)
