"""Runs in a fresh interpreter: what importing the package and asking for TensorFlow does to the process.

argv: repo, scratch, json(job).  Prints one JSON line with what was observed.  No real
installer can run: sys.executable and PATH point at recorders in the scratch folder, and
an audit hook refuses every other program."""
import json, os, sys
repo, scratch, job = sys.argv[1], sys.argv[2], json.loads(sys.argv[3])
sys.path.insert(0, repo)
import builtins, importlib, importlib.machinery, importlib.util, random, traceback, warnings
REAL_OUT = os.dup(1); sys.stdout = open(os.devnull, "w")
for m in ("numpy", "pandas", "xarray", "scipy.interpolate", "scipy.spatial", "scipy.stats", "numba", "sklearn.neural_network", "sklearn.preprocessing", "matplotlib.pyplot", "matplotlib.mlab",
          "shapely.geometry", "poligrain", "pykrige.ok", "h5py", "tqdm", "urllib.request", "netCDF4", "dask", "importlib.resources", "shapely.ops", "uuid", "subprocess", "hashlib"):
    try: importlib.import_module(m)
    except Exception: pass
import numpy as np, pandas as pd, xarray as xr, subprocess

block = set(job["block"])


class Filter:
    """the ordinary path finder, but for what is 'not installed' here"""
    def __init__(self, f): self.f = f
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in block: return STUB.find_spec(name, path)
        return self.f.find_spec(name, path, target)
    def __getattr__(self, k): return getattr(self.f, k)


class Stub:
    """finds only what the pretended installer put into scratch/site"""
    def find_spec(self, name, path=None):
        return importlib.machinery.PathFinder.find_spec(name, path or [SITE])
    def invalidate(self): importlib.invalidate_caches()


SITE = os.path.join(scratch, "site"); BIN = os.path.join(scratch, "bin"); LOG = os.path.join(scratch, "log")
for d in (SITE, BIN): os.makedirs(d, exist_ok=True)
STUB = Stub()
sys.meta_path[:] = [Filter(f) if f is importlib.machinery.PathFinder or type(f).__name__ == "PathFinder" or "Editable" in getattr(f, "__name__", type(f).__name__) else f for f in sys.meta_path]
seen, watching = [], [False]
WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


class Refused(Exception): pass


def importing(third_party):
    f = sys._getframe(2); inside = False
    while f is not None:
        n = f.f_code.co_filename
        if n == "<frozen importlib._bootstrap>": inside = True
        if "/pycomlink/" in n and inside is False: return False
        if inside and "/pycomlink/" in n: return third_party
        f = f.f_back
    return inside and third_party


def hook(ev, a):
    if not watching[0]: return
    try:
        if ev in ("subprocess.Popen", "os.exec", "os.posix_spawn", "os.system", "os.spawn"):
            exe = str(a[0]); argv = [str(x) for x in a[1]] if len(a) > 1 and isinstance(a[1], (list, tuple)) else [exe]
            if importing(True): return
            first = os.path.basename(argv[0] if argv else exe)
            ok = exe.startswith(BIN) or (ev == "subprocess.Popen" and (argv[0].startswith(BIN) or first == "nvidia-smi"))
            if ev == "os.posix_spawn" and ok: return
            seen.append(["process", [exe] + argv])
            if not ok: raise Refused(f"no program may run here: {argv}")
        elif ev in ("socket.connect", "socket.getaddrinfo", "urllib.Request"):
            seen.append(["network", str(a[1] if len(a) > 1 else a)[:120]]); raise Refused("no network here")
        elif ev == "open":
            mode, flags = a[1], a[2]
            if (isinstance(mode, str) and any(c in mode for c in "wax+")) or (isinstance(flags, int) and flags & WRITE):
                p = str(a[0])
                if p.startswith("/dev/") or importing(True): return
                seen.append(["write", p])
        elif ev in ("os.mkdir", "os.remove", "os.rename", "os.rmdir", "os.chdir", "shutil.rmtree", "os.putenv", "os.unsetenv", "os.chmod"):
            if importing(True): return
            seen.append([ev, str(a)[:120]])
    except Refused: raise
    except Exception as e: seen.append(["hook", repr(e)])


sys.addaudithook(hook)


def state():
    t = sys.modules.get("torch")
    return dict(np_random=hash(np.random.get_state()[1].tobytes()) ^ int(np.random.get_state()[2]), random=hash(random.getstate()), errstate=sorted(np.geterr().items()),
                filters=[repr(f) for f in warnings.filters], cwd=os.getcwd(), environ=sorted(os.environ.items()), path=list(sys.path), stdout=id(sys.stdout), stderr=id(sys.stderr),
                printoptions=repr(sorted(np.get_printoptions().items(), key=str)), recursion=sys.getrecursionlimit(), excepthook=id(sys.excepthook),
                backend=__import__("matplotlib").rcParams["backend"], rc=hash(repr(sorted(__import__("matplotlib").rcParams.items(), key=str))),
                pd=repr([pd.get_option(o) for o in ("mode.chained_assignment", "display.max_rows", "display.precision")]) if job.get("pd", 1) else "",
                xr=repr({k: v for k, v in xr.get_options().items()}))


def quiet_state():
    try: return state()
    except Exception: job["pd"] = 0; return state()


out = dict(imports=[], installs=[], error=None)
try:
    os.chdir(scratch)
    np.random.seed(job["seed"] % 1000); random.seed(job["seed"])
    for k, v in job["seterr"].items(): np.seterr(**{k: v})
    warnings.filterwarnings(job["filter"], category=UserWarning)
    s0 = quiet_state(); loaded = {m for m in ("tensorflow", "torch") if m in sys.modules}
    watching[0] = True
    for m in job["modules"]:
        try: importlib.import_module(m); r = "ok"
        except BaseException as e: r = f"{type(e).__name__}: {e}"
        s1 = quiet_state()
        out["imports"].append(dict(module=m, outcome=r, changed=[k for k in s0 if s0[k] != s1[k]], loaded=[x for x in ("tensorflow", "torch") if x in sys.modules and x not in loaded], seen=list(seen)))
        seen.clear(); s0 = s1
        loaded |= {x for x in ("tensorflow", "torch") if x in sys.modules}
    watching[0] = False
    # ---- the installer
    fake = os.path.join(BIN, "python"); os.environ["PATH"] = BIN
    for sc in job["installs"]:
        import shutil
        for n in os.listdir(SITE): shutil.rmtree(os.path.join(SITE, n)) if os.path.isdir(os.path.join(SITE, n)) else os.remove(os.path.join(SITE, n))
        for n in os.listdir(BIN): os.remove(os.path.join(BIN, n))
        for n in list(sys.modules):
            if n.split(".")[0] == "tensorflow": del sys.modules[n]
        src = "import types\nMARK = %r\nclass config:\n    @staticmethod\n    def list_physical_devices(kind=None): return %r\n" % (sc["mark"], ["gpu"] if sc["gpu_seen"] else [])

        def put(broken=False):
            os.makedirs(os.path.join(SITE, "tensorflow"), exist_ok=True)
            with open(os.path.join(SITE, "tensorflow", "__init__.py"), "w") as f: f.write(src)
            importlib.invalidate_caches()
        def script(name, rc, extra=""):
            p = os.path.join(BIN, name)
            with open(p, "w") as f: f.write(f"#!/bin/sh\necho \"{name} $*\" >> '{LOG}'\n{extra}\nexit {rc}\n")
            os.chmod(p, 0o755)
        open(LOG, "w").close()
        if sc["nvidia"] is not None: script("nvidia-smi", sc["nvidia"])
        extra = ""
        if sc["installer"] == "works":
            with open(os.path.join(scratch, "stub.py"), "w") as f: f.write(src)
            extra = f"/bin/mkdir -p '{SITE}/tensorflow' && /bin/cp '{scratch}/stub.py' '{SITE}/tensorflow/__init__.py'"
        script("python", 1 if sc["installer"] == "fails" else 0, extra)
        if sc["present"]: put()
        importlib.invalidate_caches()
        keep = sys.executable
        sys.executable = fake
        import pycomlink.processing.tensorflow_utils.lazy_tf as lz
        if hasattr(lz, "tf"): lz.tf = None
        os.environ.pop("ALLOW_TF_AUTOINSTALL", None)
        if sc["env"] is not None: os.environ["ALLOW_TF_AUTOINSTALL"] = sc["env"]
        rec = dict(sc=sc, steps=[])
        try:
            for st in sc["steps"]:
                seen.clear(); n0 = len(open(LOG).read().splitlines())
                if st["op"] == "appears": put(); continue
                s0 = quiet_state(); watching[0] = True
                try:
                    if st["op"] == "get_tf": v = lz.get_tf(**st["kw"])
                    elif st["op"] == "ensure": v = lz.ensure_tensorflow_installed(**st["kw"])
                    else:
                        ri = importlib.import_module("pycomlink.processing.tensorflow_utils.run_inference")
                        ds = xr.Dataset({v: (("cml_id", "time"), np.ones((1, 4))) for v in ("tl1", "tl2")}, coords=dict(cml_id=["a"], time=pd.date_range("2020", periods=4, freq="1min")))
                        v = ri.wet_dry_1d_cnn(ds, json_url=os.path.join(scratch, "none.json"), weights_url=os.path.join(scratch, "none.h5"), **st["kw"])
                    r = ["module", getattr(v, "MARK", repr(v))]
                except BaseException as e:
                    r = ["raised", [t.__name__ for t in type(e).__mro__], str(e)[:300]]
                watching[0] = False
                s1 = quiet_state()
                rec["steps"].append(dict(op=st["op"], kw=st["kw"], outcome=r, ran=open(LOG).read().splitlines()[n0:], seen=list(seen), changed=[k for k in s0 if s0[k] != s1[k] and k not in ("path",)]))
        finally:
            watching[0] = False; sys.executable = keep
        out["installs"].append(rec)
except BaseException as e:
    out["error"] = traceback.format_exc()[-3000:]
os.write(REAL_OUT, (json.dumps(out, default=str) + "\n").encode())
os._exit(0)
