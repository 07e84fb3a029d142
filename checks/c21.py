"""C21 model caches under injected faults, crashes and concurrency.

A loopback HTTP server serves versioned bodies and injects faults; downloads
run in this process, in threads and in forked children that are killed at a
chosen executed line.  After every operation the checker compares the cache
with its model: url -> complete bytes."""
import hashlib, http.server, os, select, shutil, signal, socket, struct, sys, threading, time
from pathlib import Path
import numpy as np
from vlib import gen, tls
from vlib.core import must_return
import pycomlink.processing.pytorch_utils.inference_utils as tu
import pycomlink.processing.tensorflow_utils.inference_utils as fu

SRV = {}
LOCK = threading.RLock()


class State:
    """what the server does for one path"""
    def __init__(self, path):
        self.path, self.version, self.size = path, 0, 1000
        self.mode = "ok"; self.bodies = set(); self.bump = False; self.hold = None

    def body(self):
        h = hashlib.sha256(f"{self.path}:{self.version}".encode()).digest()
        b = (h * (self.size // 32 + 1))[:self.size]
        self.bodies.add(b)
        return b


class Handler(http.server.BaseHTTPRequestHandler):
    def log_message(self, *a): pass

    def do_GET(self):
        with LOCK:
            SRV["log"].append(self.path)
            st = SRV["paths"].get(self.path)
            if st is None: self.send_error(404); return
            mode = st.mode
            if st.bump: st.version += 1; st.size = int(SRV["rng"].integers(1, 60000))
            b = st.body()
        if mode in ("404", "500", "503"): self.send_error(int(mode)); return
        if mode == "redirect":
            self.send_response(302); self.send_header("Location", self.path + "__real"); self.end_headers(); return
        self.send_response(200)
        if mode == "chunked_cut":
            self.send_header("Transfer-Encoding", "chunked"); self.end_headers()
            k = max(1, len(b) // 2); self.wfile.write(b"%x\r\n" % len(b) + b[:k]); self.wfile.flush(); self.close_connection = True; return
        if mode != "nolength": self.send_header("Content-Length", str(len(b)))
        self.end_headers()
        if mode in ("truncated", "reset", "hold"):
            k = {"truncated": len(b) // 2, "reset": len(b) // 3, "hold": len(b) // 2}[mode]
            if SRV["cut"] is not None: k = min(SRV["cut"], len(b) - 1)
            self.wfile.write(b[:k]); self.wfile.flush()
            if mode == "hold": st.hold.set(); time.sleep(.3)
            if mode == "reset":
                self.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                time.sleep(.02)
            try: self.connection.close()
            except OSError: pass
            return
        if mode == "slow":
            for q in range(0, len(b), 8192):
                try: self.wfile.write(b[q:q + 8192]); self.wfile.flush()
                except OSError: return
                time.sleep(.001)
        else:
            try: self.wfile.write(b)
            except OSError: pass


class Server(http.server.ThreadingHTTPServer):
    daemon_threads = True
    request_queue_size = 64
    def handle_error(self, *a): pass


def guard(ctx):
    """containment: refuse file system changes outside the scratch directory"""
    root = os.path.realpath(ctx.scratch); me = []
    def inside(p):
        try: p = os.path.realpath(os.path.join(os.getcwd(), os.fspath(p)) if not isinstance(p, bytes) else os.fsdecode(p))
        except TypeError: return True
        return p == root or p.startswith(root + os.sep)
    def hook(event, args):
        bad = None
        if event in ("os.remove", "os.rmdir", "os.mkdir", "shutil.rmtree", "os.truncate"): bad = args[0] if not isinstance(args[0], int) and not inside(args[0]) else None
        elif event == "os.rename": bad = next((a for a in args[:2] if not inside(a)), None)
        elif event == "open" and isinstance(args[0], (str, bytes)) and isinstance(args[1], str) and any(c in args[1] for c in "wax+") and args[0] != os.devnull: bad = args[0] if not inside(args[0]) else None
        if bad is not None and getattr(ctx._local, "in_op", 0):
            ctx.violation(f"{event} outside of the cache directory: {bad!r}"); raise PermissionError(f"refused by the monitor: {event} {bad!r}")
    sys.addaudithook(hook)


def install(ctx):
    SRV.update(log=[], paths={}, rng=np.random.default_rng(ctx.seed), cut=None)
    s = Server(("127.0.0.1", 0), Handler); SRV["srv"] = s; SRV["port"] = s.server_address[1]
    threading.Thread(target=s.serve_forever, kwargs=dict(poll_interval=.05), daemon=True).start()
    t = tls.wrap(Server(("127.0.0.1", 0), Handler)); SRV["tls_port"] = t.server_address[1]; tls.trust()
    threading.Thread(target=t.serve_forever, kwargs=dict(poll_interval=.05), daemon=True).start()
    try: socket.getaddrinfo("localhost", SRV["port"]); SRV["hosts"] = ["127.0.0.1", "localhost"]
    except OSError: SRV["hosts"] = ["127.0.0.1"]
    # `localhost` may also resolve to ::1, where nothing listens; urllib tries all addresses
    guard(ctx)


class Cache:
    """model of one cache directory"""
    def __init__(self, fw, d): self.fw, self.d, self.have, self.maybe = fw, d, {}, {}   # url -> (path, bytes)

    def call(self, ctx, url, force, kw=True):
        ctx._local.in_op = 1
        try:
            f = tu.download_and_cache_model if self.fw == "torch" else fu.download_and_cache
            if not force and kw is None: return f(url, self.d)
            return f(url, self.d, force) if not kw else f(url, cache_dir=self.d, force_download=force)
        finally: ctx._local.in_op = 0


def op(ctx, name, *what):
    ctx.events += 1; ctx.judged += 1; ctx.funcs[name] += 1
    ctx.nontrivial(name, ctx.case_index, ctx.events, *[str(w) for w in what])


def verify_all(ctx, caches, why):
    """every cached file the callers were given still has its complete bytes"""
    for c in caches:
        for url, (p, b) in c.have.items():
            try:
                with open(p, "rb") as f: x = f.read()
            except OSError as e: ctx.violation(f"{why}: cached file of {url} is gone ({e})"); return False
            if x != b: ctx.violation(f"{why}: cached file of {url} changed ({len(x)} bytes, expected {len(b)})"); return False
        ps = [str(p) for p, _ in c.have.values()]
        if len(set(ps)) != len(ps): ctx.violation(f"{why}: two URLs share a cached file"); return False
    return True


def content(c):
    try: return sorted(os.listdir(os.path.expanduser(str(c.d))))
    except FileNotFoundError: return []


def download(ctx, rng, caches, c, url, path, force):
    st = SRV["paths"].get(path); before = content(c)
    n0 = len(SRV["log"]); mode = st.mode if st else "404"
    reuse = url in c.have and not force
    good = mode in ("ok", "nolength", "slow", "redirect")
    try: p = c.call(ctx, url, force, gen.pick(rng, [True, False, None])); exc = None
    except Exception as e: p, exc = None, e
    op(ctx, "download_" + c.fw, url, force, mode)
    asked = len(SRV["log"]) - n0
    if reuse:
        ctx.tag("reuse")
        if mode not in ("ok", "nolength", "slow", "redirect"): ctx.tag("reuse_server_broken")
        if exc is not None: ctx.violation(f"cached {url}: raised {exc!r}"); return
        if asked: ctx.violation(f"cached {url}: network access without force_download"); return
        if Path(p) != Path(c.have[url][0]): ctx.violation(f"cached {url}: another path {p} returned"); return
    elif good:
        if exc is not None: ctx.violation(f"download of {url} ({mode}) raised {exc!r}"); return
        if not asked: ctx.violation(f"{url}: no request although {'forced' if force else 'not cached'}"); return
        src = SRV["paths"][path + "__real"] if mode == "redirect" else st
        with LOCK: want = src.body()
        with open(p, "rb") as f: got = f.read()
        if got != want: ctx.violation(f"{url}: returned file has {len(got)} bytes that differ from the {len(want)} served"); return
        ctx.tag("forced_replaced" if url in c.have else "downloaded", "mode:" + mode, url.split(":")[0])
        c.have[url] = (Path(p), want)
        if not Path(p).resolve().is_relative_to(Path(os.path.expanduser(str(c.d))).resolve()): ctx.violation(f"{url}: cached outside of the cache directory at {p}"); return
    else:
        if exc is None: ctx.violation(f"failed download ({mode}) of {url} returned {p}"); return
        ctx.tag("fault:" + mode); ctx.raised += 1
        if content(c) != before: ctx.violation(f"failed download ({mode}) of {url} left {sorted(set(content(c)) ^ set(before))} in the cache directory"); return
        if url in c.have: ctx.tag("forced_failed_keeps_old")
    verify_all(ctx, caches, f"after download of {url} ({mode}, force={force})")


def listing(ctx, caches, c):
    if c.fw != "torch": return
    l = tu.list_cached_models(c.d) if ctx.events % 2 else tu.list_cached_models(cache_dir=c.d, suffix=".pt")
    op(ctx, "list_cached_models")
    got = sorted(str(Path(x)) for x in l); want = sorted(str(p) for p, _ in c.have.values())
    # a killed download may or may not have completed: then the file may be listed if it is complete
    extra = [x for x in got if x not in want]
    for x in extra:
        with open(x, "rb") as f: b = f.read()
        if not any(b in s.bodies for s in SRV["paths"].values()): ctx.violation(f"listing shows incomplete file {x}"); return
    if [x for x in want if x not in got] or (extra and not c.maybe): ctx.violation(f"listing {got} differs from the cached files {want}"); return
    ctx.tag("listed" if want else "listed_empty")


def clear(ctx, caches, c):
    if c.fw != "torch": return
    ctx._local.in_op = 1
    try: tu.clear_model_cache(c.d) if ctx.events % 2 else tu.clear_model_cache(cache_dir=c.d)
    except Exception as e: ctx.violation(f"clear_model_cache raised {e!r}"); return
    finally: ctx._local.in_op = 0
    op(ctx, "clear_model_cache")
    left = [x for x in Path(os.path.expanduser(str(c.d))).rglob("*") if x.is_file()]
    if left: ctx.violation(f"clear_model_cache left {left}"); return
    had = len(c.have); c.have.clear(); c.maybe.clear(); ctx.tag("cleared" if had else "cleared_empty")
    if any(o.have for o in caches): ctx.tag("cleared_other_dir_kept")
    verify_all(ctx, caches, "after clear_model_cache")


# ---- crashes ------------------------------------------------------------------
def child(c, ctx, url, force, stop_at, fsize=None):
    """Download in a forked child, killed when it executes line number stop_at
    of the package or urllib; returns (exit status, number of lines)."""
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            if fsize is not None:
                import resource; signal.signal(signal.SIGXFSZ, signal.SIG_IGN); resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
            cnt = [0]
            def tr(frame, ev, arg):
                f = frame.f_code.co_filename
                if not (f.endswith("inference_utils.py") or f.endswith("urllib/request.py") or f.endswith("pathlib.py")): return None
                if ev == "line":
                    cnt[0] += 1
                    if stop_at is not None and cnt[0] >= stop_at: os.kill(os.getpid(), signal.SIGKILL)
                return tr
            if fsize is None: sys.settrace(tr)
            code = 0
            try: c.call(ctx, url, force)
            except BaseException: code = 7
            sys.settrace(None); os.write(w, str(cnt[0]).encode())
            os._exit(code)
        finally: os._exit(9)
    os.close(w); t0 = time.time(); out = b""
    while time.time() - t0 < 30:
        if select.select([r], [], [], .5)[0]:
            x = os.read(r, 100)
            if not x: break
            out += x
    else: os.kill(pid, signal.SIGKILL)
    os.close(r); _, stt = os.waitpid(pid, 0)
    return stt, int(out or b"0")


def crash(ctx, rng, caches, c, url, path, force):
    st = SRV["paths"][path]; st.mode = "ok"
    old = c.have.get(url)
    with LOCK: st.version += 1; st.size = int(rng.integers(20000, 60000)); new = st.body()
    if SRV.get("lines") is None or rng.random() < .02:
        probe = Cache(c.fw, Path(str(c.d) + "_probe")); s, n = child(probe, ctx, url, True, None); SRV["lines"] = max(n, 60)
        shutil.rmtree(str(c.d) + "_probe", ignore_errors=True)
    k = int(rng.integers(1, SRV["lines"] + 1)) if rng.random() < .6 else int(SRV["lines"] - rng.integers(0, 40))
    s, _ = child(c, ctx, url, force, max(1, k)); op(ctx, "killed_download", url, force, k)
    died = os.WIFSIGNALED(s); ctx.tag("killed" if died else "child_finished")
    # whatever happened: the old complete file, the new complete file, or none
    c.maybe[url] = 1
    if old is not None:
        with open(old[0], "rb") as f: x = f.read()
        if x not in (old[1], new): ctx.violation(f"killed download (line {k}) left {len(x)} bytes in the cached file of {url}"); return
        c.have[url] = (old[0], x); ctx.tag("killed_with_old_file")
    n0 = len(SRV["log"])
    try: p = c.call(ctx, url, False)
    except Exception as e: ctx.violation(f"download after a killed one raised {e!r}"); return
    with open(p, "rb") as f: x = f.read()
    if x != new and not (old is not None and x == old[1]): ctx.violation(f"after a download killed at line {k}: cached file of {url} has {len(x)} of {len(new)} bytes"); return
    if old is None and len(SRV["log"]) > n0: ctx.tag("killed_before_completion")
    c.have[url] = (Path(p), x); c.maybe.pop(url, None)
    verify_all(ctx, caches, "after a killed download")


def full_disk(ctx, rng, caches, c, url, path, force):
    st = SRV["paths"][path]; st.mode = "ok"
    with LOCK: st.version += 1; st.size = int(rng.integers(20000, 60000)); new = st.body()
    if url in c.have: force = True
    before = content(c)
    s, _ = child(c, ctx, url, force, None, fsize=int(rng.integers(0, 16000))); op(ctx, "download_write_fails", url)
    if os.WIFEXITED(s) and os.WEXITSTATUS(s) == 0: ctx.violation(f"download of {url} returned although the file could not be written"); return
    ctx.tag("write_failed")
    if content(c) != before: ctx.violation(f"a download of {url} that could not be written left {sorted(set(content(c)) ^ set(before))} in the cache directory"); return
    if not verify_all(ctx, caches, "after a download that could not be written"): return
    old = c.have.get(url)
    try: p = c.call(ctx, url, False)
    except Exception as e: ctx.violation(f"download after a failed write raised {e!r}"); return
    with open(p, "rb") as f: x = f.read()
    if x != (old[1] if old else new): ctx.violation(f"after a failed write the cached file of {url} has {len(x)} bytes"); return
    c.have[url] = (Path(p), x)


def concurrent(ctx, rng, caches, c, url, path):
    st = SRV["paths"][path]; st.mode = "slow"; st.bump = True
    res, bad, stop = [], [], threading.Event()
    known = c.have.get(url)
    with LOCK: ok = set(st.bodies)
    if known: ok.add(known[1])
    def complete(x):
        with LOCK: return x in st.bodies or (known and x == known[1])
    def dl(force):
        try:
            f = tu.download_and_cache_model if c.fw == "torch" else fu.download_and_cache
            p = f(url, cache_dir=c.d, force_download=force)
            with open(p, "rb") as f: x = f.read()
            if not complete(x): bad.append(f"returned file holds {len(x)} bytes that are no complete version")
            res.append(p)
        except Exception as e: bad.append(f"raised {e!r}")
    def watch(p):
        while not stop.is_set():
            try:
                with open(p, "rb") as f: x = f.read()
            except FileNotFoundError: continue
            if not complete(x): bad.append(f"a reader saw {len(x)} bytes that are no complete version"); return
    ts = [threading.Thread(target=dl, args=(bool(k % 2) or bool(known and k < 2),)) for k in range(5)]
    pp = known[0] if known else None
    r = threading.Thread(target=watch, args=(pp,)) if pp else None
    if r: r.start(); ctx.tag("reader_during_replacement")
    pids = []
    if rng.random() < .5:
        pid = os.fork()
        if pid == 0:
            try: c.call(ctx, url, True)
            except BaseException: pass
            os._exit(0)
        pids.append(pid); ctx.tag("concurrent_process")
    for t in ts: t.start()
    for t in ts: t.join(60)
    for pid in pids: os.waitpid(pid, 0)
    stop.set()
    if r: r.join(10)
    op(ctx, "concurrent_downloads", url); ctx.tag("concurrent")
    st.bump = False; st.mode = "ok"
    if bad: ctx.violation(f"concurrent downloads of {url}: {bad[0]}"); return
    with open(res[0], "rb") as f: x = f.read()
    if not complete(x): ctx.violation(f"after concurrent downloads the cached file of {url} is no complete version"); return
    c.have[url] = (Path(res[0]), x)
    verify_all(ctx, caches, "after concurrent downloads")


def resolve(ctx, rng, c, urls):
    """json/weights, each a local path or a URL; cache below the working directory"""
    d = f"res{ctx.case_index}" + gen.pick(rng, ["", "", "/deep/er"]); loc = os.path.join(ctx.scratch, "local.json")
    with open(loc, "w") as f: f.write("{}")
    src = []
    for _ in range(2):
        if rng.random() < .3: src.append((loc, None))
        else: u, p = urls[int(rng.integers(len(urls)))]; SRV["paths"][p].mode = "ok"; src.append((u, p))
    have = {}                                   # url -> bytes that have to be in the cache
    failed = False
    for step in range(int(rng.integers(1, 5))):
        force = bool(rng.random() < .4) or failed
        for u, p in {x for x in src if x[1]}:
            if rng.random() < .6:
                with LOCK: SRV["paths"][p].version += 1; SRV["paths"][p].size = int(rng.integers(1, 30000))
            SRV["paths"][p].mode = gen.pick(rng, ["ok", "ok", "ok", "slow", "404", "truncated"]) if not failed else "ok"
            if SRV["paths"][p].mode == "truncated": SRV["paths"][p].size = 20000; SRV["cut"] = None
        n0 = len(SRV["log"])
        needed = [(u, p) for u, p in src if p and (force or u not in have)]
        fails = any(SRV["paths"][p].mode in ("404", "truncated") for u, p in needed)
        try: r = fu.resolve_model_paths(src[0][0], src[1][0], cache_dir=d, **({} if not force and rng.random() < .5 else dict(force_download=force))) if rng.random() < .5 else fu.resolve_model_paths(json_source=src[0][0], weights_source=src[1][0], force_download=force, cache_dir=d)
        except Exception as e:
            if not fails: ctx.violation(f"resolve_model_paths raised {e!r}"); return
            r = None; ctx.tag("resolve_failed")
        op(ctx, "resolve_model_paths", src, force, step)
        with LOCK: now = {u: SRV["paths"][p].body() for u, p in needed if SRV["paths"][p].mode in ("ok", "slow")}
        if r is None:
            failed = True                       # which of the two files was replaced before the failure is open: force the next
            continue
        if fails: ctx.violation("resolve_model_paths returned although a download failed"); return
        if not needed and len(SRV["log"]) != n0: ctx.violation("resolve_model_paths accessed the network although everything is cached"); return
        have.update(now); failed = False
        for (u, p), got in zip(src, r):
            if p is None:
                if Path(got) != Path(u): ctx.violation(f"local path {u} resolved to {got}"); return
            else:
                with open(got, "rb") as f: x = f.read()
                if x != have[u]: ctx.violation(f"step {step}, force={force}: {u} resolved to a file with other bytes than served"); return
        if src[0][0] != src[1][0] and r[0] == r[1]: ctx.violation("json and weights of different sources resolved to one file"); return
        ctx.tag("resolved", "resolve_forced" if force and step else "resolve_first_or_cached")
    shutil.rmtree(os.path.join(os.getcwd(), d.split("/")[0]), ignore_errors=True)


def case(ctx, rng, i):
    fw = "torch" if i % 2 else "tf"
    base = Path(ctx.scratch) / f"c{i}" / "x" / "y"; base.mkdir(parents=True)
    SRV["log"].clear(); SRV["paths"] = {}; SRV["cut"] = None
    port = SRV["port"]
    # URLs that differ in host, directory, query, case, file name
    names = ["/a/model.pt", "/b/model.pt", "/a/model.pt?v=2", "/a/Model.pt", "/a/model.weights.h5", "/a/", "/a%20b/m.json", "/model.pt", "/a/model.pt.part", "/a/model.pt?p=x/w.h5", "/a/model.pt?p=y/w.h5", "/a/model.pt/", "/a/model.pt;v=2", "/a//model.pt", "/a/model.pt?v=3", "/b/model.pt?v=2"]
    urls = []
    if rng.random() < .4:           # two that are easily taken for one
        close = gen.pick(rng, [(0, 2), (0, 11), (0, 9), (9, 10), (0, 3), (0, 12), (0, 13), (2, 9), (0, 1), (0, 8), (2, 14), (2, 15)])
        ctx.tag("close_urls")
        order = list(close) + [q for q in rng.permutation(len(names)).tolist() if q not in close]
    else: order = rng.permutation(len(names)).tolist()
    for q in order[:int(rng.integers(2, 5))]:
        p = f"/{i}{names[q]}"; sec = rng.random() < .15; urls.append((f"{'https' if sec else 'http'}://{SRV['hosts'][int(rng.integers(len(SRV['hosts'])))]}:{SRV['tls_port'] if sec else port}{p}", p)); SRV["paths"][p] = State(p); SRV["paths"][p + "__real"] = State(p + "__real")
    dirs = [base / "models", base / "models2"]
    if rng.random() < .5: dirs = [str(d) for d in dirs]
    if fw == "torch" and rng.random() < .2: dirs[0] = "~/" + os.path.relpath(str(dirs[0]), os.environ["HOME"]); ctx.tag("home_dir")
    caches = [Cache(fw, d) for d in dirs]
    (base / "other.pt").write_bytes(b"not a cache file")
    if fw == "torch": listing(ctx, caches, caches[0])
    if fw == "torch" and rng.random() < .2: clear_missing(ctx, base / "nope")
    for step in range(int(rng.integers(5, 14))):
        if ctx.n_violations: break
        c = caches[int(rng.random() < .3)]; url, path = urls[int(rng.integers(len(urls)))]; st = SRV["paths"][path]
        if rng.random() < .4:
            with LOCK: st.version += 1; st.size = int(gen.pick(rng, [0, 1, 500, 8192, 8193, 16384, 50000])); SRV["paths"][path + "__real"].version += 1
        st.mode = gen.pick(rng, ["ok", "ok", "ok", "nolength", "slow", "redirect", "404", "500", "503", "truncated", "truncated", "reset", "chunked_cut"])
        if st.size < 2 and st.mode in ("truncated", "reset", "chunked_cut"): st.size = 20000
        SRV["cut"] = int(gen.pick(rng, [0, 1, 8192, 16384, 100])) if rng.random() < .3 else None
        k = rng.random(); force = bool(rng.random() < .35)
        if k < .62: download(ctx, rng, caches, c, url, path, force)
        elif k < .70: listing(ctx, caches, c)
        elif k < .75: clear(ctx, caches, c)
        elif k < .85: SRV["cut"] = None; crash(ctx, rng, caches, c, url, path, force)
        elif k < .90: SRV["cut"] = None; full_disk(ctx, rng, caches, c, url, path, force)
        elif k < .94: concurrent(ctx, rng, caches, c, url, path)
        elif fw == "tf": resolve(ctx, rng, c, urls)
        else:
            # nobody listens there
            u = "http://127.0.0.1:9/x.pt"; ok = True
            try: c.call(ctx, u, False); ctx.violation("download from a dead server returned")
            except Exception: ctx.tag("fault:refused")
            op(ctx, "download_" + fw, "refused"); verify_all(ctx, caches, "after a refused connection")
        listing(ctx, caches, c)
    if (base / "other.pt").read_bytes() != b"not a cache file": ctx.violation("a file outside of the cache directories was changed")
    ctx.sample(dict(framework=fw, urls=[u for u, _ in urls], requests=SRV["log"][:20], cached={u: len(b) for u, (p, b) in caches[0].have.items()}))
    shutil.rmtree(Path(ctx.scratch) / f"c{i}", ignore_errors=True)


def clear_missing(ctx, d):
    try: tu.clear_model_cache(d); ctx.tag("cleared_missing")
    except Exception as e: ctx.violation(f"clear_model_cache of a missing directory raised {e!r}")
    op(ctx, "clear_model_cache")
