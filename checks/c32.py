"""C32 the model that is used is the model that was asked for.

Scripted PyTorch models and Keras models with identifying weights are put on
local paths and on a loopback server; histories of requests (path, URL, forced
download, changed server content, failing server) are checked against a model
of the cache: location -> weights it must compute with."""
import http.server, io, os, shutil, threading
from pathlib import Path
import numpy as np
import torch
import xarray as xr
from vlib import gen, tls
from vlib.core import mismatch
import pycomlink.processing.pytorch_utils.inference_utils as tu
import pycomlink.processing.pytorch_utils.run_inference as tr
from checks.c19 import Lin, expected as torch_expected

torch.set_num_threads(1)
NT = 6
BODY, W = [], []                        # torch: bytes and weights per version
TF = {}
SRV = {}


class Handler(http.server.BaseHTTPRequestHandler):
    def log_message(self, *a): pass

    def do_GET(self):
        SRV["log"].append(self.path)
        b = SRV["paths"].get(self.path)
        if b is None: self.send_error(404); return
        if b == "broken": self.send_error(503); return
        cut = None
        if isinstance(b, tuple): b, cut = b
        self.send_response(200); self.send_header("Content-Length", str(len(b))); self.end_headers()
        try: self.wfile.write(b if cut is None else b[:cut])
        except OSError: pass


class Server(http.server.ThreadingHTTPServer):
    daemon_threads = True
    def handle_error(self, *a): pass


def install(ctx):
    g = np.random.default_rng(5)
    for k in range(NT):
        w = g.normal(0, .2, (1, 180)); f = io.BytesIO(); torch.jit.save(torch.jit.script(Lin(w, k % 2 == 0)), f)
        BODY.append(f.getvalue()); W.append(w)
    SRV.update(log=[], paths={})
    s = Server(("127.0.0.1", 0), Handler); SRV["port"] = s.server_address[1]
    threading.Thread(target=s.serve_forever, kwargs=dict(poll_interval=.05), daemon=True).start()
    t = tls.wrap(Server(("127.0.0.1", 0), Handler)); SRV["tls_port"] = t.server_address[1]; tls.trust()
    threading.Thread(target=t.serve_forever, kwargs=dict(poll_interval=.05), daemon=True).start()
    SRV["asked"] = tls.resolve_to(SRV["tls_port"])
    ctx.home = os.environ["HOME"]


def tf_models(ctx):
    """two architectures, several weight sets"""
    if TF: return
    import tensorflow as tf
    g = np.random.default_rng(6)
    for L in (3, 4, 180):
        m = tf.keras.Sequential([tf.keras.layers.Input((L, 2)), tf.keras.layers.Flatten(), tf.keras.layers.Dense(1, activation="sigmoid")])
        js = m.to_json().encode(); ws = []
        for k in range(4):
            w = g.normal(0, .8, (L, 2)); b0 = float(g.normal(0, .4)); m.layers[-1].set_weights([w.reshape(-1, 1), np.array([b0])])
            fn = os.path.join(ctx.scratch, "tmp.weights.h5"); m.save_weights(fn); ws.append((open(fn, "rb").read(), w, b0)); os.remove(fn)
        TF[L] = (js, ws)


def count(ctx, name, *what):
    ctx.events += 1; ctx.judged += 1; ctx.funcs[name] += 1
    ctx.nontrivial(name, ctx.case_index, ctx.events, *[str(x) for x in what])


def probe(model, rng):
    x = rng.normal(0, 1, (5, 1, 180)).astype(np.float32)
    with torch.no_grad(): return x, model(torch.tensor(x)).numpy().reshape(-1)


def torch_use(ctx, rng, how, where, force, version, hist):
    """version: number of the model it must be, None if the request must raise"""
    nm = "cnn_wd" if how == "cnn" else "get_model"
    info = dict(history=hist[-8:])
    x = data = None
    if how == "cnn":
        n = int(rng.integers(180, 190))
        data = xr.DataArray(rng.normal(0, 1, (2, n, 1)), dims=("cml_id", "time", "channel_id"), coords=dict(cml_id=["p", "q"], time=gen.times(rng, n).values, channel_id=["c1"]))
    try:
        if how == "cnn": r = tr.cnn_wd(where, data, force_download=force) if force or rng.random() < .5 else tr.cnn_wd(model_path_or_url=where, data=data)
        else: r = tu.get_model(where, force) if force or rng.random() < .5 else tu.get_model(where)
    except Exception as e:
        if version is not None: ctx.violation(f"{nm}({where!r}, force_download={force}) raised {type(e).__name__}: {e}", extra=info)
        else: ctx.tag("refused")
        count(ctx, nm, where, force, "raised"); return False
    count(ctx, nm, where, force, version)
    if version is None: ctx.violation(f"{nm}({where!r}, force_download={force}) returned although no such model is available", extra=info); return True
    if how == "cnn":
        e = torch_expected(data.transpose("cml_id", "time", "channel_id"), 180, 60, W[version])
        m = mismatch(r["predictions"].transpose("time", "cml_id").values, e, 1e-4, 1e-3, what="predictions")
        if m: ctx.violation(f"cnn_wd({where!r}, force_download={force}) did not compute with model {version}: {m}", extra=info)
        ctx.tag("cnn_wd")
    else:
        if getattr(r, "training", False): ctx.violation("the model is in training mode", extra=info)
        x, y = probe(r, rng)
        e = (x.astype(float) * W[version]).sum((1, 2))
        m = mismatch(y, e, 1e-4, 1e-3, what="output")
        if m:
            other = [k for k in range(NT) if mismatch(y, (x.astype(float) * W[k]).sum((1, 2)), 1e-4, 1e-3) is None]
            ctx.violation(f"get_model({where!r}, force_download={force}) is model {other or 'unknown'} instead of {version}: {m}", extra=info)
    return True


def torch_case(ctx, rng, i):
    base = Path(ctx.scratch) / f"t{i}"; base.mkdir()
    os.environ["HOME"] = str(base)                          # the default cache is below the home directory
    old = os.getcwd(); os.chdir(base); (base / "sub").mkdir()
    try:
        SRV["paths"] = {}; SRV["log"].clear()
        port = SRV["port"]
        urls = [f"/{i}/a/model.pt", f"/{i}/b/model.pt", f"/{i}/a/model.pt?v=2", f"/{i}/a/MODEL.pt", f"/{i}/a/model", f"/{i}/a/model.pt?v=3&n=x/y", f"/{i}/a/model.pt/"]
        urls = [urls[q] for q in rng.permutation(len(urls))[:int(rng.integers(2, 4))]]
        paths = ["m.pt", str(base / "sub" / "m.pt"), "sub/n.pt", "./k.pt"]
        files, cached, hist = {}, {}, []
        for q in paths[:int(rng.integers(1, 5))]:
            v = int(rng.integers(NT)); Path(q).write_bytes(BODY[v]); files[q] = v
        server = {u: int(rng.integers(NT)) for u in urls}; secure = {u: rng.random() < .2 for u in urls}
        for step in range(int(rng.integers(5, 11))):
            if ctx.n_violations: break
            how = "cnn" if rng.random() < .15 else "get"
            k = rng.random()
            if k < .2:
                q = gen.pick(rng, sorted(files))
                if rng.random() < .5: v = int(rng.integers(NT)); Path(q).write_bytes(BODY[v]); files[q] = v; hist.append(f"file {q} := {v}"); ctx.tag("file_replaced")
                hist.append(f"{how} {q}"); torch_use(ctx, rng, how, q, bool(rng.random() < .3), files[q], hist); ctx.tag("path")
                continue
            if k < .28:
                q = gen.pick(rng, ["model.pth", "model.pt2", "nonsense", "missing.pt", "sub/missing.pt", str(base / "sub")])
                if q in ("model.pth", "model.pt2"): Path(q).write_bytes(BODY[0])
                hist.append(f"{how} {q}"); torch_use(ctx, rng, how, q, False, None, hist); ctx.tag("not_a_model"); continue
            if k < .34:
                q = "cut.pt"; Path(q).write_bytes(BODY[1][:int(rng.integers(0, len(BODY[1]) - 200))])
                hist.append(f"{how} {q}"); torch_use(ctx, rng, how, q, False, None, hist); ctx.tag("damaged_file"); continue
            u = gen.pick(rng, urls); full = f"https://127.0.0.1:{SRV['tls_port']}{u}" if secure[u] else f"http://127.0.0.1:{port}{u}"; force = bool(rng.random() < .4)
            if rng.random() < .5: server[u] = int(rng.integers(NT)); hist.append(f"server {u} := {server[u]}")
            r = rng.random(); ok = r < .7
            SRV["paths"][u] = BODY[server[u]] if ok else ("broken" if r < .85 else (BODY[server[u]], int(rng.integers(0, 2000))))
            n0 = len(SRV["log"]); need = force or u not in cached
            want = (server[u] if ok else None) if need else cached[u]
            hist.append(f"{how} {u} force={force} server_ok={ok} cached={cached.get(u)}")
            torch_use(ctx, rng, how, full, force, want, hist)
            n = len(SRV["log"]) - n0
            if need and n == 0: ctx.violation("no request was sent for a model that had to be downloaded", extra=hist[-8:])
            if not need and n: ctx.violation("a cached model was requested again", extra=hist[-8:])
            if need and want is not None: cached[u] = want
            if secure[u]: ctx.tag("https")
            ctx.tag("url_forced" if force else ("url_new" if need else "url_cached"))
            if need and not ok: ctx.tag("url_failed" + ("_with_old" if u in cached else ""))
            if not need and not ok: ctx.tag("cached_with_broken_server")
            if u in cached and cached[u] != server[u] and not need: ctx.tag("server_has_newer")
        if rng.random() < .3 and len(urls) > 1 and not ctx.n_violations:
            # at the same time: every thread gets its own model
            res = {}; us = [(u, f"https://127.0.0.1:{SRV['tls_port']}{u}" if secure[u] else f"http://127.0.0.1:{port}{u}") for u in urls] * 2
            for u in urls: SRV["paths"][u] = BODY[server[u]]
            want = {u: cached.get(u, server[u]) for u in urls}
            def work(q, u, f):
                try: res[q] = (u, tu.get_model(f))
                except Exception as e: res[q] = (u, e)
            th = [threading.Thread(target=work, args=(q, u, f)) for q, (u, f) in enumerate(us)]
            [t.start() for t in th]; [t.join() for t in th]
            for u, m in res.values():
                count(ctx, "get_model", u, "thread")
                if isinstance(m, Exception): ctx.violation(f"get_model in a thread raised {m!r}", extra=hist[-8:]); continue
                x, y = probe(m, rng)
                if mismatch(y, (x.astype(float) * W[want[u]]).sum((1, 2)), 1e-4, 1e-3): ctx.violation(f"get_model({u}) in one of several threads is another model", extra=hist[-8:])
            ctx.tag("threads")
        ctx.sample(dict(history=hist[:12], requests=SRV["log"][:8]))
    finally:
        os.chdir(old); os.environ["HOME"] = ctx.home; shutil.rmtree(base, ignore_errors=True)


def tf_case(ctx, rng, i):
    import pycomlink.processing.tensorflow_utils.run_inference as fr
    import pycomlink.processing.tensorflow_utils.inference_utils as fu
    from checks.c20 import samples, scaled
    tf_models(ctx)
    base = Path(ctx.scratch) / f"f{i}"; base.mkdir(); old = os.getcwd(); os.chdir(base)
    try:
        SRV["paths"] = {}; SRV["log"].clear(); port = SRV["port"]
        L = int(gen.pick(rng, [3, 4])); js, ws = TF[L]
        ju = f"/{i}/m.json"; wu = [f"/{i}/a/m.weights.h5", f"/{i}/b/m.weights.h5"]
        ver = {u: int(rng.integers(len(ws))) for u in wu}; cached, hist = {}, []
        for step in range(int(rng.integers(2, 5))):
            if ctx.n_violations: break
            u = gen.pick(rng, wu); force = bool(rng.random() < .4); cd = gen.pick(rng, [None, "mine", "deep/er/cache"])
            if rng.random() < .6: ver[u] = int(rng.integers(len(ws)))
            down = rng.random() < .2
            SRV["paths"] = {} if down else {ju: js, u: ws[ver[u]][0]}
            local = rng.random() < .2
            if local: Path("w.weights.h5").write_bytes(ws[ver[u]][0]); Path("m.json").write_bytes(js)
            n = int(rng.integers(L, L + 12))
            ds = xr.Dataset({v: (("cml_id", "time"), rng.normal(50, 4, (2, n))) for v in ("tl1", "tl2")}, coords=dict(cml_id=["p", "q"], time=gen.times(rng, n).values))
            if rng.random() < .12:
                # a model that is not there must not be replaced by another one that is
                for d in (".", "near"):
                    os.makedirs(d, exist_ok=True); Path(d, "other.json").write_bytes(js); Path(d, "model.json").write_bytes(js); Path(d, "other.weights.h5").write_bytes(ws[0][0]); Path(d, "o.h5").write_bytes(ws[0][0])
                a, b = gen.pick(rng, [("gone.json", "other.weights.h5"), ("other.json", "gone.weights.h5"), ("near/gone.json", "near/other.weights.h5"), ("near/other.json", "near/gone.weights.h5"), ("gone/other.json", "other.weights.h5"), (str(base / "near" / "gone.json"), "o.h5"), ("other", "other.weights.h5"), ("other.json", "other")])
                try: fr.wet_dry_1d_cnn(ds, seq_len=L, json_url=a, weights_url=b); ctx.violation(f"wet_dry_1d_cnn returned although {a} or {b} does not exist")
                except Exception: pass
                count(ctx, "wet_dry_1d_cnn", a, b); ctx.tag("tf_not_there"); continue
            kw = dict(seq_len=L, json_url="m.json" if local else f"http://127.0.0.1:{port}{ju}", weights_url="w.weights.h5" if local else f"http://127.0.0.1:{port}{u}")
            if cd: kw["cache_dir"] = cd
            if force: kw["force_download"] = True
            key = (cd, u); need = not local and (force or key not in cached or (cd, ju) not in cached)
            want = ver[u] if local else ((None if down else ver[u]) if force or key not in cached else cached[key])
            if not local and (cd, ju) not in cached and down: want = None
            hist.append(f"{u} cache={cd} force={force} down={down} local={local} server={ver[u]} cached={cached.get(key)}")
            n0 = len(SRV["log"])
            if rng.random() < .5:
                try: r = fr.wet_dry_1d_cnn(ds, return_ds=False, **kw); exc = None
                except Exception as e: r, exc = None, e
                nm = "wet_dry_1d_cnn"
                if exc is None and want is not None:
                    s = samples(ds, ["p", "q"], ["tl1", "tl2"], L, "time", "cml_id")
                    X = scaled(np.stack([q[2] for q in s])); w, b0 = ws[want][1:]
                    e = np.full((n, 2), np.nan)
                    for (c, t, _), x in zip(s, X): e[t, "pq".index(c)] = 1 / (1 + np.exp(-((x * w).sum() + b0)))
                    m = mismatch(r.transpose("time", "cml_id").values, e, 1e-4, 1e-4, what="probabilities")
                    if m: ctx.violation(f"wet_dry_1d_cnn did not compute with the requested model: {m}", extra=hist[-8:])
            else:
                nm = "resolve_model_paths"
                a = dict(json_source=kw["json_url"], weights_source=kw["weights_url"], **({"cache_dir": cd} if cd else {}), **({"force_download": True} if force else {}))
                try: r = fu.resolve_model_paths(**a); exc = None
                except Exception as e: r, exc = None, e
                if exc is None and want is not None:
                    if Path(r[0]).read_bytes() != js or Path(r[1]).read_bytes() != ws[want][0]: ctx.violation("resolve_model_paths returned files with other contents than requested", extra=hist[-8:])
            count(ctx, nm, u, force, down, local, want)
            if want is None and exc is None: ctx.violation(f"{nm} returned although the server is down", extra=hist[-8:])
            if want is not None and exc is not None: ctx.violation(f"{nm} raised {type(exc).__name__}: {exc}", extra=hist[-8:])
            if not need and len(SRV["log"]) > n0: ctx.violation("cached or local files were requested again", extra=hist[-8:])
            if force and not local and want is not None and len(SRV["log"]) < n0 + 2: ctx.violation("force_download did not request both files", extra=hist[-8:])
            if not local and want is not None:
                cached[key] = want; cached[(cd, ju)] = True
            ctx.tag("tf_local" if local else ("tf_forced" if force else ("tf_new" if need else "tf_cached")), "tf_down" if down and not local else "tf_up", nm)
    finally:
        os.chdir(old); shutil.rmtree(base, ignore_errors=True)


PUBLISHED = "/toufikshit/pycomlink/releases/download/v1/CNN__model_v0_cz"


def published_case(ctx, rng, i):
    """no location given: the published model, from https://github.com (which leads to the loopback server here)"""
    import pycomlink.processing.tensorflow_utils.run_inference as fr
    from checks.c20 import samples, scaled
    tf_models(ctx); js, ws = TF[180]
    base = Path(ctx.scratch) / f"g{i}"; base.mkdir(); old = os.getcwd(); os.chdir(base)
    try:
        have = None
        for step in range(3):
            v = int(rng.integers(len(ws))); down = rng.random() < .25; force = rng.random() < .3
            SRV["paths"] = {} if down else {PUBLISHED + ".json": js, PUBLISHED + ".weights.h5": ws[v][0]}
            SRV["log"].clear(); SRV["asked"].clear()
            n = int(rng.integers(178, 200))
            ds = xr.Dataset({q: (("cml_id", "time"), rng.normal(50, 4, (2, n))) for q in ("tl1", "tl2")}, coords=dict(cml_id=["p", "q"], time=gen.times(rng, n).values))
            need = force or have is None; want = (None if down else v) if need else have
            try: r = fr.wet_dry_1d_cnn(ds, force_download=True) if force else fr.wet_dry_1d_cnn(ds); exc = None
            except Exception as e: r, exc = None, e
            count(ctx, "wet_dry_1d_cnn", "published", step, force, down)
            info = dict(step=step, force=force, down=down, hosts=SRV["asked"][:4], requests=SRV["log"][:4])
            if any(h != "github.com" for h, _ in SRV["asked"]): ctx.violation("another host than that of the published model was asked", extra=info)
            if not need and (SRV["log"] or SRV["asked"]): ctx.violation("the cached published model was requested again", extra=info)
            if need and not down and sorted(SRV["log"]) != sorted([PUBLISHED + ".json", PUBLISHED + ".weights.h5"]): ctx.violation("the published model was not requested", extra=info)
            if want is None:
                if exc is None: ctx.violation("returned although the published model cannot be reached", extra=info)
                ctx.tag("published_down"); break                 # which of the two files is cached now is open
            if exc is not None: ctx.violation(f"wet_dry_1d_cnn with the published model raised {type(exc).__name__}: {exc}", extra=info); break
            have = want; e = np.full((n, 2), np.nan); s = samples(ds, ["p", "q"], ["tl1", "tl2"], 180, "time", "cml_id")
            if s:
                X = scaled(np.stack([q[2] for q in s])); w, b0 = ws[want][1:]
                for (c, t, _), x in zip(s, X): e[t, "pq".index(c)] = 1 / (1 + np.exp(-((x * w).sum() + b0)))
            m = mismatch(r["CNN"].transpose("time", "cml_id").values, e, 2e-3, 2e-3, what="probabilities")
            if m: ctx.violation(f"wet_dry_1d_cnn did not compute with the published model: {m}", extra=info)
            ctx.tag("published" if need else "published_cached")
    finally:
        os.chdir(old); shutil.rmtree(base, ignore_errors=True)


def case(ctx, rng, i):
    if i % 24 == 11: published_case(ctx, rng, i); return
    if i % 8 == 3 or i % 8 == 6: tf_case(ctx, rng, i)
    else: torch_case(ctx, rng, i)
