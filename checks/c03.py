"""C03 k-R coefficients."""
import numpy as np
import xarray as xr
from vlib import gen, ref, itu
from vlib.core import mismatch, must_return
import pycomlink.processing.k_R_relation as kR

SPELL = set(gen.POL_V + gen.POL_H)


def oracle(ctx, ev):
    b = ev.bound()
    if b is None:
        return "skip"
    f, pol, tab = b["f_GHz"], b["pol"], b["approx_type"]
    fa = np.asarray(f.values if isinstance(f, xr.DataArray) else f, float)
    if np.isnan(fa).any() or fa.size == 0:
        return "skip"
    pa = np.full(fa.shape, pol, dtype=object) if isinstance(pol, str) else np.asarray(pol.values if isinstance(pol, xr.DataArray) else pol, dtype=object)
    bad = (fa.shape != pa.shape or (fa < 1).any() or (fa > 100).any()
           or any(not isinstance(p, str) or p not in SPELL for p in pa.ravel()) or tab not in ("ITU_2003", "ITU_2005"))
    if bad:
        ctx.tag("bad_input")
        if ev.exc is None:
            ctx.violation("numbers returned instead of ValueError", ev)
        elif not isinstance(ev.exc, ValueError):
            ctx.violation(f"raised {type(ev.exc).__name__} instead of ValueError", ev)
        return
    if not must_return(ctx, ev):
        return
    if not (isinstance(ev.value, (tuple, list)) and len(ev.value) == 2):
        ctx.violation("result is not the pair (a, b)", ev)
        return
    exp = np.array([ref.itu_ab(x, p, tab) for x, p in zip(fa.ravel(), pa.ravel())], float)
    shape = fa.shape if fa.ndim or isinstance(f, xr.DataArray) else (1,)
    for k, (nm, v) in enumerate(zip("ab", ev.value)):
        va = np.asarray(v)
        if va.size == fa.size and fa.ndim == 0:
            va = va.reshape(shape)
        ctx.check(mismatch(va, exp[:, k].reshape(shape), rtol=1e-8, atol=0, what=nm), ev)
        if va.dtype.kind == "f" and not (va > 0).all():
            ctx.violation(f"{nm} is not positive", ev)
        if isinstance(f, xr.DataArray):
            if not isinstance(v, xr.DataArray):
                ctx.violation(f"{nm} is no DataArray for DataArray input", ev)
            else:
                if v.dims != f.dims:
                    ctx.violation(f"{nm} has dims {v.dims}, expected {f.dims}", ev)
                for c in f.coords:
                    if c not in v.coords or not np.array_equal(v.coords[c].values, f.coords[c].values):
                        ctx.violation(f"{nm} lost or changed coordinate {c}", ev)
    ctx.tag(f"ndim{fa.ndim}", "tab:" + tab, "f:" + type(f).__name__, "pol:" + type(pol).__name__)
    if len({str(p)[0].lower() for p in pa.ravel()}) > 1: ctx.tag("mixed_pol")
    node = np.isin(fa, (itu.T2005 if tab == "ITU_2005" else itu.T2003)[0])
    if node.any(): ctx.tag("table_node")
    if (fa == 1).any(): ctx.tag("f=1")
    if (fa == 100).any(): ctx.tag("f=100")


def install(ctx):
    ctx.watch("pycomlink.processing.k_R_relation", "a_b", oracle, pure=True)


def freqs(rng, size):
    r = rng.random()
    if r < 0.2:
        return rng.integers(1, 101, size)
    if r < 0.4:
        return rng.choice(itu.T2005[0] if rng.random() < .5 else itu.T2003[0], size)
    f = rng.uniform(1, 100, size)
    if r < 0.6:
        f = np.exp(rng.uniform(0, np.log(100), size))
    f = np.clip(f, 1, 100)
    if size and r < 0.7:
        f.flat[int(rng.integers(f.size))] = gen.pick(rng, [1.0, 100.0])
    return f


def case(ctx, rng, i):
    nd = int(gen.pick(rng, [0, 1, 1, 1, 2, 2, 3]))
    shape = tuple(int(rng.integers(1, 6)) for _ in range(nd))
    if gen.big(i): shape = gen.pick(rng, [(gen.big_n(rng, 12000, 300),), (int(rng.integers(20, 60)), int(rng.integers(20, 60)))]); nd = len(shape); ctx.tag("large")
    f = freqs(rng, shape if nd else (1,))
    if rng.random() < 0.15: f = np.asarray(f).astype(np.float32)
    if rng.random() < 0.15: f = np.asfortranarray(f)
    names = gen.POL_V + gen.POL_H
    pol = np.array([gen.pick(rng, names) for _ in range(int(np.prod(shape, dtype=int)) if nd else 1)], dtype=object).reshape(f.shape)
    if rng.random() < 0.5: pol = pol.astype(str)
    tab = gen.pick(rng, ["ITU_2005", "ITU_2003", None])
    kw = {} if tab is None else dict(approx_type=tab)
    if nd == 0:
        fo = gen.pick(rng, [float(f[0]), f[0], np.array(f[0])])
        if float(fo) == int(float(fo)) and rng.random() < .3: fo = int(fo)
        po = str(pol[0])
        if rng.random() < 0.25:
            fo = xr.DataArray(float(f[0]), coords={"cml_id": "x7"})
        ctx.quiet(kR.a_b, fo, po, **kw)
    else:
        form = gen.pick(rng, ["np", "np", "list", "da", "da", "da_pol_np", "strpol", "da_strpol"])
        fo, po = f, pol
        if form == "list": fo, po = f.tolist(), pol.tolist()
        if "da" in form:
            dims = list(rng.permutation(["cml_id", "channel_id", "time", "sub"])[:nd])
            coords = {d: gen.ids(rng, s) for d, s in zip(dims, shape)}
            coords["length"] = (dims[0], rng.uniform(1, 20, shape[0]))
            fo = xr.DataArray(f, coords=coords, dims=dims)
            po = pol if form == "da_pol_np" else xr.DataArray(pol, coords=coords, dims=dims)
        if "strpol" in form: po = str(pol.ravel()[0])
        ctx.quiet(kR.a_b, fo, po, **kw)
        if i % 3 == 0:       # a link's coefficients do not depend on the company it is in
            j = tuple(int(rng.integers(s)) for s in shape)
            r = ctx.quiet(kR.a_b, f, pol, **kw); s = ctx.quiet(kR.a_b, float(f[j]), str(pol[j]), **kw)
            if r is not None and s is not None:
                ctx.check(mismatch([np.asarray(r[0])[j], np.asarray(r[1])[j]], [float(np.squeeze(s[0])), float(np.squeeze(s[1]))], rtol=1e-8, what="one link alone"))
                ctx.tag("alone_vs_together")
    # invalid input
    bad = i % 6
    f2, p2 = np.array(f, float), np.array(pol, dtype=object)
    if bad == 0:
        f2.flat[int(rng.integers(f2.size))] = gen.pick(rng, [0.0, -5.0, 0.999999, np.nextafter(1., 0)])
        ctx.quiet(kR.a_b, f2, p2, **kw); ctx.tag("bad:low")
    elif bad == 1:
        f2.flat[int(rng.integers(f2.size))] = gen.pick(rng, [100.0001, np.nextafter(100., 200), 1e4, 22e9, np.inf])
        ctx.quiet(kR.a_b, f2, p2, **kw); ctx.tag("bad:high")
    elif bad == 2:
        p2.flat[int(rng.integers(p2.size))] = gen.pick(rng, ["x", "", "vh", "VERTICAL", "hor", "circular"])
        ctx.quiet(kR.a_b, f2, p2, **kw); ctx.tag("bad:pol")
    elif bad == 3:
        ctx.quiet(kR.a_b, f2, p2, approx_type=gen.pick(rng, ["ITU", "ITU_2001", "itu_2005", ""])); ctx.tag("bad:table")
    elif bad == 4:
        q = rng.random()
        if q < .5: ctx.quiet(kR.a_b, f2, np.concatenate([p2.ravel(), p2.ravel()]), **kw)
        elif q < .7: ctx.quiet(kR.a_b, f2, p2[..., None] if rng.random() < .5 else p2[None], **kw); ctx.tag("bad:same_size")
        elif q < .85: ctx.quiet(kR.a_b, f2.ravel()[:1], np.array(str(p2.flat[0])), **kw); ctx.tag("bad:same_size")
        else: ctx.quiet(kR.a_b, np.repeat(f2.ravel()[:1], 6).reshape(2, 3), np.repeat(p2.ravel()[:1], 6).reshape(gen.pick(rng, [(3, 2), (6,), (1, 6)])), **kw); ctx.tag("bad:same_size")
        ctx.tag("bad:shape")
    else:
        ctx.quiet(kR.a_b, float(f2.flat[0]), gen.pick(rng, ["q", "Vert", "HH"]), **kw)
