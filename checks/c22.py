"""C22 reading cmlh5 files: conservation of links, channels, samples and attributes."""
import os
import h5py
import numpy as np
import xarray as xr
from vlib import gen, ref
from vlib.core import mismatch, must_return
import pycomlink.io.cmlh5_to_xarray as rd
import pycomlink.io.examples as ex


def text(v):
    v = v.item() if isinstance(v, np.ndarray) and v.ndim == 0 else v
    return v.decode() if isinstance(v, bytes) else str(v)


def raw(fn):
    """the file's content: [(link attributes, {channel: (attributes, time [s], {name: values})})]"""
    out = []
    with h5py.File(fn, "r") as f:
        for g in f:
            ch = {}
            for c in f[g]:
                d = f[g][c]
                ch[c] = (dict(d.attrs), d["time"][:], {k: d[k][:] for k in d if k != "time"})
            out.append((dict(f[g].attrs), ch))
    return out


NAMES = {"tx": "tsl", "rx": "rsl", "tx_min": "tsl_min", "tx_max": "tsl_max", "rx_min": "rsl_min", "rx_max": "rsl_max"}


def judge(ctx, ev, got, want):
    if len(got) != len(want): ctx.violation(f"{len(got)} data sets for {len(want)} links", ev); return
    byid = {}
    for ds in got:
        k = np.unique(np.asarray(ds["cml_id"].values).astype(str))
        if len(k) != 1 or k[0] in byid: ctx.violation(f"link ids {k} missing or repeated", ev); return
        byid[k[0]] = ds
    for at, chans in want:
        cid = text(at["cml_id"])
        if cid not in byid: ctx.violation(f"link {cid!r} missing", ev); return
        ds = byid[cid]
        ids = [text(c) for c in np.atleast_1d(ds["channel_id"].values)]
        if sorted(ids) != sorted(chans): ctx.violation(f"link {cid!r}: channels {ids}, expected {sorted(chans)}", ev); return
        if ds["time"].dtype.kind != "M": ctx.violation(f"link {cid!r}: the times are no time stamps but {ds['time'].dtype}", ev); return
        tt = ds["time"].values.astype("datetime64[ns]").astype("int64")
        if len(np.unique(tt)) != len(tt): ctx.violation(f"link {cid!r}: repeated time stamps", ev); return
        if (np.diff(tt) <= 0).any(): ctx.violation(f"link {cid!r}: time stamps not increasing", ev); return
        used = np.zeros(len(tt), bool)
        for c, (ca, t, vals) in chans.items():
            d = ds.isel(channel_id=ids.index(c)) if "channel_id" in ds.dims else ds
            tn = np.array([round(float(x) * 1e6) * 1000 for x in t], dtype="int64") if len(t) else np.zeros(0, "int64")
            pos = np.clip(np.searchsorted(tt, tn - 2000), 0, max(len(tt) - 1, 0)) if len(tt) else np.zeros(0, int)
            if len(tn) and (len(tt) == 0 or (np.abs(tt[pos] - tn) > 2000).any()): ctx.violation(f"link {cid!r} channel {c!r}: stored time stamp not in the result", ev); return
            used[pos] = True
            for k, v in vals.items():
                if k not in NAMES: continue
                if NAMES[k] not in d: ctx.violation(f"link {cid!r}: variable {NAMES[k]} missing", ev); return
                x = np.asarray(d[NAMES[k]].values, float)
                m = mismatch(x[pos], np.asarray(v, float), 0, 0, what=f"link {cid!r} channel {c!r} {NAMES[k]}")
                if m: ctx.violation(m, ev); return
                rest = np.ones(len(tt), bool); rest[pos] = False
                if not np.isnan(x[rest]).all(): ctx.violation(f"link {cid!r} channel {c!r} {NAMES[k]}: values at times where nothing is stored", ev); return
                if rest.any(): ctx.tag("other_time_axis")
            for name, e in (("frequency", float(ca["frequency"]) / 1e9), ("site_a_latitude", at["site_a_latitude"]), ("site_a_longitude", at["site_a_longitude"]), ("site_b_latitude", at["site_b_latitude"]), ("site_b_longitude", at["site_b_longitude"]),
                            ("length", ref.great_circle(at["site_a_longitude"], at["site_a_latitude"], at["site_b_longitude"], at["site_b_latitude"]))):
                m = mismatch(np.asarray(d[name].values, float), float(e), 1e-9, 1e-7 if name == "length" else 0, what=f"link {cid!r} channel {c!r} {name}")
                if m: ctx.violation(m, ev); return
            p = text(np.asarray(d["polarization"].values).item())
            if p != text(ca["polarization"]): ctx.violation(f"link {cid!r} channel {c!r}: polarization {p!r}, stored {ca['polarization']!r}", ev); return
        if not used.all(): ctx.violation(f"link {cid!r}: {int((~used).sum())} time stamps that no channel has", ev); return
        ctx.tag(f"channels{min(len(chans), 3)}")
    ctx.tag("minmax" if any("tx_min" in v for _, ch in want for _, _, v in ch.values()) else "instantaneous")
    if len(want) > 1: ctx.tag("links>1")
    if any(np.isnan(np.asarray(x, float)).any() for _, ch in want for _, _, v in ch.values() for x in v.values()): ctx.tag("nan")


def oracle(ctx, ev):
    fn = ev.bound()["filename"]
    if not must_return(ctx, ev): return
    judge(ctx, ev, ev.value, raw(fn))


def install(ctx):
    ctx.watch("pycomlink.io.cmlh5_to_xarray", "read_cmlh5_file_to_xarray", oracle)
    ctx.watch("pycomlink.io.examples", "read_cmlh5_file_to_xarray", oracle, optional=True)


def write(rng, fn, large=False):
    m = int(gen.pick(rng, [1, 1, 2, 3, 12] if not large else [1, 2])); minmax = rng.random() < .3
    with h5py.File(fn, "w") as f:
        ids = [f"{k}" for k in rng.choice(500, m, replace=False)]
        for q, cid in enumerate(ids):
            g = f.create_group(gen.pick(rng, ["cml_" + cid, cid, f"g{m - q}"]) if rng.random() < .7 else "z" + cid)
            g.attrs["cml_id"] = cid if rng.random() < .8 else f"name {cid}"
            lat, lon = rng.uniform(-80, 80), rng.uniform(-179, 179)
            g.attrs["site_a_latitude"] = lat; g.attrs["site_a_longitude"] = lon
            g.attrs["site_b_latitude"] = lat + rng.normal(0, .1); g.attrs["site_b_longitude"] = lon + rng.normal(0, .1)
            for a in ("system_manufacturer", "note"):
                if rng.random() < .3: g.attrs[a] = "x"
            nch = int(gen.pick(rng, [1, 2, 2, 3, 11])); n = int(rng.integers(1, 60)) if not large else gen.big_n(rng, 9000); step = gen.pick(rng, [60., 1., 10., 900., .5])
            t0 = float(rng.integers(int(9e8), int(1.6e9)))
            same = rng.random() < .6
            names = [f"channel_{k + 1}" for k in range(nch)]
            if rng.random() < .25: names = gen.pick(rng, [[f"channel_{k + 2}" for k in range(nch)], [f"channel_{3 * k}" for k in range(nch)], [f"channel_{chr(97 + k)}" for k in range(nch)]])
            for k in range(nch):
                c = g.create_group(names[k])
                c.attrs["frequency"] = float(np.round(rng.uniform(5e9, 9e10))) if rng.random() < .8 else int(rng.integers(int(5e9), int(9e10)))
                c.attrs["polarization"] = gen.pick(rng, ["V", "H", "v", "h", "Vertical"])
                nn = n if same else int(rng.integers(1, 60 if not large else 9000))
                t = t0 + np.arange(nn) * step + (0 if same else float(rng.integers(0, 20)) * step)
                if not same and rng.random() < .5: t = t[np.sort(rng.permutation(nn)[:max(1, nn // 2)])]; nn = len(t)
                if np.all(t == np.round(t)) and rng.random() < .3: t = t.astype(np.int64)
                c["time"] = t
                for v in (["tx_min", "tx_max", "rx_min", "rx_max"] if minmax else ["tx", "rx"]):
                    x = (-50 if v[0] == "r" else 15) + np.round(rng.normal(0, 5, nn), 1)
                    if rng.random() < .4: x[rng.random(nn) < .2] = np.nan
                    if not np.isnan(x).any() and rng.random() < .15: x = np.round(x).astype(np.int32)
                    elif rng.random() < .2: x = x.astype(np.float32)
                    kw = dict(chunks=True, compression="gzip") if rng.random() < .2 else {}
                    c.create_dataset(v, data=x, **kw)
                if rng.random() < .3 and not minmax: c["other"] = np.zeros(3)


def case(ctx, rng, i):
    if i < 3:
        fn = [ex.get_one_cml, ex.get_75_cmls, ex.get_75_cmls_min_max][i]
        r = ctx.quiet(fn)
        d = os.path.join(ctx.repo, "pycomlink/io/example_data")
        f = os.path.join(d, ["one_cml.h5", "75_cmls.h5", "75_cmls_min_max.h5"][i])
        if r is None: ctx.violation(f"example {os.path.basename(f)} cannot be read"); return
        want = raw(f)
        class E: name = "example"; args = (); kwargs = {}; exc = None; value = None
        judge(ctx, E, [r] if i == 0 else r, want if i else want[:1]); ctx.tag("example"); return
    fn = os.path.join(ctx.scratch, f"f{i}.h5")
    write(rng, fn, gen.big(i, 60, 160))
    if gen.big(i, 60, 160): ctx.tag("large")
    ctx.quiet(rd.read_cmlh5_file_to_xarray, fn) if rng.random() < .5 else ctx.quiet(rd.read_cmlh5_file_to_xarray, filename=fn)
    os.remove(fn)
