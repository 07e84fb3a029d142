"""C30 the whole chain: signal -> wet/dry -> baseline -> attenuation -> wet antenna -> rain rate -> map."""
import numpy as np
import pandas as pd
import xarray as xr
from vlib import gen
from vlib.core import mismatch, short
from checks import c13
import pycomlink.processing.baseline as bl
import pycomlink.processing.k_R_relation as kr
import pycomlink.processing.wet_antenna as wa
import pycomlink.processing.wet_dry.stft as stft
import pycomlink.processing.wet_dry.mlp as mlp
import pycomlink.spatial.interpolator as ip

W = "pycomlink.processing."
FN = [(W + "baseline", "baseline_constant"), (W + "baseline", "baseline_linear"), (W + "k_R_relation", "calc_R_from_A"), (W + "wet_antenna", "waa_schleiss_2013"),
      (W + "wet_antenna", "waa_leijnse_2008_from_A_obs"), (W + "wet_antenna", "waa_pastorek_2021_from_A_obs"), (W + "wet_dry.stft", "stft_classification"), (W + "wet_dry.mlp", "mlp_wet_dry")]


def seen(ctx, ev):
    return None


def install(ctx):
    for m, n in FN: ctx.watch(m, n, seen, pure=True)
    ctx.watch("pycomlink.spatial.interpolator", "PointsToGridInterpolator.__call__", seen, name="Interpolator.__call__")


def data(rng, ctx):
    m = int(gen.pick(rng, [1, 2, 3, 5, 8])); c = int(gen.pick(rng, [1, 2, 2])); T = int(rng.integers(45, 140))
    rain = np.zeros((m, T))
    for k in range(m):
        for _ in range(int(rng.integers(0, 4))):
            s = int(rng.integers(0, T)); d = int(rng.integers(3, 30)); e = min(T, s + d)
            rain[k, s:e] += rng.uniform(2, 30) * np.sin(np.pi * (np.arange(e - s) + .5) / d)
    tsl = np.full((m, c, T), 15.) + rng.integers(-2, 3, (m, c, 1))
    rsl = -45. - rain[:, None, :] * rng.uniform(.9, 1.1, (m, c, 1)) + rng.normal(0, .2, (m, c, T)) + rng.normal(0, 4, (m, c, 1))
    if rng.random() < .5: rsl = np.round(rsl / .3) * .3
    for k in range(m):
        for q in range(c):
            if rng.random() < .4: rsl[k, q, gen.nan_mask(rng, T, .1)] = np.nan
            if rng.random() < .1: tsl[k, q, gen.nan_mask(rng, T, .1)] = np.nan
    if rng.random() < .1: rsl[int(rng.integers(m))] = np.nan
    freq = rng.uniform(7e9, 4e10, (m, c)); pols = [gen.pick(rng, ["V", "H"]) for _ in range(m * c)]
    if rng.random() < .45:  # networks use few frequencies: links of different lengths share one
        freq = rng.choice(rng.uniform(7e9, 4e10, int(gen.pick(rng, [1, 2]))), (m, c))
        if rng.random() < .6: pols = [pols[0]] * (m * c)
        if m > 1: ctx.tag("shared_frequency")
    ds = xr.Dataset(dict(tsl=(("cml_id", "channel_id", "time"), tsl), rsl=(("cml_id", "channel_id", "time"), rsl)),
                    coords=dict(cml_id=gen.ids(rng, m), channel_id=[f"channel_{q + 1}" for q in range(c)], time=pd.date_range("2018-05-10", periods=T, freq="1min"),
                                length=("cml_id", rng.uniform(.5, 25, m)), frequency=(("cml_id", "channel_id"), freq),
                                polarization=(("cml_id", "channel_id"), np.array(pols, dtype=object).reshape(m, c)),
                                site_0_lon=("cml_id", rng.uniform(10, 11, m)), site_0_lat=("cml_id", rng.uniform(48, 49, m)),
                                site_1_lon=("cml_id", rng.uniform(10, 11, m)), site_1_lat=("cml_id", rng.uniform(48, 49, m))))
    ctx.tag(f"channels{c}", "one_link" if m == 1 else "several_links")
    return ds


def classify(ds, cfg):
    tl = ds.trsl
    if cfg["wd"] == "rsd":
        return (tl.rolling(time=cfg["w"], center=True).std() > cfg["thr"]).transpose(*tl.dims)
    out = xr.zeros_like(tl)
    oth = [d for d in tl.dims if d != "time"]
    for k in np.ndindex(*[tl.sizes[d] for d in oth]):
        sel = dict(zip(oth, k)); x = tl.isel(sel).interpolate_na("time", fill_value="extrapolate") if cfg["wd"] == "stft" else tl.isel(sel)
        if cfg["wd"] == "stft":
            v = np.nan_to_num(x.values) if np.isnan(x.values).any() else x.values
            r = stft.stft_classification(v, cfg["w"], cfg["thr"] * 3, 1 / 600, t_dry_start=0, t_dry_stop=20)[0]
            out[sel] = np.asarray(r, float)
        else:
            p = mlp.mlp_wet_dry(x, x, cfg["model"]); p = np.asarray(p)[:, 1]
            out[sel] = np.where(np.isnan(p), np.nan, p > .5)
    return out


def chain(ds, cfg):
    """the documented processing of a data set; returns wet and R"""
    ds = ds.copy(deep=True)
    ds["trsl"] = ds.tsl - ds.rsl
    ds["wet"] = classify(ds, cfg)
    kw = dict(trsl=ds.trsl, wet=ds.wet)
    if cfg["n"] > 1: kw["n_average_last_dry"] = cfg["n"]
    ds["baseline"] = bl.baseline_constant(**kw)
    A = ds.trsl - ds.baseline
    ds["A"] = A.where(~(A < 0), 0)
    if cfg["waa"] == "schleiss":
        ds["waa"] = wa.waa_schleiss_2013(rsl=ds.trsl, baseline=ds.baseline, wet=ds.wet, waa_max=2.2, delta_t=1, tau=15)
    elif cfg["waa"] == "leijnse":
        ds["waa"] = wa.waa_leijnse_2008_from_A_obs(A_obs=ds.A, f_Hz=ds.frequency, pol=ds.polarization, L_km=ds.length)
    elif cfg["waa"] == "pastorek":
        ds["waa"] = wa.waa_pastorek_2021_from_A_obs(A_obs=ds.A, f_Hz=ds.frequency, pol=ds.polarization, L_km=ds.length, A_max=6)
    else:
        ds["waa"] = xr.zeros_like(ds.A)
    Ac = ds.A - ds.waa
    ds["R"] = kr.calc_R_from_A(A=Ac.where(~(Ac < 0), 0), L_km=ds.length, f_GHz=ds.frequency / 1e9, pol=ds.polarization)
    return ds


DIMS = ("cml_id", "channel_id", "time")


def case(ctx, rng, i):
    ds = data(rng, ctx)
    wd = gen.pick(rng, ["rsd", "rsd", "rsd", "stft", "mlp"])
    cfg = dict(wd=wd, w=int(gen.pick(rng, [10, 15, 21, 60] if wd == "rsd" else [16, 30, 31])), thr=float(gen.pick(rng, [.4, .8, 1.5])), n=int(gen.pick(rng, [1, 1, 3, 5])),
               waa=gen.pick(rng, ["schleiss", "leijnse", "pastorek", "none"]), model=gen.pick(rng, ["rg_online", "rad_online"]))
    cfg["w"] = min(cfg["w"], ds.sizes["time"])
    ctx.tag("wd:" + wd, "waa:" + cfg["waa"])
    d = ds.transpose(*rng.permutation(DIMS)) if rng.random() < .6 else ds
    info = dict(cfg=cfg, sizes=dict(ds.sizes))
    try:
        full = chain(d, cfg)
    except Exception as e:
        import traceback
        ctx.violation(f"the chain failed: {type(e).__name__}: {e}", extra=traceback.format_exc()[-1800:]); return
    if set(full.R.dims) != set(DIMS): ctx.violation(f"rain rate has dimensions {full.R.dims}", extra=info); return
    R, tl, wet = (full[v].transpose(*DIMS) for v in ("R", "trsl", "wet"))
    for k in ("cml_id", "channel_id", "time"):
        if not np.array_equal(R[k].values, ds[k].values): ctx.violation(f"coordinate {k} changed", extra=info)
    r, x, w = R.values, tl.values, wet.values.astype(float)
    miss = np.isnan(x)
    with np.errstate(invalid="ignore"):
        if np.isfinite(r[miss]).any(): ctx.violation("finite rain rate where the signal is missing", extra=info)
        if (r < 0).any(): ctx.violation("negative rain rate", extra=info)
        if np.isinf(r).any(): ctx.violation("infinite rain rate", extra=info)
        dry = ~miss & (w == 0)
        if (r[dry] != 0).any(): ctx.violation(f"dry step with rain rate {r[dry][r[dry] != 0][:3]}", extra=info)
    # before any gap of signal or classification everything is defined
    bad = np.cumsum(miss | np.isnan(w), -1) > 0
    if np.isnan(r[~bad]).any(): ctx.violation("no rain rate although nothing was missing up to this step", extra=info)
    if (r > 0).any(): ctx.tag("rain")
    if miss.any(): ctx.tag("missing")
    if dry.any(): ctx.tag("dry")
    if np.isnan(w).any(): ctx.tag("unclassified")
    ctx.judged += 1; ctx.nontrivial(r, w)
    # the same link and channel alone
    for k in range(ds.sizes["cml_id"]):
        q = int(rng.integers(ds.sizes["channel_id"]))
        one = ds.isel(cml_id=[k], channel_id=[q]) if rng.random() < .6 else ds.isel(cml_id=k, channel_id=q)
        if rng.random() < .7:  # a link that differs by nothing that matters: what an earlier call remembered must not decide
            one = one.assign_coords(frequency=one.frequency * (1 + 1e-14 * (k + 5)), length=one.length * (1 + 1e-14 * (k + 5))); ctx.tag("nudged")
        try: o = chain(one, cfg)
        except Exception as e: ctx.violation(f"the chain failed for one link alone: {type(e).__name__}: {e}", extra=info); break
        ctx.check(mismatch(o.R.values.ravel(), r[k, q], rtol=1e-7, atol=1e-9, what=f"rain rate of link {k} channel {q} alone vs within the data set"), extra=info)
        ctx.check(mismatch(o.wet.values.ravel().astype(float), w[k, q], what="wet/dry alone vs within the data set"), extra=info)
        ctx.tag("alone")
        if k >= 2: break
    # order and subset
    m = ds.sizes["cml_id"]
    if m > 1:
        p = rng.permutation(m)[:int(rng.integers(1, m + 1))]
        o = chain(ds.isel(cml_id=p, channel_id=slice(None, None, gen.pick(rng, [1, -1]))).transpose(*rng.permutation(DIMS)), cfg)
        ctx.check(mismatch(o.R.sel(cml_id=ds.cml_id.values[p], channel_id=ds.channel_id.values).transpose(*DIMS).values, r[p], rtol=1e-7, atol=1e-9, what="rain rate after reordering / selecting links"), extra=info)
        ctx.tag("reordered")
    # maps
    lon, lat = (ds.site_0_lon + ds.site_1_lon).values / 2, (ds.site_0_lat + ds.site_1_lat).values / 2
    xg, yg = np.meshgrid(np.linspace(9.9, 11.1, 5), np.linspace(47.9, 49.1, 4))
    kw = dict(nnear=int(gen.pick(rng, [2, 3, 15])), p=gen.pick(rng, [1, 2]), max_distance=gen.pick(rng, [None, .5]))
    it = ip.IdwKdtreeInterpolator(exclude_nan=True, **kw)
    z = R.isel(channel_id=0).transpose("cml_id", "time").values
    pick = sorted(set(int(v) for v in rng.integers(0, z.shape[1], 5)) | {int(np.nanargmax(np.nansum(z, 0)))} | set(np.flatnonzero(np.isnan(z).any(0))[:2].tolist()))
    for t in rng.permutation(pick):
        zz = z[:, t]
        try: g = np.asarray(it(x=lon, y=lat, z=R.isel(channel_id=0, time=int(t)) if rng.random() < .5 else zz, xgrid=xg, ygrid=yg), float)
        except Exception as e: ctx.violation(f"map failed: {type(e).__name__}: {e}", extra=dict(info, z=zz.tolist())); break
        ok = ~np.isnan(zz)
        if g.shape != xg.shape: ctx.violation(f"map has shape {g.shape}"); break
        if not ok.any():
            ctx.tag("map_without_data")
            if not np.isnan(g).all(): ctx.violation("map of a step without any value is not all NaN", extra=info)
            continue
        exp, _, _, skip = c13.brute(np.stack([lon, lat], 1)[ok], zz[ok], np.stack([xg.ravel(), yg.ravel()], 1), kw["nnear"], kw["p"], kw["max_distance"], ctx)
        ctx.check(mismatch(g.ravel(), exp, rtol=1e-7, atol=1e-9, ignore=skip, what=f"map of step {t}"), extra=info)
        ctx.tag("map")
        if not ok.all(): ctx.tag("map_with_missing_link")
