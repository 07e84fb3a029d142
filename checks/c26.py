"""C26 grid validation against exact clipping of the path by every pixel."""
import collections
import numpy as np
import pandas as pd
import xarray as xr
from vlib import gen
from vlib.core import mismatch, must_return
import pycomlink.validation.validator as va

C = collections.namedtuple("C", "lon_a lat_a lon_b lat_b")


class Ch:
    def __init__(self, df): self.data = df


class Cml:
    def __init__(self, a, b, df1, df2): self._c = C(a[0], a[1], b[0], b[1]); self.channel_1, self.channel_2 = Ch(df1), Ch(df2)
    def get_coordinates(self): return self._c


def clip(a, b, x0, x1, y0, y1):
    """length share of the segment inside the rectangle (Liang-Barsky)"""
    lo, hi = 0.0, 1.0
    for p, q0, q1 in ((b[0] - a[0], x0 - a[0], x1 - a[0]), (b[1] - a[1], y0 - a[1], y1 - a[1])):
        if p == 0:
            if q0 > 0 or q1 < 0: return 0.0
        else:
            u, v = sorted((q0 / p, q1 / p)); lo, hi = max(lo, u), min(hi, v)
    return max(0.0, hi - lo)


def weights(lon, lat, c):
    """pixels are the rectangles around the centres of a regular grid"""
    dx, dy = abs(lon[0, 1] - lon[0, 0]) / 2, abs(lat[1, 0] - lat[0, 0]) / 2
    return np.array([[clip((c.lon_a, c.lat_a), (c.lon_b, c.lat_b), x - dx, x + dx, y - dy, y + dy) for x, y in zip(r, q)] for r, q in zip(lon, lat)])


def o_ts(ctx, ev):
    self = ev.raw_args[0]; b = ev.bound(); cml, val = ev.raw_kwargs.get("cml", ev.raw_args[1] if len(ev.raw_args) > 1 else None), b["values"]
    if not must_return(ctx, ev): return
    ds = self.xr_ds; c = cml.get_coordinates()
    W = weights(ds.longitudes.values, ds.latitudes.values, c)
    t = ds.time.values; t0, t1 = cml.channel_1.data.index.values[0], cml.channel_2.data.index.values[-1]
    m = (t > t0) & (t < t1)
    e = (ds[val].transpose("time", "y", "x").values.astype(float) * W).sum((1, 2))[m]
    r = ev.value
    if mismatch(np.asarray(r.index.values, "datetime64[ns]").astype("int64"), t[m].astype("datetime64[ns]").astype("int64"), 0, 0): ctx.violation(f"series has {len(r)} steps, expected the {int(m.sum())} grid times strictly between {t0} and {t1}", ev); return
    ctx.check(mismatch(r[val].to_numpy(float), e, 1e-6, 1e-9 * max(1, float(np.abs(ds[val].values).max())), what="path average"), ev)
    w = np.asarray(self.intersect_weights, float)
    ctx.check(mismatch(w, W, 1e-6, 1e-9, what="weights"), ev)
    if (w < 0).any() or abs(w.sum() - 1) > 1e-6: ctx.violation(f"weights sum to {w.sum()!r}", ev)
    k = int((W > 0).sum()); ctx.tag("one_pixel" if k == 1 else "several_pixels")
    if ((t == t0) | (t == t1)).any(): ctx.tag("grid_time_at_end_of_link_data")
    if m.any() and not m.all(): ctx.tag("part_of_period")
    if ds.latitudes.values[0, 0] > ds.latitudes.values[-1, 0]: ctx.tag("descending_latitude")


def o_rs(ctx, ev):
    self = ev.raw_args[0]; b = ev.bound(); df, lab, tz = b["df"], b["grid_time_index_label"], b["grid_time_zone"]
    if lab not in ("right", "left"):
        ctx.check(None if ev.exc is not None else f"label {lab!r} accepted", ev); ctx.tag("bad_label"); return
    g = pd.DatetimeIndex(self.weighted_grid_sum.index)
    if not must_return(ctx, ev): return
    gz = g.tz_localize(tz) if tz is not None else g
    gi = np.asarray(gz.as_unit("ns").asi8); ti = np.asarray(pd.DatetimeIndex(df.index).as_unit("ns").asi8)
    groups = {}
    for k, v in enumerate(ti):
        j = np.searchsorted(gi, v, "left") if lab == "right" else np.searchsorted(gi, v, "right") - 1
        if 0 <= j < len(gi): groups.setdefault(j, []).append(k)
        else: ctx.tag("sample_outside")
        if 0 <= j < len(gi) and gi[j] == v: ctx.tag("sample_at_stamp")
    r = ev.value; want = sorted(groups)
    got = pd.DatetimeIndex(r.index)
    if got.tz is not None: got = got.tz_convert(tz).tz_localize(None)
    if not np.array_equal(np.asarray(got.as_unit("ns").asi8), np.asarray(g.as_unit("ns").asi8)[want]): ctx.violation(f"resampled onto {len(got)} time stamps, expected {len(want)}", ev); return
    for col in df.columns:
        e = [np.nanmean(x) if not np.isnan(x).all() else np.nan for x in (df[col].to_numpy(float)[groups[k]] for k in want)]
        m = mismatch(r[col].to_numpy(float), np.array(e, float), 1e-9, 1e-12, what=f"column {col!r}")
        if m: ctx.violation(m, ev); return
    ctx.tag("resample:" + lab, "zone" if tz else "no_zone")
    if len(want): ctx.tag("resampled")


def install(ctx):
    ctx.watch("pycomlink.validation.validator", "GridValidator.get_time_series", o_ts, name="get_time_series")
    ctx.watch("pycomlink.validation.validator", "GridValidator.resample_to_grid_time_series", o_rs, name="resample_to_grid_time_series")


def frame(rng, t0, n, tz=None):
    k = rng.random()
    o = np.arange(n) * gen.pick(rng, [1, 5, 10]) if k < .6 else np.cumsum(rng.integers(1, 9, n))
    ix = pd.DatetimeIndex(pd.Timestamp(t0) + pd.to_timedelta(o, unit="min"))
    d = {"txrx": rng.normal(size=n), "R": rng.gamma(1, 1, n)}
    if rng.random() < .4: d["R"][rng.random(n) < .3] = np.nan
    if rng.random() < .3: d["k"] = rng.integers(0, 5, n)
    return pd.DataFrame(d, index=ix.tz_localize(tz) if tz else ix)


def case(ctx, rng, i):
    ny, nx = int(rng.integers(3, 9)), int(rng.integers(3, 9)); dx = rng.uniform(.01, .1); dy = dx * rng.uniform(.3, 1.8)   # poligrain: at least 3 x 3 pixels, no higher than twice their width
    x0, y0 = rng.uniform(-10, 20), rng.uniform(40, 60)
    lon, lat = np.meshgrid(x0 + np.arange(nx) * dx, y0 + np.arange(ny) * dy)
    if rng.random() < .25: lat = lat[::-1]
    if gen.big(i, 70, 150): ny, nx = int(rng.integers(20, 40)), int(rng.integers(20, 40)); ctx.tag("large_grid"); lon, lat = np.meshgrid(x0 + np.arange(nx) * dx, y0 + np.arange(ny) * dy)
    nt = int(rng.integers(1, 30))
    if gen.big(i, 71, 150): nt = gen.big_n(rng, 4000, 300); ctx.tag("long")
    t0 = pd.Timestamp("2019-07-01 12:00"); t = pd.date_range(t0, periods=nt, freq=gen.pick(rng, ["5min", "15min", "1min"]))
    vals = rng.gamma(.5, 5, (nt, ny, nx))
    k = rng.random()
    if k < .2: vals = np.round(vals).astype(np.float32)
    ds = xr.Dataset({"rain": (("time", "y", "x"), vals), "other": (("time", "y", "x"), vals[:, ::-1])}, coords={"time": t, "longitudes": (("y", "x"), lon), "latitudes": (("y", "x"), lat)})
    if rng.random() < .3: ds = ds.assign_coords(x=np.arange(nx) * 1., y=np.arange(ny) * 1.)
    v = va.GridValidator(xr_ds=ds)
    old = []
    before = ds.copy(deep=True)
    for q in range(int(rng.integers(1, 4))):
        lo = np.array([x0 - dx / 2, y0 - dy / 2]); hi = np.array([x0 + (nx - .5) * dx, y0 + (ny - .5) * dy])
        a, b = lo + (hi - lo) * rng.uniform(.01, .99, 2), lo + (hi - lo) * rng.uniform(.01, .99, 2)
        if rng.random() < .3: b = np.clip(a + rng.normal(0, .2, 2) * [dx, dy], lo + 1e-6, hi - 1e-6)
        if rng.random() < .15: b[0] = a[0]
        elif rng.random() < .15: b[1] = a[1]
        if np.allclose(a, b): continue
        n = int(rng.integers(2, 80)); df = frame(rng, t0 + pd.Timedelta(minutes=int(rng.integers(-30, 60))), n)
        df2 = df.copy() if rng.random() < .5 else df * 2
        if rng.random() < .3: df2 = frame(rng, t0 + pd.Timedelta(minutes=int(rng.integers(-30, 60))), int(rng.integers(2, 80))); ctx.tag("channels_with_other_period")
        cml = Cml(a, b, df, df2); name = gen.pick(rng, ["rain", "rain", "other"])
        r = ctx.quiet(v.get_time_series, cml, name) if rng.random() < .5 else ctx.quiet(v.get_time_series, cml=cml, values=name)
        if r is None: return
        old.append((r, r.copy(deep=True)))
        if len(r):
            tz = gen.pick(rng, [None, None, "UTC", "Europe/Berlin"])
            d = frame(rng, t0 + pd.Timedelta(minutes=int(rng.integers(-30, 60))), int(rng.integers(1, 80)), None if tz is None else gen.pick(rng, [tz, "UTC"]))
            lab = gen.pick(rng, ["right", "left"]) if rng.random() < .96 else "center"
            ctx.quiet(v.resample_to_grid_time_series, d, lab, tz) if tz else ctx.quiet(v.resample_to_grid_time_series, df=d, grid_time_index_label=lab)
    for r, c in old:
        if not r.equals(c): ctx.violation("a series returned earlier was changed by a later call")
    if len(old) > 1: ctx.tag("reused_validator")
    if not ds.identical(before): ctx.violation("the gridded data set was changed")
