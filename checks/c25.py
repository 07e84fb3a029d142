"""C25 temporal aggregation: exactly-once assignment of samples to target stamps."""
import numpy as np
import pandas as pd
from vlib import gen
from vlib.core import mismatch, must_return
import pycomlink.util.temporal as tp


try:
    import pytz
    pytz_errors = (pytz.NonExistentTimeError, pytz.AmbiguousTimeError)
except ImportError:
    pytz_errors = ()


def ns(ix):
    ix = pd.DatetimeIndex(ix)
    return (ix.tz_convert("UTC") if ix.tz is not None else ix).as_unit("ns").asi8.astype("int64")


def oracle(ctx, ev):
    b = ev.bound(); df, new, label = b["df"], b["new_index"], b["label"]
    if label not in ("right", "left"):
        ctx.check(None if ev.exc is not None else f"label {label!r} accepted", ev); ctx.tag("bad_label"); return
    df = pd.DataFrame(df)
    if df.index.tz is None or len(df) == 0 or len(new) == 0: return "skip"
    if new.tz is None:
        try: new = new.tz_localize(b["new_index_tz"])
        except (ValueError, *pytz_errors) as e:      # local times that occur never or twice there
            ctx.tag("no_such_time")
            if ev.exc is None: ctx.violation(f"a target time that is not a time of {b['new_index_tz']} ({e}) was accepted", ev)
            return
        ctx.tag("naive_target")
    t, g = ns(df.index), ns(new)
    lo, hi = max(t.min(), g.min()), min(t.max(), g.max())
    gin = np.sort(g[(g >= lo) & (g <= hi)])
    groups = {}
    for k, v in enumerate(t):
        if not (lo <= v <= hi): ctx.tag("outside"); continue
        if label == "right":
            j = np.searchsorted(gin, v, "left")
            if j == len(gin): ctx.tag("no_stamp"); continue
        else:
            j = np.searchsorted(gin, v, "right") - 1
            if j < 0: ctx.tag("no_stamp"); continue
        if gin[j] == v: ctx.tag("exactly_at_stamp")
        groups.setdefault(int(gin[j]), []).append(k)
    if not must_return(ctx, ev): return
    r = ev.value
    if list(r.columns) != list(df.columns): ctx.violation(f"columns {list(r.columns)}, expected {list(df.columns)}", ev); return
    got = ns(r.index) if len(r) else np.zeros(0, "int64")
    want = np.array(sorted(groups), dtype="int64")
    if not np.array_equal(got, want):
        ctx.violation(f"aggregated onto {len(got)} time stamps {list(map(str, r.index[:4]))}, expected {len(want)}: {list(map(str, pd.to_datetime(want[:4], utc=True)))}", ev); return
    for c in df.columns:
        e = np.array([pd.Series(df[c].to_numpy()[groups[k]]).agg(b["method"]) for k in want.tolist()], dtype=float)
        m = mismatch(r[c].to_numpy(dtype=float), e, 1e-9, 1e-12, what=f"column {c!r}")
        if m: ctx.violation(m, ev); return
    ctx.tag("label:" + label)
    if len(want): ctx.tag("aggregated")
    if any(len(v) > 1 for v in groups.values()): ctx.tag("several_samples")
    if str(df.index.tz) != str(new.tz): ctx.tag("different_zones")
    if len(df.columns) > 1: ctx.tag("several_columns")
    if r.index.name != df.index.name: ctx.violation(f"index name {r.index.name!r}, expected {df.index.name!r}", ev)


def install(ctx):
    ctx.watch("pycomlink.util.temporal", "aggregate_df_onto_DatetimeIndex", oracle, pure=True)


ZONES = ["UTC", "Europe/Berlin", "America/New_York", "Asia/Kolkata", "Etc/GMT-3", "Australia/Lord_Howe"]


def index(rng, n, base):
    k = rng.random(); step = float(gen.pick(rng, [1, 5, 15, 60]))
    if k < .5: o = np.arange(n) * step
    elif k < .8: o = np.cumsum(rng.integers(1, 40, n)).astype(float)
    else: o = np.sort(rng.choice(max(2000, 3 * n), n, replace=False)).astype(float)
    return base + pd.to_timedelta((o + float(rng.integers(-300, 300))) * 60, unit="s")


def case(ctx, rng, i):
    base = pd.Timestamp(gen.pick(rng, ["2019-06-01 10:00", "2019-03-30 22:00", "2019-10-26 21:00", "2020-12-31 18:00"]), tz="UTC")
    n, m = int(rng.integers(1, 120)), int(rng.integers(1, 40))
    if gen.big(i): n, m = gen.big_n(rng, 20000), int(rng.integers(20, 900)); ctx.tag("large")
    t = pd.DatetimeIndex(index(rng, n, base)).tz_convert(gen.pick(rng, ZONES))
    g = pd.DatetimeIndex(index(rng, m, base))
    if rng.random() < .3: g = pd.DatetimeIndex(t[np.sort(rng.permutation(n)[:max(1, n // 3)])]).tz_convert("UTC")
    kw = {}
    if rng.random() < .5: g = g.tz_convert(gen.pick(rng, ZONES))
    else:
        z = gen.pick(rng, ["UTC", "UTC", "utc", "Europe/Berlin", "Asia/Kolkata"])
        g = pd.DatetimeIndex(g.tz_convert(z).tz_localize(None))
        if z == "Europe/Berlin" and rng.random() < .3:       # a local time that does not exist, or exists twice
            g = g.append(pd.DatetimeIndex([gen.pick(rng, ["2019-03-31 02:10", "2019-03-31 02:59:59", "2019-10-27 02:30", "2019-10-27 02:00"])]))
        if g.has_duplicates or not g.is_monotonic_increasing: g = pd.DatetimeIndex(g.unique().sort_values())
        if z.lower() != "utc" or rng.random() < .5: kw["new_index_tz"] = z
    if rng.random() < .5: kw["label"] = gen.pick(rng, ["left", "right"])
    if rng.random() < .03: kw["label"] = gen.pick(rng, ["center", "Right", "", None])
    d = {"a": rng.normal(size=n)}
    if rng.random() < .5: d["b"] = rng.integers(0, 9, n)
    if rng.random() < .3: d["time"] = rng.normal(size=n)
    for c in ("a",):
        if rng.random() < .3: d[c][rng.random(n) < .3] = np.nan
    df = pd.DataFrame(d, index=t)
    if rng.random() < .4: df.index.name = gen.pick(rng, ["time", "t"])
    if df.index.name == "time" and "time" in df: df = df.drop(columns="time")
    if rng.random() < .3: df = df["a"]
    meth = gen.pick(rng, [np.mean, np.sum, np.max, np.min, "mean", "sum", "median", "count", np.median, "std"])
    if meth == "std": kw.setdefault("label", "right")
    fn = tp.aggregate_df_onto_DatetimeIndex
    ctx.quiet(fn, df, g, meth, **kw) if rng.random() < .6 else ctx.quiet(fn, df=df, new_index=g, method=meth, **kw)
