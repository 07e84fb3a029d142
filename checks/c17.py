"""C17 STFT classification against a directly evaluated DFT."""
import math
import numpy as np
import pandas as pd
from vlib import gen
from vlib.core import mismatch, must_return
import pycomlink.processing.wet_dry.stft as stft


def dft_power(x, N, win):
    """|DFT|^2 of every full window, frequencies 0 .. N//2 (columns = windows)."""
    k = np.arange(N // 2 + 1)
    E = np.exp(-2j * np.pi * np.outer(k, np.arange(N)) / N)
    W = np.stack([x[j:j + N] * win for j in range(len(x) - N + 1)], 1)
    bad = np.isnan(W).any(0)
    P = np.abs(E @ np.where(np.isnan(W), 0, W)) ** 2
    P[:, bad] = np.nan
    scale = np.nanmax(np.abs(np.where(np.isnan(W), 0, W)).sum(0)) ** 2
    return P, scale


def dry_candidates(x, L):
    """start indices of the stretches with the smallest standard deviation"""
    v = np.array([np.nan if np.isnan(x[j:j + L]).any() else np.var(x[j:j + L], ddof=1 if L > 1 else 0) for j in range(len(x) - L + 1)])
    if np.isnan(v).all(): return [], v
    tol = 1e-9 * np.nanmax(v) + 1e-13 * np.nanmax(np.abs(x)) ** 2
    return [int(j) for j in np.flatnonzero(v <= np.nanmin(v) + tol)], v


def combine(Pext, f, f_div, a, b):
    with np.errstate(all="ignore"):
        dry = np.nanmean(Pext[:, a:b], axis=1)
        Pn = Pext / dry[:, None]
        d = Pn[f <= f_div].mean(0) - Pn[f > f_div].mean(0)
    return dry, Pn, d


def o_stft(ctx, ev):
    b = ev.bound()
    given = [b["t_dry_start"] is not None, b["t_dry_stop"] is not None, b["dry_length"] is not None]
    if b["Pxx"] is not None and b["f"] is None:
        ctx.check(None if isinstance(ev.exc, ValueError) else f"Pxx without f: expected ValueError, got {ev.exc!r}", ev); ctx.tag("pxx_without_f"); return
    if given not in ([True, True, False], [False, False, True]):
        ctx.check(None if ev.exc is not None else "ambiguous choice of the dry period accepted", ev); ctx.tag("bad_dry_choice"); return
    x = np.asarray(b["rsl"], float); n = len(x); mirror = bool(b["mirror"]); Fs = b["f_sampling"]
    if b["Pxx"] is None:
        N = int(b["window_length"])
        if mirror and N % 2: N += 1
        if n < N: return "skip"
        win = np.hamming(N) if b["window"] is None else np.asarray(b["window"], float)
        P, scale = dft_power(x, N, win)
        fr = np.arange(N // 2 + 1) * Fs / N
        s0 = (N - 1) // 2
    else:
        P = np.asarray(b["Pxx"], float); fr = np.asarray(b["f"], float); scale = 0.0
        N = n - P.shape[1] + 1; s0 = (N - 1) // 2
    if given[2]:
        cand, _ = dry_candidates(x, int(b["dry_length"]))
        if not cand: return "skip"
        periods = [(c, c + int(b["dry_length"])) for c in cand]
    else:
        periods = [(int(b["t_dry_start"]), int(b["t_dry_stop"]))]
    full = slice(s0, s0 + P.shape[1])
    if not must_return(ctx, ev): return
    wet, info = ev.value
    wet = np.asarray(wet)
    if wet.shape != (n,): ctx.violation(f"wet has shape {wet.shape} for a series of length {n}", ev); return
    if not np.isin(wet, [0, 1]).all(): ctx.violation("classification holds other values than wet/dry", ev); return
    wet = wet.astype(bool)
    D = np.asarray(info["P_sum_diff"], float); Pn = np.asarray(info["P_norm"], float); f = np.asarray(info["f"], float)
    if D.shape != (n,) or Pn.shape != (len(fr), n): ctx.violation(f"P_sum_diff/P_norm have shapes {D.shape}/{Pn.shape}, expected {(n,)}/{(len(fr), n)}", ev); return
    if not ctx.check(mismatch(f, fr, 1e-12, 1e-300, what="frequencies"), ev): return
    # exact: the classification thresholds the reported difference
    with np.errstate(invalid="ignore"): e = D > b["threshold"]
    if (wet != e).any():
        k = int(np.flatnonzero(wet != e)[0]); ctx.violation(f"sample {k}: classified {wet[k]}, power difference {D[k]!r}, threshold {b['threshold']!r}", ev); return
    if (D == b["threshold"]).any(): ctx.tag("exactly_at_threshold")
    # samples without a full window
    edge = np.ones(n, bool); edge[full] = False
    if not mirror:
        if wet[edge].any() or not np.isnan(D[edge]).all() or not np.isnan(Pn[:, edge]).all(): ctx.violation("samples without a full window are not dry with NaN power", ev); return
        if edge.any(): ctx.tag("edges")
    Pext = np.full((len(fr), n), np.nan); Pext[:, full] = P
    if mirror:
        for j in range(full.stop, n):       # the half window up to the sample, continued by its mirror image
            h = x[j - (N // 2 - 1):j + 1]
            Pext[:, j] = dft_power(np.concatenate((h, h[::-1])), N, win)[0][:, 0]
        if wet[:s0].any() or not np.isnan(D[:s0]).all() or not np.isnan(Pn[:, :s0]).all(): ctx.violation("samples without a full window at the start are not dry with NaN power", ev); return
        ctx.tag("mirror")
    ok = False; msg = None
    for a, z in periods[:40]:
        dry, eP, eD = combine(Pext, f, b["f_divide"], a, z)
        # rounding: frequencies whose dry power is far below the signal power are ill-conditioned
        with np.errstate(invalid="ignore"): ill = ~(dry > 1e-11 * scale) & ~np.isnan(dry)
        bad = np.zeros(Pn.shape, bool); bad[ill] = True
        badD = np.zeros(n, bool)
        if ill.any(): badD[:] = True
        rt = 1e-5 if np.asarray(b["rsl"]).dtype == np.float32 else 1e-6
        msg = mismatch(Pn, eP, rt, 1e-9, ignore=bad, what="normalised power")
        if msg is None:
            at = 1e-6 * np.nanmax(np.abs(np.where(np.isfinite(eP), eP, 0)), initial=1)
            msg = mismatch(D, eD, rt, at, ignore=badD, what="power difference")
        if msg is None:
            ok = True
            if ill.any(): ctx.tag("ill_conditioned")
            else: ctx.tag("power_compared"); mirror and np.isfinite(eD[full.stop:]).any() and ctx.tag("mirrored_power_compared")
            break
    if not ok and len(periods) <= 40: ctx.violation(msg, ev); return
    if wet.any(): ctx.tag("wet")
    if (~wet[~edge]).any(): ctx.tag("dry")
    if np.isnan(x).any(): ctx.tag("signal_nan")
    ctx.tag("odd" if N % 2 else "even", "dry_length" if given[2] else "dry_given")
    if b["window"] is not None: ctx.tag("own_window")
    if b["Pxx"] is not None: ctx.tag("own_spectrogram")
    if (f == b["f_divide"]).any(): ctx.tag("f_divide_at_frequency")


def o_std(ctx, ev):
    b = ev.bound(); x = np.asarray(b["rsl"], float); L = int(b["window_length"])
    if L > len(x): return "skip"
    cand, v = dry_candidates(x, L)
    if not cand: return "skip"
    if not must_return(ctx, ev): return
    s, e = ev.value
    s, e = int(s), int(e)
    if e - s != L or s < 0 or e > len(x): ctx.violation(f"dry period {s}:{e} is not a stretch of length {L} in the series of length {len(x)}", ev); return
    if s not in cand: ctx.violation(f"stretch {s}:{e} has standard deviation {math.sqrt(v[s])!r}, stretch {cand[0]}:{cand[0]+L} has {math.sqrt(v[cand[0]])!r}", ev); return
    ctx.tag("lowest_std")
    if cand == [len(x) - L] and len(x) > L: ctx.tag("lowest_at_end")
    if cand == [0] and len(x) > L: ctx.tag("lowest_at_start")
    if len(cand) > 1: ctx.tag("lowest_tied")


def install(ctx):
    ctx.watch("pycomlink.processing.wet_dry.stft", "stft_classification", o_stft)
    ctx.watch("pycomlink.processing.wet_dry.stft", "find_lowest_std_dev_period", o_std)


def series(rng, n):
    x = gen.pick(rng, [-50., 60., 0.]) + rng.normal(0, gen.pick(rng, [.2, .5]), n)
    for _ in range(int(rng.integers(0, 4))):
        s = int(rng.integers(0, n)); m = int(rng.integers(3, max(4, n // 4)))
        t = np.arange(len(x[s:s + m])); x[s:s + m] -= rng.uniform(1, 20) * np.sin(np.pi * t / m) + rng.normal(0, .5, len(t))
    if rng.random() < .3: x = np.round(x / .3) * .3
    if rng.random() < .2:
        s = int(rng.integers(0, n)); x[s:s + int(rng.integers(1, 4))] = np.nan
    return x


def case(ctx, rng, i):
    big = ctx.tier == "thorough" and rng.random() < .05
    N = int(gen.pick(rng, [4, 5, 8, 9, 15, 16, 31, 32, 33, 64, int(rng.integers(3, 60))]))
    n = int(rng.integers(N, N + 300)) if not big else int(rng.integers(500, 3000))
    if rng.random() < .05: n = N
    large = gen.big(i)
    if large: N = int(gen.pick(rng, [8, 9, 15, 16])); n = gen.big_n(rng, 70000); ctx.tag("large")
    x = series(rng, n)
    o = gen.pick(rng, [x, x, x, pd.Series(x), x.tolist(), pd.Series(x, index=pd.date_range("2020", periods=n, freq="1min")), np.repeat(x, 2)[::2]])
    # lowest standard deviation
    L = int(gen.pick(rng, [2, 3, 10, n, max(2, n - 1), int(rng.integers(2, n + 1))]))
    L = min(L, n)
    if large: L = int(gen.pick(rng, [10, 60, 200]))
    if i % 2 or large:
        y = x.copy()
        k = rng.random()
        if k < .25: y[n - L:] = y[n - L] if np.isfinite(y[n - L]) else 0.
        elif k < .5: y[:L] = y[0] if np.isfinite(y[0]) else 0.
        elif k < .6: y[:] = 1.25
        ctx.quiet(stft.find_lowest_std_dev_period, gen.pick(rng, [y, pd.Series(y), y.tolist(), pd.Series(y, index=np.arange(n) + 7)]), L)
        if n >= 600: ctx.quiet(stft.find_lowest_std_dev_period, y)
    Fs = gen.pick(rng, [1 / 60, 1.0, 1 / 900, .1])
    k = int(rng.integers(0, N // 2 + 1))
    fd = gen.pick(rng, [float(rng.uniform(.05, .45)), k / N]) * Fs
    if fd >= (N // 2) * Fs / N: fd = .25 * Fs
    kw = dict(window_length=N, threshold=gen.pick(rng, [float(rng.uniform(.1, 5)), 0, 1, 2, 20, -1]), f_divide=fd, f_sampling=Fs)
    if Fs == 1 / 60 and rng.random() < .5: del kw["f_sampling"]
    mirror = rng.random() < .2 and n > 2 * N + 4
    Ne = N + (N % 2 if mirror else 0)
    if mirror: kw["mirror"] = True
    s0 = (Ne - 1) // 2; ncol = n - Ne + 1
    if rng.random() < .6:
        a = s0 + int(rng.integers(0, ncol) if not large else rng.integers(ncol * 3 // 4, ncol)); z = a + int(rng.integers(1, max(2, s0 + ncol - a)))
        if rng.random() < .2: a = max(0, a - s0)
        kw.update(t_dry_start=a, t_dry_stop=z)
    else:
        kw["dry_length"] = max(2, min(L, n)) if rng.random() < .4 else int(rng.integers(2, max(3, n // 2 if not large else 300)))
    if rng.random() < .2: kw["window"] = gen.pick(rng, [np.hanning(Ne + 2)[1:-1], np.ones(Ne), rng.uniform(.1, 1, Ne)])
    if rng.random() < .12 and not mirror:
        kw["Pxx"] = rng.uniform(.1, 5, (N // 2 + 1, n - N + 1)); kw["f"] = np.arange(N // 2 + 1) * Fs / N
    if rng.random() < .06:
        j = rng.random()
        if j < .2 and "Pxx" in kw: kw.pop("f")
        elif j < .2: kw["Pxx"] = np.ones((3, n)); kw.pop("f", None)
        elif j < .4: kw.update(t_dry_start=0, t_dry_stop=5, dry_length=5)
        else:
            g = gen.pick(rng, [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 0, 1), (0, 1, 1), (1, 1, 1)]); v = (s0, s0 + 2, 5)
            kw.update({q: v[m] if g[m] else None for m, q in enumerate(("t_dry_start", "t_dry_stop", "dry_length"))})
            ctx.tag(f"dry_choice:{g[0]}{g[1]}{g[2]}")
    r = ctx.quiet(stft.stft_classification, o, **kw) if rng.random() < .7 else ctx.quiet(stft.stft_classification, o, kw.pop("window_length"), kw.pop("threshold"), kw.pop("f_divide"), **kw)
    if r is not None and i % 3 == 0:
        kw.setdefault("window_length", N); kw.setdefault("f_divide", fd)
        D = np.asarray(r[1]["P_sum_diff"]); D = D[np.isfinite(D)]
        f = np.asarray(r[1]["f"])
        if len(D):
            kw["threshold"] = float(gen.pick(rng, D))
            if len(f) > 1: kw["f_divide"] = float(f[int(rng.integers(0, len(f) - 1))])
            r2 = ctx.quiet(stft.stft_classification, o, **kw)
            if r2 is not None:
                D = np.asarray(r2[1]["P_sum_diff"]); D = D[np.isfinite(D)]
                if len(D): kw["threshold"] = float(gen.pick(rng, D)); ctx.quiet(stft.stft_classification, o, **kw)
