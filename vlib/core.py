"""Monitoring core: wraps public functions of the real package, records every
call (arguments snapshot, result or exception), and hands the event to an
oracle.  Nothing here knows how the code under test is written."""
import copy, functools, hashlib, importlib, threading, traceback, collections
import numpy as np
import pandas as pd
import xarray as xr
from vlib.defaults import DEFAULTS


# --------------------------------------------------------------------------
# snapshots and digests
# --------------------------------------------------------------------------
def snap(x):
    """Deep, independent copy of a value as passed by the caller."""
    if isinstance(x, np.ndarray):
        return x.copy(order="K") if isinstance(x, np.ma.MaskedArray) else np.array(x, copy=True, order="K")
    if isinstance(x, (xr.DataArray, xr.Dataset)):
        return x.copy(deep=True)
    if isinstance(x, (pd.Series, pd.DataFrame)):
        return x.copy(deep=True)
    if isinstance(x, pd.Index):
        return x.copy(deep=True)
    if isinstance(x, tuple) and not hasattr(x, "_fields"):
        return tuple(snap(v) for v in x)
    if isinstance(x, list):
        return [snap(v) for v in x]
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    if callable(x):
        return x
    try:
        return copy.deepcopy(x)
    except Exception:
        return x


def _feed(h, x):
    if isinstance(x, np.ndarray):
        h.update(str(x.dtype).encode() + str(x.shape).encode())
        if x.dtype == object:
            h.update(repr(x.tolist()).encode())
        else:
            h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, xr.DataArray):
        h.update(b"DA" + repr(x.dims).encode() + repr(x.name).encode())
        _feed(h, np.asarray(x.values))
        for c in sorted(map(str, x.coords)):
            h.update(c.encode() + repr(x.coords[c].dims).encode() + repr(sorted(map(str, x.coords[c].attrs.items()))).encode())
            _feed(h, np.asarray(x.coords[c].values))
        h.update(repr(sorted(map(str, x.attrs.items()))).encode())
    elif isinstance(x, xr.Dataset):
        h.update(b"DS")
        for v in sorted(map(str, x.variables)):
            y = x.variables[v]
            h.update(v.encode() + repr(y.dims).encode() + (b"c" if v in x.coords else b"v") + repr(sorted(map(str, y.attrs.items()))).encode())
            _feed(h, np.asarray(y.values))
        h.update(repr(sorted(map(str, x.attrs.items()))).encode())
    elif isinstance(x, pd.Series):
        h.update(b"S" + repr(x.name).encode() + str(x.dtype).encode())
        _feed(h, x.index)
        _feed(h, x.to_numpy())
    elif isinstance(x, pd.DataFrame):
        h.update(b"DF")
        _feed(h, x.index)
        for c in x.columns:
            h.update(repr(c).encode())
            _feed(h, x[c].to_numpy())
    elif isinstance(x, pd.Index):
        h.update(b"I" + repr(x.name).encode() + str(x.dtype).encode())
        if isinstance(x, pd.DatetimeIndex):
            _feed(h, x.asi8)
        else:
            h.update(repr(list(x)).encode())
    elif isinstance(x, (list, tuple)):
        h.update(type(x).__name__.encode() + str(len(x)).encode())
        for v in x:
            _feed(h, v)
    elif isinstance(x, dict):
        for k in x:
            h.update(repr(k).encode())
            _feed(h, x[k])
    elif callable(x):
        h.update(getattr(x, "__name__", "callable").encode())
    elif isinstance(x, (int, float, complex, str, bytes, bool, type(None), np.generic)):
        h.update(type(x).__name__.encode() + repr(x).encode())
    else:
        d = getattr(x, "__dict__", None)
        if d is not None and not isinstance(x, type):
            h.update(type(x).__name__.encode())
            for k in sorted(d):
                h.update(k.encode())
                _feed(h, d[k])
        else:
            h.update(repr(x).encode())


def digest(*xs):
    h = hashlib.blake2b(digest_size=12)
    for x in xs:
        _feed(h, x)
    return h.hexdigest()


def short(x, n=24):
    """Readable abbreviation for evidence samples."""
    if isinstance(x, (xr.DataArray,)):
        return f"DataArray{dict(x.sizes)} {short(np.asarray(x.values))}"
    if isinstance(x, xr.Dataset):
        return f"Dataset{dict(x.sizes)} vars={list(map(str, x.data_vars))}"
    if isinstance(x, np.ndarray):
        return f"array{x.shape}:{x.dtype} {np.array2string(x.ravel()[:8], precision=5, threshold=8)}"
    if isinstance(x, (pd.Series, pd.DataFrame)):
        return f"{type(x).__name__}{x.shape}"
    s = repr(x)
    return s if len(s) < 160 else s[:157] + "..."


# --------------------------------------------------------------------------
# comparison
# --------------------------------------------------------------------------
def mismatch(actual, expected, rtol=1e-9, atol=1e-12, ignore=None, what="result"):
    """None if equal (NaN == NaN), else a description of the first difference."""
    try:
        a = np.asarray(actual)
        e = np.asarray(expected)
    except Exception as exc:  # not array-like at all
        return f"{what}: not array-like ({exc})"
    if a.shape != e.shape:
        return f"{what}: shape {a.shape}, expected {e.shape}"
    if a.size == 0:
        return None
    if a.dtype == object or e.dtype == object or a.dtype.kind in "USM" or e.dtype.kind in "USM":
        eq = np.asarray(a == e)
        if eq.shape != a.shape:
            eq = np.array([x == y for x, y in zip(a.ravel(), e.ravel())]).reshape(a.shape)
        bad = ~eq.astype(bool)
    elif a.dtype.kind == "c" or e.dtype.kind == "c":
        bad = ~(np.isclose(a, e, rtol=rtol, atol=atol, equal_nan=True))
    else:
        try:
            a = a.astype(float)
        except Exception as exc:
            return f"{what}: not numeric ({exc})"
        e = e.astype(float)
        an, en = np.isnan(a), np.isnan(e)
        with np.errstate(invalid="ignore", over="ignore"):
            close = np.abs(a - e) <= atol + rtol * np.maximum(np.abs(e), np.abs(a))
        close |= a == e
        bad = ~((an & en) | (~an & ~en & close))
    if ignore is not None:
        bad = bad & ~np.asarray(ignore)
    if not bad.any():
        return None
    i = tuple(int(v) for v in np.argwhere(bad)[0]) if a.ndim else ()
    return f"{what}: at index {i} got {a[i]!r}, expected {e[i]!r} ({int(bad.sum())} of {a.size} differ)"


class Event:
    __slots__ = ("name", "args", "kwargs", "raw_args", "raw_kwargs", "value", "exc", "seq", "thread", "sig", "key", "_bound")

    def __init__(self, name, args, kwargs, sig, key=None):
        self.name, self.sig, self.key = name, sig, key
        self.raw_args, self.raw_kwargs = args, kwargs
        self.args, self.kwargs = snap(tuple(args)), snap(dict(kwargs))
        self.value = self.exc = None
        self.thread = threading.get_ident()
        self._bound = None

    def bound(self):
        """Arguments by name (None if they do not bind).  Omitted ones have the
        documented defaults (vlib/defaults.py), not those the code has now."""
        if self._bound is None:
            try:
                b = self.sig.bind(*self.args, **self.kwargs)
            except TypeError:
                return None
            given = set(b.arguments)
            b.apply_defaults()
            for k, v in DEFAULTS.get(self.key, {}).items():
                if k in b.arguments and k not in given:
                    b.arguments[k] = copy.deepcopy(v)
            self._bound = b.arguments
        return self._bound


class StopCase(Exception):
    pass


class Ctx:
    """State of one worker: monitors, counters, violations."""

    def __init__(self, prop, mode="interp", seed=0, tier="quick", max_violations=10):
        self.prop, self.mode, self.seed, self.tier = prop, mode, seed, tier
        self.lock = threading.RLock()
        self.case_index = -1
        self.events = 0
        self.judged = 0
        self.raised = 0
        self.tags = collections.Counter()
        self.funcs = collections.Counter()
        self.digests = set()
        self.samples = []
        self.violations = []
        self.findings = {}
        self.n_violations = 0
        self.max_violations = max_violations
        self.exact = False
        self.records = {}
        self._local = threading.local()
        self._installed = []

    # ---- reporting
    def tag(self, *names):
        with self.lock:
            for n in names:
                self.tags[n] += 1

    def nontrivial(self, *xs):
        with self.lock:
            self.digests.add(digest(*xs))

    def sample(self, d):
        with self.lock:
            if len(self.samples) < 6:
                self.samples.append(d)

    def violation(self, msg, ev=None, finding=None, extra=None):
        with self.lock:
            if finding is not None:
                f = self.findings.setdefault(finding, dict(count=0, example=str(msg)))
                f["count"] += 1
                f.setdefault("case", self.case_index)
                return
            self.n_violations += 1
            if len(self.violations) < self.max_violations:
                d = dict(case=self.case_index, msg=str(msg), mode=self.mode)
                if ev is not None:
                    d["call"] = ev.name
                    d["args"] = [short(a) for a in ev.args]
                    d["kwargs"] = {k: short(v) for k, v in ev.kwargs.items()}
                    d["outcome"] = ("raised " + repr(ev.exc)) if ev.exc is not None else short(ev.value)
                if extra:
                    d["extra"] = extra
                self.violations.append(d)

    def check(self, msg, ev=None, finding=None, extra=None):
        """Report `msg` if it is not None/False; returns True when fine."""
        if msg:
            self.violation(msg, ev, finding, extra)
            return False
        return True

    # ---- monitors
    def watch(self, modname, attr, oracle, pure=False, name=None, optional=False):
        import inspect
        obj = importlib.import_module(modname)
        parts = attr.split(".")
        for p in parts[:-1]:
            obj = getattr(obj, p)
        if optional and not hasattr(obj, parts[-1]):
            return None                    # an internal helper that is not there (any more)
        orig = getattr(obj, parts[-1])
        if hasattr(orig, "__wrapped_original__"):
            return orig                    # imported from a module that is monitored already
        label = name or attr
        sig = inspect.signature(orig)
        ctx = self
        key = f"{getattr(orig, '__module__', modname)}.{getattr(orig, '__qualname__', attr)}"
        if key not in DEFAULTS and f"{modname}.{attr}" in DEFAULTS:
            key = f"{modname}.{attr}"

        @functools.wraps(orig)
        def monitored(*args, **kwargs):
            if getattr(ctx._local, "off", 0):
                return orig(*args, **kwargs)
            ev = Event(label, args, kwargs, sig, key)
            before = digest(ev.args, ev.kwargs) if pure else None
            ctx._local.depth = getattr(ctx._local, "depth", 0) + 1
            try:
                ev.value = orig(*args, **kwargs)
            except Exception as e:
                ev.exc = e
            finally:
                ctx._local.depth -= 1
            with ctx.lock:
                ctx.events += 1
                ev.seq = ctx.events
                ctx.funcs[label] += 1
                if ev.exc is not None:
                    ctx.raised += 1
            ctx._judge(oracle, ev)
            if pure and digest(tuple(args), dict(kwargs)) != before:
                ctx.violation(f"{label} modified its arguments", ev)
            if ev.exc is not None:
                raise ev.exc
            return ev.value

        monitored.__wrapped_original__ = orig
        setattr(obj, parts[-1], monitored)
        self._installed.append((obj, parts[-1], orig))
        return monitored

    def _judge(self, oracle, ev):
        try:
            self._local.off = getattr(self._local, "off", 0) + 1
            try:
                r = oracle(self, ev)
            finally:
                self._local.off -= 1
        except Exception as e:
            self.violation(f"oracle cannot interpret the outcome of {ev.name}: {type(e).__name__}: {e}", ev,
                           extra=traceback.format_exc()[-1500:])
            return
        if r == "skip":
            return
        with self.lock:
            self.judged += 1
            self.digests.add(digest(ev.name, ev.args, ev.kwargs))
            if len(self.samples) < 4 and ev.seq % 7 == 1:
                self.samples.append(dict(call=ev.name, args=[short(a) for a in ev.args],
                                         kwargs={k: short(v) for k, v in ev.kwargs.items()},
                                         outcome=("raised " + repr(ev.exc)) if ev.exc is not None else short(ev.value)))

    def uninstall(self):
        for obj, attr, orig in reversed(self._installed):
            setattr(obj, attr, orig)
        self._installed = []

    def record(self, label, fn, *a, tol=1e-9, **k):
        """Call fn and keep its outcome for the comparison between execution modes."""
        try:
            v = fn(*a, **k)
        except Exception as e:
            self.records.setdefault(self.case_index, []).append((label, "raised", f"{type(e).__name__}: {e}", tol))
            return None
        x = np.asarray(v)
        self.records.setdefault(self.case_index, []).append(
            (label, "returned", dict(shape=x.shape, values=x.astype(float).ravel().tolist()), tol))
        return v

    # ---- workload helpers
    def quiet(self, fn, *a, **k):
        """Call; swallow exceptions (the oracle has already judged them)."""
        try:
            return fn(*a, **k)
        except Exception:
            return None

    def expect_raise(self, exc_types, fn, *a, **k):
        """Unmonitored helper: fn must raise one of exc_types."""
        label = getattr(fn, "__name__", str(fn))
        try:
            v = fn(*a, **k)
        except exc_types:
            self.tag("expected_raise")
            return True
        except Exception as e:
            self.violation(f"{label} raised {type(e).__name__} instead of {exc_types}: {e}", extra=[short(x) for x in a])
            return False
        self.violation(f"{label} returned {short(v)} instead of raising {exc_types}",
                       extra=dict(args=[short(x) for x in a], kwargs={kk: short(x) for kk, x in k.items()}))
        return False


def must_return(ctx, ev):
    """True when the call returned; reports a violation when it raised."""
    if ev.exc is not None:
        ctx.violation(f"{ev.name} raised {type(ev.exc).__name__}: {ev.exc} for valid input", ev,
                      extra="".join(traceback.format_exception(ev.exc))[-1500:])
        return False
    return True
