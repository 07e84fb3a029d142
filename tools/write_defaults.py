"""Writes vlib/defaults.py: the default values of all public functions of the
reviewed tree (they are the documented ones).  Not part of any check."""
import importlib, inspect, os, pkgutil, pprint, sys
sys.path.insert(0, "/repo")
import pycomlink
D = {}; N = {}
for m in pkgutil.walk_packages(pycomlink.__path__, "pycomlink."):
    if ".tests" in m.name: continue
    try: mod = importlib.import_module(m.name)
    except Exception: continue
    objs = []
    if "lazy_tf" in m.name: continue
    for n, o in vars(mod).items():
        if n.startswith("_") and n != "_calc_A_min_max" or n == "nans": continue
        if getattr(o, "__module__", None) != m.name: continue
        if inspect.isclass(o): objs += [(f"{n}.{k}", v) for k, v in vars(o).items() if inspect.isfunction(v)]
        elif callable(o): objs.append((n, o))
    for q, f in objs:
        try: sig = inspect.signature(f)
        except (TypeError, ValueError): continue
        if q.endswith("plot_intersections"): continue
        d = {p.name: p.default for p in sig.parameters.values() if p.default is not p.empty}
        if "cache_dir" in d and "pytorch" in m.name: d = {k: v for k, v in d.items() if k != "cache_dir"}   # machine dependent
        if d: D[f"{m.name}.{q}"] = d
        if not any(p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) for p in sig.parameters.values()): N[f"{m.name}.{q}"] = list(sig.parameters)
out = os.path.join(os.path.dirname(__file__), "..", "vlib", "defaults.py")
with open(out, "w") as f:
    f.write('"""Documented default arguments (written by tools/write_defaults.py, reviewed by hand)."""\nDEFAULTS = ' + pprint.pformat(D, width=140) + "\n# parameters in documented order\nPARAMS = " + pprint.pformat(N, width=140) + "\n")
print(len(D))
