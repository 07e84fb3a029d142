"""Writes /verif/MANIFEST.json from vlib/plan.py (one check per property with a module in checks/)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.plan import PLAN
T = dict(
 C01="call monitor + per-segment reference baseline oracle, interpreted and compiled",
 C02="call monitor + per-segment reference baseline oracle, interpreted and compiled",
 C03="call monitor + frozen ITU tables / independent spline oracle, raise contract",
 C04="call monitor + power-law inverse oracle and monotonicity checks on recorded pairs",
 C05="call monitor on wrapped functions; oracle re-runs each single time series and compares",
 C06="online trace-specification monitor of the recursion, prefix-replay causality check",
 C07="call monitor + independent transfer-matrix / Debye oracle",
 C08="call monitor + forward-model consistency oracle (bracketing within table resolution)",
 C09="offline checker of marker/mask traces against gap specification, interpreted and compiled",
 C10="call monitor + vector-geometry oracle, symmetry/metric checks on recorded pairs",
 C11="call monitor + per-link reference classification oracle, permutation replays",
 C12="call monitor + element-wise reference oracle for the three retrieval steps",
 C13="call monitor + brute-force neighbour oracle, interpreted and compiled",
 C14="recorded call histories on reused objects replayed on new objects, result aliasing monitor, threads",
 C15="call monitor + independently solved kriging systems as oracle",
 C16="call monitor + point-to-segment distance oracle",
 C17="call monitor + direct DFT oracle and exact threshold re-evaluation on reported state",
 C18="call monitor + own forward pass of the stored networks on independently cut windows",
 C19="monitored pipeline with identity-revealing scripted models; offline checker maps every prediction to its window",
 C20="monitored pipeline with identity-revealing samples; offline checker maps every prediction to its window",
 C21="fault injection (HTTP faults, kills, concurrent processes) + offline checker of cache state, results and request log",
 C22="generated cmlh5 files read back under monitor; conservation checker of links, channels, samples",
 C23="call monitor + pairwise counting oracle",
 C24="call monitor + pairwise definition oracle",
 C25="call monitor + per-sample assignment (exactly-once) oracle on integer instants",
 C26="call monitor on validator histories + exact path/pixel clipping oracle",
 C27="snapshot monitors on arguments, module state, results; repeated and multi-threaded replays",
 C28="numba bounds-check instrumentation, poisoned memory, differential monitor compiled vs interpreted",
 C29="call monitor + per-step reference oracle",
 C30="end-to-end monitor of the chain; per-link, permutation and subset replays",
 C31="recorded calls replayed in other spellings (keywords, positions, omitted/written-out defaults), outcomes compared",
 C34="recorded calls replayed with the same values stored in another way (order, strides, read-only, mapped, byte order, scalars), outcomes compared",
 C35="repeated calls on fresh data under a retention monitor: weak references, traced memory, descriptors, threads, networks, files",
 C33="interpreter audit-hook and process-state monitor around every call; fresh interpreters with recording installer stand-ins",
 C32="fault injection on a loopback model server + history checker with weight-revealing models",
)
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in PLAN and os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd=f"python3 run.py {p} --tier quick", thorough_cmd=f"python3 run.py {p} --tier thorough",
            technique=T[p], level=PLAN[p]["level"],
            level_note=PLAN[p].get("note") or "Every observed call of the real code is judged by an independent oracle; assurance covers the executions generated (seeded, counted in the evidence), not all inputs. Trusts numpy/pandas/xarray/scipy and the reference model in vlib/ and checks/."))
    else:
        na.append(dict(property=p, reason="no check built yet"))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
    notes="No hooks in /repo: monitors wrap the public functions from the harness process, so nothing is guarded and nothing has to be rebuilt (pure Python, imported from /repo's working tree with byte code caches disabled). Findings in known_findings.json."),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
