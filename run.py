#!/usr/bin/env python3
"""run.py <PROPERTY> [--tier quick|thorough] [--seed N] | --replay FILE

Runs one check: starts worker processes that import the package from /repo's
working tree with monitors attached, merges what they observed, writes the
evidence file, and prints the verdict.
exit 0 held, exit 1 VIOLATION, exit 2 inconclusive / error of the check."""
import argparse, collections, glob, hashlib, json, os, pickle, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


def base_env(mode, scratch):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("NUMBA_") or k.startswith("PYTHON"):
            del env[k]
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TF_CPP_MIN_LOG_LEVEL="3", CUDA_VISIBLE_DEVICES="",
               MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               TF_ENABLE_ONEDNN_OPTS="0", TF_NUM_INTRAOP_THREADS="1", TF_NUM_INTEROP_THREADS="1",
               NUMBA_NUM_THREADS="1", LANG="C.UTF-8", LC_ALL="C.UTF-8",
               HOME=scratch, TMPDIR=scratch, MPLCONFIGDIR=os.path.join(scratch, "mpl"), TQDM_DISABLE="1",
               PATH="/opt/venv/bin:" + os.environ.get("PATH", "/usr/bin:/bin"))
    for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"):
        env.pop(k, None)
    env["NO_PROXY"] = "*"
    if mode == "interp":
        env["NUMBA_DISABLE_JIT"] = "1"
    elif mode == "bounds":
        env["NUMBA_BOUNDSCHECK"] = "1"
    if mode != "interp":
        env["NUMBA_NUM_THREADS"] = "4"
    # new and freed heap memory is filled with other bytes in every mode, so that
    # results that depend on uninitialised memory differ (malloc(3), mallopt M_PERTURB)
    env["MALLOC_PERTURB_"] = {"interp": "190", "jit": "66", "bounds": "188", "jit0": "255"}[mode]
    env["GLIBC_TUNABLES"] = "glibc.malloc.tcache_count=0"
    return env


def load_meta(prop):
    sys.path.insert(0, VERIF)
    from vlib.plan import PLAN
    return PLAN[prop]


def known_findings(prop):
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return {k["key"]: k for k in json.load(f)["findings"] if k["property"] == prop}


def purge_bytecode():
    for d in glob.glob(os.path.join(REPO, "pycomlink", "**", "__pycache__"), recursive=True):
        shutil.rmtree(d, ignore_errors=True)


def run_jobs(jobs, limit, hard):
    """Run worker jobs, at most `limit` at a time."""
    pending, running, results = list(jobs), [], []
    while pending or running:
        while pending and len(running) < limit:
            j = pending.pop(0)
            err = open(j["out"] + ".err", "wb")
            p = subprocess.Popen([PY, os.path.join(VERIF, "vlib", "worker.py"), json.dumps(j)],
                                 env=base_env(j["mode"], j["scratch"]), stdout=subprocess.DEVNULL, stderr=err,
                                 cwd=j["scratch"], start_new_session=True)
            running.append((p, j, time.time(), err))
        time.sleep(0.05)
        for item in list(running):
            p, j, t, err = item
            rc = p.poll()
            if rc is None and time.time() - t > hard:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = "timeout"
            if rc is not None:
                running.remove(item)
                err.close()
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                try:
                    with open(j["out"]) as f:
                        r = json.load(f)
                except (OSError, ValueError):
                    r = dict(job=j, ok=False)
                r["rc"] = rc
                if not r.get("ok"):
                    with open(j["out"] + ".err", "rb") as f:
                        r["stderr"] = f.read()[-3000:].decode("utf8", "replace")
                    try:
                        with open(j["out"] + ".case") as f:
                            r["last_case"] = int(f.read())
                    except (OSError, ValueError):
                        r["last_case"] = None
                    if rc == "timeout":     # how long the case that was interrupted had been running
                        try:
                            r["case_age"] = time.time() - os.stat(j["out"] + ".case").st_mtime
                        except OSError:
                            pass
                results.append(r)
    return results


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    replay = None
    if a.replay:
        with open(a.replay) as f:
            replay = json.load(f)
        a.prop, a.tier, a.seed = replay["property"], replay["tier"], replay["seed"]
    prop = a.prop
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    meta = load_meta(prop)
    t0 = time.time()
    purge_bytecode()
    work = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    ncpu = min(8, os.cpu_count() or 4)
    try:
        jobs = []
        if replay:
            todo = [(m, v["case"]) for v in replay["violations"][:3] for m in (meta["modes"] if meta.get("compare") else [v["mode"]])]
            for m, c in dict.fromkeys(todo):
                sc = os.path.join(work, f"s{len(jobs)}"); os.makedirs(sc)
                jobs.append(dict(prop=prop, mode=m, seed=a.seed, tier=a.tier, shard=0, n_shards=1, n_cases=0,
                                 cases=[c], soft_deadline=300, verif=VERIF, repo=REPO, scratch=sc,
                                 out=os.path.join(work, f"w{len(jobs)}.json")))
        else:
            modes = meta["modes"]
            tiercfg = meta[a.tier]
            for mode, (n_cases, shards) in zip(modes, tiercfg["cases"]):
                for s in range(shards):
                    sc = os.path.join(work, f"s{len(jobs)}"); os.makedirs(sc)
                    jobs.append(dict(prop=prop, mode=mode, seed=a.seed, tier=a.tier, shard=s, n_shards=shards,
                                     n_cases=n_cases, soft_deadline=tiercfg.get("soft", 300 if a.tier == "quick" else 2400),
                                     verif=VERIF, repo=REPO, scratch=sc, out=os.path.join(work, f"w{len(jobs)}.json")))
        hard = 680 if a.tier == "quick" else 3600
        results = run_jobs(jobs, ncpu, hard)
        rc = report(prop, a, meta, results, time.time() - t0, replay)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc


def compare_modes(results):
    """Outcomes of the same call in differently configured processes."""
    per = {}
    for r in results:
        j = r["job"]
        try:
            with open(j["out"] + ".rec", "rb") as f:
                rec = pickle.load(f)
        except OSError:
            continue
        for case, outs in rec.items():
            per.setdefault(case, {})[j["mode"]] = outs
    n, bad = 0, []
    for case, by in sorted(per.items()):
        if len(by) < 2:
            continue
        base = "interp" if "interp" in by else sorted(by)[0]
        for mode in sorted(by):
            if mode == base:
                continue
            a, b = by[base], by[mode]
            msg = None if len(a) == len(b) else f"{len(b)} outcomes instead of {len(a)}"
            for x, y in zip(a, b):
                n += 1
                msg = msg or differ(x, y)
            if msg:
                bad.append(dict(case=case, mode=mode, msg=f"{mode} and {base} execution differ: {msg}"))
    return n, bad[:10]


def differ(x, y):
    (label, kx, vx, tol), (ly, ky, vy, _) = x, y
    if label != ly:
        return f"{ly} instead of {label}"
    if kx != ky:
        return f"{label}: {ky} {str(vy)[:150]} instead of {kx} {str(vx)[:150]}"
    if kx == "raised":
        return None
    if vx["shape"] != vy["shape"]:
        return f"{label}: shape {vy['shape']} instead of {vx['shape']}"
    for i, (p, q) in enumerate(zip(vx["values"], vy["values"])):
        if not (p == q or (p != p and q != q) or abs(p - q) <= tol * (1 + max(abs(p), abs(q)))):
            return f"{label}: at {i} {q!r} instead of {p!r}"
    return None


def report(prop, a, meta, results, wall, replay):
    tags, funcs = collections.Counter(), collections.Counter()
    digests, samples, violations, findings, errors = set(), [], [], {}, []
    events = judged = raised = cases = 0
    per_mode = collections.Counter()
    truncated = False
    for r in results:
        j = r["job"]
        if r.get("ok"):
            events += r["events"]; judged += r["judged"]; raised += r["raised"]; cases += r["cases_run"]
            per_mode[j["mode"]] += r["judged"]
            truncated |= r["truncated"]
            tags.update(r["tags"]); funcs.update(r["funcs"]); digests.update(r["digests"])
            samples += [dict(s, mode=j["mode"]) if isinstance(s, dict) else s for s in r["samples"]]
            violations += r["violations"]
            for k, f in r["findings"].items():
                g = findings.setdefault(k, dict(count=0, example=f["example"], case=f.get("case", 0), mode=j["mode"]))
                g["count"] += f["count"]
        else:
            rc = r.get("rc")
            if isinstance(rc, int) and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL):
                violations.append(dict(case=r.get("last_case") or 0, mode=j["mode"],
                                       msg=f"process died with {signal.Signals(-rc).name} while running the code",
                                       extra=r.get("stderr")))
            elif rc == "timeout" and r.get("case_age", 0) > 300:
                violations.append(dict(case=r.get("last_case") or 0, mode=j["mode"],
                                       msg=f"the code did not return within {r['case_age']:.0f} s", extra=r.get("stderr")))
            elif r.get("in_repo"):
                violations.append(dict(case=0, mode=j["mode"], msg="the code under test cannot be loaded: " + r.get("error", ""),
                                       extra=r.get("traceback")))
            else:
                errors.append(dict(shard=j["shard"], mode=j["mode"], rc=rc, error=r.get("error"), stderr=r.get("stderr"),
                                   traceback=r.get("traceback")))
    compared = 0
    if meta.get("compare"):
        compared, diffs = compare_modes(results)
        violations += diffs
    known = known_findings(prop)
    for k, f in findings.items():
        if k not in known:
            violations.append(dict(case=f.get("case", 0), mode=f.get("mode", "interp"), msg=f"[{k}] {f['example']} ({f['count']} times)"))
    missing = [t for t in meta.get("required", []) if not tags.get(t)]
    missing += [f"call:{f}" for f in meta.get("required_calls", []) if not funcs.get(f)]
    ev = dict(property=prop, tier=a.tier, seed=a.seed, level=meta["level"], wall_s=round(wall, 2),
              coverage=dict(evaluations=events if events else cases, distinct_nontrivial=len(digests), rule=meta["rule"],
                            samples=samples[:6], monitored_events=events, judged_events=judged,
                            judged_per_mode=dict(per_mode), calls=dict(funcs), events_that_raised=raised,
                            cases_run=cases, observed_situations=dict(sorted(tags.items())), truncated=truncated,
                            known_findings_observed={k: v["count"] for k, v in findings.items() if k in known}),
              assumptions=meta.get("assumptions", []), violations=len(violations))
    if meta.get("compare"):
        ev["coverage"]["outcomes_compared_between_modes"] = compared
    if not replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(p + ".tmp", p)
    for k, f in findings.items():
        if k in known:
            print(f"KNOWN-FINDING: property={prop} {known[k]['what']} (seen {f['count']} times)")
    if a.verbose:
        print(json.dumps(ev["coverage"], indent=1, default=str)[:6000])
    if violations:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        if replay:
            path = a.replay
        else:
            h = hashlib.md5(json.dumps(violations, default=str, sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(VERIF, "replays", f"{prop}-{h}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, tier=a.tier, seed=a.seed, violations=violations), f, indent=1, default=str)
        for v in violations[:5]:
            print(f"  [{v['mode']} case {v['case']}] {v.get('call', '')}: {v['msg']}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if replay and not violations:
        print("replay: the recorded cases hold now")
        return 0
    if errors:
        print(f"ERROR: {len(errors)} worker(s) failed: {json.dumps(errors[0], default=str)[:3000]}")
        return 2
    if not judged and not meta.get("no_events"):
        print("INCONCLUSIVE: no monitored event was judged")
        return 2
    if missing:
        print(f"INCONCLUSIVE: situations never observed: {missing}")
        return 2
    print(f"OK property={prop} events={events} judged={judged} distinct={len(digests)} cases={cases} wall={wall:.1f}s"
          + (" (truncated)" if truncated else ""))
    return 0


if __name__ == "__main__":
    sys.exit(main())
