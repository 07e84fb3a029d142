"""One worker process: runs the cases of one check in one execution mode."""
import importlib, io, json, os, sys, time, traceback, warnings, faulthandler

def main():
    job = json.loads(sys.argv[1])
    sys.path.insert(0, job["repo"])
    sys.path.insert(0, job["verif"])
    warnings.simplefilter("ignore")
    faulthandler.enable()
    real_stdout = sys.stdout
    sink = open(os.devnull, "w")
    sys.stdout = sink              # the package prints; keep our channel clean
    t0 = time.time()
    out = dict(job=job, ok=False)
    path = job["out"]
    def flush():
        with open(path + ".tmp", "w") as f:
            json.dump(out, f, default=str)
        os.replace(path + ".tmp", path)
    try:
        import numpy as np
        from vlib.core import Ctx, StopCase
        import pycomlink
        if not os.path.realpath(pycomlink.__file__).startswith(os.path.realpath(job["repo"]) + os.sep):
            out["error"] = f"pycomlink imported from {pycomlink.__file__}"
            flush(); return
        mod = importlib.import_module("checks." + job["prop"].lower())
        ctx = Ctx(job["prop"], job["mode"], job["seed"], job["tier"])
        ctx.scratch = job["scratch"]
        ctx.repo = job["repo"]
        mod.install(ctx)
        same = getattr(mod, "SAME_CASES", False)   # else every mode gets cases of its own
        MODES = ["interp", "jit", "bounds", "jit0"]
        n_run = 0
        truncated = False
        cases = job["cases"] if job.get("cases") is not None else range(job["shard"], job["n_cases"], job["n_shards"])
        marker = path + ".case"
        mfd = os.open(marker, os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
        for i in cases:
            if time.time() - t0 > job["soft_deadline"]:
                truncated = True
                break
            ctx.case_index = int(i)
            os.pwrite(mfd, f"{i:<12d}".encode(), 0)
            ctx.exact = False
            rng = np.random.default_rng([job["seed"], int(job["prop"][1:]), int(i)] + ([] if same else [MODES.index(job["mode"])]))
            try:
                mod.case(ctx, rng, int(i))
            except StopCase:
                pass
            except Exception as e:
                ctx.violation(f"workload could not continue on what the code returned: {type(e).__name__}: {e}",
                              extra=traceback.format_exc()[-2500:])
            n_run += 1
            if ctx.n_violations >= 25:
                break
        if ctx.records:
            import pickle
            with open(path + ".rec", "wb") as f:
                pickle.dump(ctx.records, f)
        if hasattr(mod, "finish"):
            mod.finish(ctx)
        out.update(ok=True, cases_run=n_run, truncated=truncated, events=ctx.events, judged=ctx.judged,
                   raised=ctx.raised, tags=dict(ctx.tags), funcs=dict(ctx.funcs), digests=sorted(ctx.digests),
                   samples=ctx.samples, violations=ctx.violations, n_violations=ctx.n_violations,
                   findings=ctx.findings, wall=time.time() - t0)
    except Exception as e:
        tb = traceback.format_exc()
        out["error"] = f"{type(e).__name__}: {e}"
        out["traceback"] = tb
        # an error raised while importing the code under test
        out["in_repo"] = (job["repo"] + "/pycomlink") in tb
    flush()

main()
os._exit(0)
