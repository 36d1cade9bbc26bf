#!/opt/venv/bin/python
"""run.py <PID>: decide one property of the code in /repo.  Exit 0 holds / 1 violated / 2 no answer."""
import os
import sys

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["TQDM_DISABLE"] = "1"
os.environ.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=2")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import json
import traceback
import warnings

warnings.filterwarnings("ignore")


def main():
    pid = sys.argv[1]
    import jax
    jax.config.update("jax_enable_x64", True)
    import bayesian_sde_solver
    where = os.path.realpath(os.path.dirname(bayesian_sde_solver.__file__))
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        print(f"error: bayesian_sde_solver imported from {where}, not {REPO}")
        return 2
    from symjax import harness as hz
    import importlib
    chk = hz.Check(pid)
    only = sys.argv[2:] or None
    mod = importlib.import_module(f"checks.{pid.lower()}")
    import signal
    from symjax import alg, uf as ufm

    def alarm(*_):
        raise alg.TimeUp()

    signal.signal(signal.SIGALRM, alarm)
    import threading

    def watch():
        """terms that outgrow the memory count as out of time"""
        page = os.sysconf("SC_PAGE_SIZE")
        while True:
            hz.time.sleep(1)
            with open("/proc/self/statm") as f:
                if int(f.read().split()[1]) * page > 9e9 and signal.getitimer(signal.ITIMER_REAL)[0] > 0:
                    os.kill(os.getpid(), signal.SIGALRM)

    threading.Thread(target=watch, daemon=True).start()
    budget = 6 * 3600 if hz.THOROUGH else 830
    exact = 3600 if hz.THOROUGH else 180
    slow = False
    names = [n for n in (only or mod.HARNESSES)
             if only or hz.THOROUGH or not getattr(getattr(mod, n), "thorough", False)]
    for name in names:
        fn = getattr(mod, name)
        t = hz.time.time()
        left = budget - (t - chk.t0)
        if chk.violations and t - chk.t0 > 200:
            chk.note("stopped early after a violation")
            break
        if left < 10:
            chk.inconclusive.append(f"{name}: not reached within the time budget")
            continue
        # exact normal forms first; if they explode, once more with oversized terms folded into opaque reals
        for fold, limit in ((None, 45 if slow else exact), (300, 100), (60, 60)):
            limit = max(5, min(limit, left if slow or only else left * 0.7))
            snap = chk.snapshot()
            alg.FOLD = fold
            hz.LITERAL = getattr(fn, "literal", {})
            ufm.MILD[0] = getattr(fn, "mild", 1.0)
            signal.setitimer(signal.ITIMER_REAL, limit, 3)   # again if lost in a callback
            try:
                try:
                    fn(chk)
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                break
            except alg.TimeUp:
                signal.setitimer(signal.ITIMER_REAL, 0)
                slow = True
                if chk.violations:
                    break
                chk.restore(snap)
                left = budget - (hz.time.time() - chk.t0)
                if fold == 60 or left < 10:
                    chk.inconclusive.append(f"{name}: out of time ({limit:.0f} s, fold {fold})")
                    break
                chk.note(f"{name}: exact normal forms exceeded {limit:.0f} s; repeated with opaque intermediate values")
            except hz.Violation as v:
                chk.obligations += 1
                chk.violations.append((v.what, dict(v.detail, property=pid)))
                break
            except (hz.Inconclusive, hz.Unsupported) as e:
                chk.inconclusive.append(f"{name}: {e}")
                if os.environ.get("VERIF_DEBUG"):
                    traceback.print_exc()
                break
            except Exception as e:
                chk.inconclusive.append(f"{name}: {type(e).__name__}: {e}")
                traceback.print_exc()
                break
        alg.FOLD = None
        if os.environ.get("VERIF_DEBUG"):
            print(f"  {name}: {hz.time.time()-t:.1f}s", flush=True)
    ev = chk.finish()
    known = load_known(pid)
    fresh = []
    for what, detail in chk.violations:
        hit = next((k for k in known if what.startswith(k)), None)
        if hit:
            ev["coverage"]["known_findings_hit"].append(what)
            print(f"KNOWN-FINDING: property={pid} {what}")
        else:
            fresh.append((what, detail))
    ev["violations"] = len(fresh)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid}: {chk.discharged}/{chk.obligations} obligations discharged, {chk.queries} queries, "
          f"solver {chk.solver_time:.1f}s, wall {ev['wall_s']}s")
    for m in chk.mismatches:
        print("encoder mismatch:", m)
    for m in chk.inconclusive:
        print("inconclusive:", m)
    if fresh:
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        for n, (what, detail) in enumerate(fresh):
            p = os.path.join(d, f"{pid}_{n}.json")
            with open(p, "w") as f:
                json.dump(dict(detail, what=what), f, indent=1, default=str)
            if n >= 3:
                continue
            print(f"VIOLATION property={pid} replay={p}")
            print("   ", what, str({k: detail.get(k) for k in ('entry', 'real_code', 'required', 'error')})[:600])
        if len(fresh) > 3:
            print(f"    ... and {len(fresh) - 3} more")
        return 1
    if not hz.WARM and any("UnexpectedTracerError" in m or "leaked" in m for m in chk.inconclusive):
        # state kept between calls: once more, with one ordinary call before each encoding, so that stale values show
        print("values leak between calls; repeated with a preceding ordinary call", flush=True)
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, VERIF_WARM="1"))
    if chk.inconclusive or chk.mismatches:
        return 2
    if chk.obligations == 0:
        print("no obligations")
        return 2
    return 0


def load_known(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith(f"known: property={pid} "):
                out.append(line.split(" ", 2)[2].split(" :: ")[0].strip())
    return out


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
