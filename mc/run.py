"""Runs the check of one property:  run.py C01 [--tier quick|thorough] [--replay FILE] [--only SUBSTR] [--jobs N]"""
import os
import sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["MPLBACKEND"] = "agg"
os.environ["SDL_VIDEODRIVER"] = "dummy"
sys.dont_write_bytecode = True
import argparse
import importlib
import json
import resource
import shutil
import signal
import tempfile
import time
import traceback
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import engine
from mc.engine import S, Violation, Divergence, Stats, explore, execute


def wrap(fn):
    from leap_ec.global_vars import context as g

    def call(ctx, params):
        g.clear()
        g.update(engine.fresh_context())
        return fn(ctx, params)
    return call


SCEN = []
DEADLINE = None


def run_scenario(i):
    s = SCEN[i]
    st = Stats()
    try:
        v = explore(wrap(s.fn), s.params, st, deviations=s.deviations, dev_kinds=s.dev_kinds, post=s.post,
                    deadline=DEADLINE, **s.kw)
    except Divergence as e:
        v = (Violation("behaviour is not reproducible under identical choices: %s" % e), None)
    return i, (None if v is None else (str(v[0]), v[1])), st.executions, st.choice_points, st.outcomes, \
        st.capped, st.samples, st.max_depth


def _init_worker():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    engine.install_timer()


def _serve(conn):
    # die with the parent, whatever happens to it
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass
    _init_worker()
    while True:
        i = conn.recv()
        if i is None:
            os._exit(0)
        try:
            r = run_scenario(i)
        except BaseException as e:
            r = (i, ("explorer failed: %r" % (e,), None), 0, 0, set(), False, [], 0)
        conn.send(r)


def run_pool(order, jobs, verbose, t0, stop_after=3):
    """Forked workers, one scenario at a time; returns (results, scenarios whose worker died)."""
    import multiprocessing.connection as mpc
    ctx = mp.get_context("fork")
    todo = list(order)[::-1]
    results, lost, workers, bad = {}, [], {}, 0
    procs = []

    def spawn():
        here, there = ctx.Pipe()
        p = ctx.Process(target=_serve, args=(there,), daemon=True)
        p.start()
        there.close()
        procs.append(p)
        return here
    try:
        for _ in range(min(jobs, len(todo))):
            c = spawn()
            workers[c] = todo.pop()
            c.send(workers[c])
        while workers:
            for c in mpc.wait(list(workers)):
                i = workers.pop(c)
                try:
                    r = c.recv()
                except (EOFError, OSError):
                    lost.append(i)
                    bad += 1
                    c = spawn() if todo else None
                else:
                    results[i] = r
                    bad += r[1] is not None
                    if verbose:
                        print("%8.2fs %-50s runs=%d points=%d outcomes=%d%s%s" % (
                            time.monotonic() - t0, SCEN[i].name, r[2], r[3], len(r[4]), " CAPPED" if r[5] else "",
                            " VIOLATED" if r[1] else ""), flush=True)
                if bad >= stop_after:
                    return results, lost
                if todo and c is not None:
                    workers[c] = todo.pop()
                    c.send(workers[c])
    finally:
        for p in procs:
            p.kill()
        for p in procs:
            p.join(5)
    return results, lost


def load_known():
    path = os.path.join(engine.VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


def main():
    global SCEN, DEADLINE
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("MC_JOBS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.monotonic()
    pid = a.prop
    scratch = tempfile.mkdtemp(prefix="mc-%s-" % pid)
    os.environ["MC_SCRATCH"] = scratch
    rc = 1
    try:
        rc = _main(a, pid, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def report(pid, name, tier, msg, choices):
    d = os.path.join(engine.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (pid, "".join(c if c.isalnum() else "_" for c in name)[:60]))
    with open(path, "w") as f:
        json.dump(dict(property=pid, scenario=name, tier=tier, choices=choices, message=msg,
                       how="/opt/venv/bin/python /verif/mc/run.py %s --replay %s" % (pid, path)), f, indent=1)
    print("  %s: %s" % (name, msg))
    print("VIOLATION property=%s replay=%s" % (pid, path))


def _main(a, pid, tier, seed, t0, scratch):
    global SCEN, DEADLINE
    ev_path = os.path.join(engine.VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    mod_name = "mc.props." + pid.lower()
    try:
        pre = importlib.util.find_spec(mod_name)
        src = open(pre.origin).read()
        engine.boot(dask="DASK = True" in src)
        mod = importlib.import_module(mod_name)
        SCEN = mod.scenarios(tier)
    except Exception as e:
        # leap_ec itself no longer imports, or a public entry point is gone
        traceback.print_exc()
        report(pid, "import", tier, "cannot load the code under test: %r" % (e,), None)
        write_evidence(ev_path, pid, tier, seed, t0, dict(states=0, transitions=0, traces_validated_against_impl=0,
                                                          samples=[]), 1, [])
        return 1
    names = [s.name for s in SCEN]
    assert len(set(names)) == len(names), "duplicate scenario names"
    if a.replay:
        return replay(pid, a.replay)
    if a.only:
        SCEN = [s for s in SCEN if a.only in s.name]
    DEADLINE = t0 + (a.budget or (600 if tier == "quick" else 5400))
    order = sorted(range(len(SCEN)), key=lambda i: -SCEN[i].weight)
    results = {}
    jobs = max(1, min(a.jobs, len(SCEN)))
    viol = []
    if jobs == 1:
        _init_worker()
        for i in order:
            results[i] = run_scenario(i)
    else:
        results, lost = run_pool(order, jobs, a.verbose, t0)
        for i in lost:
            viol.append((SCEN[i].name, "the process exploring this scenario died (crash, or memory exhausted)", None))
    known = [k for k in load_known() if k.get("property") == pid and k.get("status") == "open"]
    states = set()
    execs = points = 0
    capped = []
    samples = []
    depth = 0
    for i in sorted(results):
        _, v, n, cp, oc, cap, smp, md = results[i]
        execs += n
        points += cp
        states |= oc
        depth = max(depth, md)
        if cap:
            capped.append(SCEN[i].name)
        if len(samples) < 12:
            for x in smp[:2]:
                samples.append(dict(scenario=SCEN[i].name, **x))
        if v is not None:
            k = [k for k in known if k["scenario"] == SCEN[i].name and k["match"] in v[0]]
            if k:
                print("KNOWN-FINDING: property=%s %s" % (pid, k[0]["what"]))
            else:
                viol.append((SCEN[i].name, v[0], v[1]))
    for name, msg, choices in viol:
        report(pid, name, tier, msg, choices)
    cov = dict(states=len(states), transitions=points, traces_validated_against_impl=execs, samples=samples,
               scenarios=len(results), max_choice_depth=depth, exhaustive=not capped and not viol,
               bounds=getattr(mod, "BOUNDS", {}).get(tier) or getattr(mod, "BOUNDS", {}).get("quick"))
    if capped:
        cov["time_capped_scenarios"] = capped
    write_evidence(ev_path, pid, tier, seed, t0, cov, len(viol), getattr(mod, "ASSUMPTIONS", []))
    print("%s %s: %d scenarios, %d executions, %d choice points, %d distinct states/outcomes, %.1fs%s" % (
        pid, tier, len(results), execs, points, len(states), time.monotonic() - t0,
        (", CAPPED: %d scenarios" % len(capped)) if capped else ""))
    return 1 if viol else 0


def write_evidence(path, pid, tier, seed, t0, cov, nviol, assumptions):
    with open(path, "w") as f:
        json.dump(dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
                       assumptions=list(assumptions), wall_s=round(time.monotonic() - t0, 2), violations=nviol), f, indent=1)


def replay(pid, path):
    d = json.load(open(path))
    for s in SCEN:
        if s.name == d["scenario"]:
            break
    else:
        print("no scenario", d["scenario"])
        return 1
    kw = {k: v for k, v in s.kw.items() if k in ("limit", "unit_bins", "z", "cpu_horizon", "big_choice")}
    if d["choices"] is None:
        st = Stats()
        v = explore(wrap(s.fn), s.params, st, deviations=s.deviations, dev_kinds=s.dev_kinds, post=s.post, **s.kw)
        print("replay (whole scenario):", "violated: %s" % v[0] if v else "holds")
        return 1 if v else 0
    r1 = execute(wrap(s.fn), s.params, d["choices"], None, **kw)
    r2 = execute(wrap(s.fn), s.params, d["choices"], None, **kw)
    print("replay 1:", r1.error or "holds")
    print("replay 2:", r2.error or "holds")
    if r1.error:
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1 if r1.error else 0


if __name__ == "__main__":
    import importlib.util
    main()
