"""Runs the check of one property: explore every scenario symbolically, replay
candidate counterexamples and sample paths on the unmodified code, report."""
import contextlib
import hashlib
import importlib.util
import io
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Scenario:
    def __init__(self, name, fn, tiers=("quick", "thorough"), div="fork", max_paths=4000, time_limit=300, nsamples=16,
                 bounds="", max_conf=40, weight=1):
        self.name = name
        self.fn = fn
        self.tiers = tiers
        self.div = div
        self.max_paths = max_paths
        self.time_limit = time_limit
        self.nsamples = nsamples
        self.bounds = bounds
        self.max_conf = max_conf
        self.weight = weight


def load_check(pid):
    path = os.path.join(HERE, "checks", pid + ".py")
    spec = importlib.util.spec_from_file_location("check_" + pid, path)
    m = importlib.util.module_from_spec(spec)
    sys.modules[spec.name] = m
    spec.loader.exec_module(m)
    return m


def known_findings(pid):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=" + pid + " "):
                rest = line.split(" ", 2)[2]
                fid, _, text = rest.partition(" ")
                out[fid] = text
    return out


# ------------------------------------------------------------ symbolic side

def explore_one(sc, tier, seed):
    from symx import engine, env, loader, sym
    t0 = time.time()
    loader.SEEN.clear()
    sys.monitoring.restart_events()
    x = engine.Explorer(sc.fn, seed=seed, max_paths=sc.max_paths, div=sc.div, nsamples=sc.nsamples,
                        time_limit=sc.time_limit * (4 if tier == "thorough" else 1), tier=tier)
    x.max_conf = sc.max_conf
    err = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            x.run(lambda c: env.SymEnv(c))
    except (sym.SymbolicUnsupported, engine.Inconclusive, engine.z3.Z3Exception) as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-8:]
        err = f"{type(e).__name__}: {e} at {' < '.join(reversed(where))}"
    except BaseException as e:
        err = "engine failure: " + "".join(traceback.format_exception(e))[-1500:]
    return dict(scenario=sc.name, stats=x.stats.as_dict(), violations=x.violations, error=err, notes=x.notes,
                models=x.path_models, functions=sorted(loader.SEEN), complete=x.complete, nassert=x.nassert_total,
                unresolved=x.unresolved, labels=len(x.labels), wall=round(time.time() - t0, 2), bounds=sc.bounds)


def _worker(idx, tier, seed, q, scenarios):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    try:
        r = explore_one(scenarios[idx], tier, seed)
    except BaseException as e:
        r = dict(scenario=scenarios[idx].name, error=f"worker: {e!r}", stats={}, violations=[], models=[], functions=[],
                 notes=[], complete=0, nassert=0, unresolved=[], labels=0, wall=0, bounds="")
    q.put((idx, r))


def run_symbolic(pid, tier, seed, only=None, jobs=None):
    from symx import loader
    loader.install()
    loader.trace_functions()
    chk = load_check(pid)
    pre = getattr(chk, "preload", None)
    perr = None
    if pre:
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                pre()
        except Exception as e:
            perr = "preload: " + "".join(traceback.format_exception(e))[-1200:]
    scs = [s for s in chk.SCENARIOS if tier in s.tiers and (only is None or s.name in only)]
    order = sorted(range(len(scs)), key=lambda i: -scs[i].weight)
    jobs = jobs or min(8, os.cpu_count() or 4)
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    running = {}
    results = {}
    pend = list(order)
    base_seen = sorted(loader.SEEN)
    while pend or running:
        while pend and len(running) < jobs:
            i = pend.pop(0)
            p = ctx.Process(target=_worker, args=(i, tier, seed, q, scs), daemon=True)
            p.start()
            running[i] = (p, time.time())
        try:
            i, r = q.get(timeout=0.5)
            results[i] = r
            running[i][0].join(5)
            running.pop(i, None)
        except Exception:
            pass
        for i, (p, t) in list(running.items()):
            if i in results:
                running.pop(i)
                continue
            lim = scs[i].time_limit * (4 if tier == "thorough" else 1) + 120
            if not p.is_alive() and q.empty():
                time.sleep(0.3)
                if q.empty():
                    results[i] = dict(scenario=scs[i].name, error=f"worker died (exit {p.exitcode})", stats={}, violations=[],
                                      models=[], functions=[], notes=[], complete=0, nassert=0, unresolved=[], labels=0, wall=0, bounds="")
                    running.pop(i)
            elif time.time() - t > lim:
                p.kill()
                results[i] = dict(scenario=scs[i].name, error="worker exceeded its time", stats={}, violations=[], models=[],
                                  functions=[], notes=[], complete=0, nassert=0, unresolved=[], labels=0, wall=0, bounds="")
                running.pop(i)
    return chk, scs, [results[i] for i in range(len(scs))], base_seen, perr


# ------------------------------------------------------------ concrete side

def concrete_main(pid, tier, inp, out):
    """runs in its own process, with the plain modules of /repo/src"""
    sys.path.insert(0, os.environ.get("VERIF_REPO_SRC", "/repo/src"))
    from symx import env
    chk = load_check(pid)
    if hasattr(chk, "preload"):
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                chk.preload()
            except Exception:
                pass    # reported by the symbolic side
    byname = {s.name: s for s in chk.SCENARIOS}
    res = []
    import numpy as np
    np.seterr(all="ignore")
    for job in json.load(open(inp)):
        e = env.ConcreteEnv(job["inputs"], tier)
        status = "ok"
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                byname[job["scenario"]].fn(e)
        except env.AssumeFailed as a:
            status = "assume"
        except Exception as ex:
            e.exception(ex)
            e.failures[-1]["trace"] = traceback.format_exc()[-1500:]
        res.append(dict(status=status, failures=e.failures, observed=e.observed))
    json.dump(res, open(out, "w"), default=str)


def run_concrete(pid, tier, jobs_list, scratch, parallel=8):
    if not jobs_list:
        return []
    n = min(parallel, max(1, len(jobs_list) // 4 or 1))
    chunks = [jobs_list[i::n] for i in range(n)]
    procs = []
    for k, ch in enumerate(chunks):
        fi = os.path.join(scratch, f"jobs{k}.json")
        fo = os.path.join(scratch, f"res{k}.json")
        json.dump(ch, open(fi, "w"))
        if os.path.exists(fo):
            os.remove(fo)
        tmp = os.path.join(scratch, f"tmp{k}")
        os.makedirs(tmp, exist_ok=True)
        plain = os.path.join(scratch, "plain")
        if os.path.isdir(plain):
            shutil.copytree(plain, os.path.join(tmp, "combined-txds-lagrange-pickler"), dirs_exist_ok=True)
        e = dict(os.environ, TMPDIR=tmp, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=HERE, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        p = subprocess.Popen([sys.executable, "-W", "ignore", os.path.join(HERE, "run_check.py"), "--concrete", pid, tier, fi, fo],
                             env=e, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        procs.append((p, fo))
    out = [None] * len(jobs_list)
    for k, (p, fo) in enumerate(procs):
        o, _ = p.communicate(timeout=600)
        if not os.path.exists(fo):
            raise RuntimeError("concrete runner failed: " + o.decode()[-1500:])
        r = json.load(open(fo))
        for j, x in zip(range(k, len(jobs_list), n), r):
            out[j] = x
    return out


def main(argv):
    if argv and argv[0] == "--concrete":
        return concrete_main(argv[1], argv[2], argv[3], argv[4])
    if argv and argv[0] == "--derive":
        return derive_main(argv[1], argv[2])
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    verbose = False
    replay = None
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
            i += 1
        elif argv[i] == "--only":
            only = argv[i + 1].split(",")
            i += 1
        elif argv[i] == "-v":
            verbose = True
        elif argv[i] == "--replay":
            replay = argv[i + 1]
            i += 1
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scratch = tempfile.mkdtemp(prefix="symx-")
    t0 = time.time()
    try:
        if replay:
            job = json.load(open(replay))
            r = run_concrete(pid, tier, [job], scratch)[0]
            print(json.dumps(r, indent=1))
            bad = [f for f in r["failures"] if f["label"] == job["label"]]
            print("reproduced" if bad else "not reproduced")
            return 1 if bad else 0
        tmp = os.path.join(scratch, "tmp")
        os.makedirs(tmp)
        os.environ["TMPDIR"] = tmp
        tempfile.tempdir = tmp
        os.chdir(tmp)
        rc = _main(pid, tier, seed, only, verbose, scratch, t0)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def derive_main(pid, name):
    """plain process: derive the equations of one element into this process's cache"""
    import importlib
    sys.path.insert(0, os.environ.get("VERIF_REPO_SRC", "/repo/src"))
    chk = load_check(pid)
    if hasattr(chk, "preload"):
        chk.preload()
    m, _, n = name.partition(":")
    getattr(importlib.import_module(m), n).get_derivatives()
    return 0


def derive(pid, scratch):
    """the plain code derives the expensive element equations once, in parallel, into its own cache
    (in this run's scratch directory), from which symbolic and concrete runs load them"""
    names = re.findall(r"^DERIVE = (\[.*\])$", open(os.path.join(HERE, "checks", pid + ".py")).read(), re.M)
    ps = [subprocess.Popen([sys.executable, "-W", "ignore", os.path.join(HERE, "run_check.py"), "--derive", pid, n],
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=HERE),
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for n in (json.loads(names[0]) if names else [])]
    for p in ps:
        try:
            p.wait(200)
        except subprocess.TimeoutExpired:
            p.kill()
    src = os.path.join(os.environ["TMPDIR"], "combined-txds-lagrange-pickler")
    if ps and os.path.isdir(src):
        shutil.copytree(src, os.path.join(scratch, "plain"))


def _main(pid, tier, seed, only, verbose, scratch, t0):
    derive(pid, scratch)
    chk, scs, results, base_seen, perr = run_symbolic(pid, tier, seed, only)
    known = known_findings(pid)
    errors = []
    if perr:
        errors.append(perr)
    # jobs: candidate counterexamples, then sample paths
    jobs = []
    for r in results:
        for v in r["violations"]:
            jobs.append(dict(scenario=r["scenario"], inputs=v["inputs"], label=v["label"], kind="cex", v=v))
        for m in r["models"]:
            jobs.append(dict(scenario=r["scenario"], inputs=m["inputs"], label="", kind="conf", obs=m["observed"]))
    res = run_concrete(pid, tier, jobs, scratch)
    confirmed, failed_replay, knowns = [], [], {}
    validated = 0
    conf_bad = []
    for j, r in zip(jobs, res):
        if j["kind"] == "cex":
            hit = [f for f in r["failures"] if f["label"] == j["label"]]
            if hit and j["v"].get("known"):
                knowns.setdefault(j["v"]["known"], (j, hit[0]))
            elif hit:
                confirmed.append((j, hit[0]))
            else:
                failed_replay.append((j, r))
        else:
            if r["status"] == "assume":
                continue
            from symx.env import json_close
            a = [o for o in j["obs"]]
            b = r["observed"]
            bad = None
            if len(a) != len(b):
                bad = f"{len(a)} vs {len(b)} observations"
            else:
                for (la, va), (lb, vb) in zip(a, b):
                    if la != lb or not json_close(va, vb):
                        bad = f"{la}: encoded {va} real {lb} {vb}"
                        break
            if bad:
                conf_bad.append((j, bad, r["failures"][:2]))
            else:
                validated += 1
    # a known finding must be listed, otherwise it is a violation
    violations = list(confirmed)
    known_lines = []
    for fid, (j, f) in knowns.items():
        if fid in known:
            known_lines.append((fid, known[fid]))
        else:
            violations.append((j, f))
    okcount = {}
    for j, f in confirmed:
        okcount[(j["scenario"], j["label"])] = 1
    for j, r in failed_replay:
        # other candidates of the same assertion that reproduced settle it
        if (j["scenario"], j["label"]) not in okcount:
            errors.append(f"counterexample did not reproduce: {j['scenario']} / {j['label']} ({j['v']['why']}) {j['v']['detail'][:300]} inputs={j['inputs']} got={r['failures'][:1]} {r['status']}")
    for r in results:
        if r["error"]:
            errors.append(f"{r['scenario']}: {r['error']}")
        for u in r["unresolved"]:
            errors.append(f"{r['scenario']}: undecided {u}")
        if not r["error"] and (r["complete"] == 0 or r["nassert"] == 0):
            errors.append(f"{r['scenario']}: vacuous (no assertion reached)")
    for j, bad, fl in conf_bad:
        errors.append(f"encoding disagrees with the code on {j['scenario']} {j['inputs']}: {bad} {fl}")
    if validated == 0 and not violations and not any(r["error"] for r in results):
        errors.append("no path could be validated against the real code")

    tot = {}
    for r in results:
        for k, v in r["stats"].items():
            tot[k] = round(tot.get(k, 0) + v, 3)
    funcs = sorted(set(base_seen) | {f for r in results for f in r["functions"]})
    notes = sorted({n for r in results for n in r["notes"]})
    wall = round(time.time() - t0, 2)
    ev = dict(property=pid, tier=tier, seed=seed, level="other", wall_s=wall, violations=len(violations),
              assumptions=list(getattr(chk, "ASSUMPTIONS", [])) + notes + [
                  "float arithmetic is read as exact real arithmetic; replays use the real floats"],
              coverage=dict(
                  explanation="symbolic execution of the functions below over all values within the stated bounds; each assertion is an SMT query (path condition and negated assertion); counterexamples and one point per path are replayed on the unmodified code",
                  bounds={r["scenario"]: r["bounds"] for r in results},
                  scenarios=len(results), complete_paths=sum(r["complete"] for r in results),
                  queries=tot, functions_encoded=funcs,
                  paths_validated_on_real_code=validated,
                  counterexamples_confirmed=len(confirmed), inconclusive=errors[:20],
                  wall_per_scenario={r["scenario"]: r["wall"] for r in results}))
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    if True:
        json.dump(ev, open(os.path.join(evdir, pid + ".json"), "w"), indent=1)
    if verbose:
        for r in results:
            print(f"  {r['scenario']:40s} paths={r['complete']:4d} asserts={r['nassert']:5d} q={r['stats'].get('queries')} t={r['wall']} solver={r['stats'].get('solver_s')} nf={r['stats'].get('identities_by_normal_form_after_solver_timeout')}")
    for fid, text in known_lines:
        print(f"KNOWN-FINDING: property={pid} {fid} {text}")
    if violations:
        rdir = os.path.join(evdir, "replay")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for j, f in violations:
            key = (j["scenario"], j["label"])
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 10 and not verbose:
                break
            h = hashlib.sha1(json.dumps([j["scenario"], j["label"]]).encode()).hexdigest()[:8]
            p = os.path.join(rdir, f"{pid}-{h}.json")
            json.dump(dict(scenario=j["scenario"], label=j["label"], inputs=j["inputs"], real=f, symbolic=j["v"]["detail"], why=j["v"]["why"]), open(p, "w"), indent=1)
            print(f"  {j['scenario']} / {j['label']}: {j['v']['why']} ; real run: {json.dumps(f)[:400]}")
            print(f"  inputs: {json.dumps(j['inputs'])[:400]}")
            print(f"VIOLATION property={pid} replay={p}")
    for e in errors[:10 if not verbose else 60]:
        print("INCONCLUSIVE:", e[:1500])
    print(f"{pid}: {len(results)} scenarios, {tot.get('paths', 0)} paths, {tot.get('assertions', 0)} assertions, {tot.get('queries', 0)} queries, solver {tot.get('solver_s', 0)} s, {validated} paths validated, wall {wall} s")
    if violations:
        return 1
    return 2 if errors else 0
