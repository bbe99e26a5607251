#!/usr/bin/env python3
"""Runs one check:  run.py C05 [quick|thorough]   or replays a counterexample:  run.py --replay FILE"""
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import signal
import subprocess
import sys
import time
import traceback
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["NUMBA_DISABLE_JIT"] = "1"
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ[v] = "1"
sys.path.insert(0, str(HERE))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


class Task:
    """One harness with fixed parameters. budget: seconds. opts: keyword arguments of the context."""

    def __init__(self, fn, name=None, budget=60, validate=True, timeout_ms=20000, max_paths=20000, opts=None, **kw):
        self.fn, self.kw, self.budget, self.validate = fn, kw, budget, validate
        self.timeout_ms, self.max_paths, self.opts = timeout_ms, max_paths, opts or {}
        self.name = name or fn.__name__ + "(" + ", ".join(f"{k}={v}" for k, v in kw.items()) + ")"


MOD = None
TASKS = []


def run_task(i):
    from symz import core, ctx, loader
    t = TASKS[i]
    loader.monitor()
    t0 = time.time()
    eng = core.Engine(timeout_ms=t.timeout_ms, max_paths=t.max_paths, deadline=t0 + t.budget)
    res = {"task": i, "name": t.name, "violations": [], "inconclusive": [], "samples": [], "left": [], "reached": 0, "checked_paths": 0, "unknown_ends": 0}

    def path():
        core.reset_atoms()
        c0 = eng.stats.checks
        opts = dict(t.opts)
        c = None
        try:
            for k in ("mp", "rnd"):
                if k in opts:
                    opts[k] = opts[k](eng)
            c = ctx.SymCtx(eng, **opts)
            t.fn(c, **t.kw)
            r = eng.reachable(quick=res["reached"] > 0)
            if str(r) == "sat":
                res["reached"] += 1
                if eng.stats.checks > c0:
                    res["checked_paths"] += 1
                if len(res["samples"]) < 3:
                    m = eng._model(r)
                    res["samples"].append(ctx.candidates(m, eng.inputs)[0])
            elif str(r) == "unsat":
                raise core.Infeasible()
            else:       # the assertions were discharged; only whether inputs lead here is open
                res["unknown_ends"] += 1
        except core.Unsupported as e:
            # the path leaves the encoding: undecided, but inputs that lead there are tried on the real code
            if not any(w in str(e) for w in ("time budget", "does not end", "more than")):
                try:
                    r = eng._check()
                    if str(r) == "sat":
                        res["left"] += [ctx.candidates(m, eng.inputs)[0] for m in [eng._model(r)] + eng.typical(1)]
                except core.Unsupported:
                    pass
            raise
        except core.Infeasible:
            raise
        except core.StopPath:
            v = eng.violations[-1]
            res["violations"].append({"msg": v.msg, "candidates": [h for m in v.models for h in ctx.candidates(m, eng.inputs)]})
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            msg = f"unexpected {type(e).__name__}: {str(e)[:150]} ({os.path.basename(tb.filename)}:{tb.lineno})"
            r = eng._check()
            if str(r) == "unsat":
                raise core.Infeasible()
            m = eng._model(r) or {}
            more = eng.typical() if len(eng.violations) < 2 else []
            res["violations"].append({"msg": msg, "candidates": [h for x in [m] + more for h in ctx.candidates(x, eng.inputs)], "exception": type(e).__name__})
            eng.violations.append(core.Violation(msg, []))
            raise core.StopPath()
        finally:
            if c is not None:
                c.cleanup()

    def hung(*a):
        raise core.Unsupported("a path does not end")
    signal.signal(signal.SIGALRM, hung)
    signal.setitimer(signal.ITIMER_REAL, t.budget + 30)
    try:
        res["paths"] = eng.explore(path)
    except core.Unsupported as e:
        res["inconclusive"].append(f"not encoded: {e}")
    except Exception as e:
        res["inconclusive"].append("".join(traceback.format_exception(e))[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if eng.unknowns:
        res["inconclusive"] += [f"solver unknown: {u}" for u in eng.unknowns[:3]]
    if not res["violations"] and not res["inconclusive"] and res["checked_paths"] == 0:
        res["inconclusive"].append("vacuous: no feasible path reached an assertion")
    res["stats"] = eng.stats.dict()
    res["wall"] = time.time() - t0
    res["functions"] = sorted(loader.EXECUTED)
    return res


def _work(conn):
    while True:
        i = conn.recv()
        if i is None:
            return
        try:
            r = run_task(i)
        except BaseException as e:
            r = f"{type(e).__name__} {e}"
        conn.send(r)


class Workers:
    """Forked workers; one that died or does not answer in time (the solver may ignore its limits) is replaced."""

    def __init__(self, n, order):
        self.ctx, self.todo, self.busy = multiprocessing.get_context("fork"), list(order), {}
        self.idle, self.lost = [], {}
        for _ in range(min(n, len(self.todo))):
            self.new()

    def new(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=_work, args=(b,), daemon=True)
        p.start()
        b.close()
        self.idle.append((p, a))

    def left(self):
        return self.todo + [i for _, i, _ in self.busy.values()]

    def step(self):
        out = []
        while self.idle and self.todo:
            w, i = self.idle.pop(), self.todo.pop(0)
            w[1].send(i)
            self.busy[w[1]] = (w, i, time.time())
        for conn in multiprocessing.connection.wait(list(self.busy), 0.05) if self.busy else ():
            w, i, _ = self.busy.pop(conn)
            try:
                out.append((i, conn.recv()))
                self.idle.append(w)
            except (EOFError, ConnectionError, OSError):
                self.gone(w)
                self.lost[i] = self.lost.get(i, 0) + 1
                if self.lost[i] < 2:
                    self.todo.append(i)
                else:
                    out.append((i, "the process of the solver died"))
        for conn, (w, i, t) in list(self.busy.items()):
            if time.time() - t > TASKS[i].budget + 60:
                del self.busy[conn]
                self.gone(w)
                out.append((i, "the solver does not answer"))
        return out

    def gone(self, w):
        w[0].kill()
        w[0].join()
        w[1].close()
        self.new()

    def end(self):
        for p, conn in self.idle + [w for w, _, _ in self.busy.values()]:
            p.kill()
            p.join()


def run_conc(task, assignment, validate=False):
    """Runs the harness on the real modules. Returns (verdict, message)."""
    from symz import core, ctx
    c = None

    def hung(*a):
        raise core.Unsupported("a run on the real code does not end")
    signal.signal(signal.SIGALRM, hung)
    signal.setitimer(signal.ITIMER_REAL, 120)
    try:
        opts = dict(task.opts)
        for k in ("mp", "rnd"):
            if k in opts:
                opts[k] = opts[k](None)
        c = ctx.ConcCtx(assignment, validate=validate, **opts)
        task.fn(c, **task.kw)
        return "held", ""
    except ctx.CheckFailed as e:
        return "failed", str(e)
    except (ctx.Skip, core.Unsupported) as e:
        return "skipped", str(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return "failed", f"unexpected {type(e).__name__}: {str(e)[:150]} ({os.path.basename(tb.filename)}:{tb.lineno})"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        if c is not None:
            c.cleanup()


def replay_file(path):
    global TASKS
    d = json.loads(Path(path).read_text())
    load(d["property"], d["tier"])
    task = next((t for t in TASKS if t.name == d["task"]), None)
    if task is None:
        print("unknown task", d["task"])
        return 2
    if d.get("validate"):
        out = []
        for name, a in d["validate"]:
            t = next(t for t in TASKS if t.name == name)
            out.append((name, a) + run_conc(t, a, validate=True))
        print("VALIDATION " + json.dumps(out))
        return 0
    for i, a in enumerate(d["candidates"]):
        v, m = run_conc(task, a)
        if v == "failed":
            print(f"REPRODUCED property={d['property']} task={d['task']}\n  inputs: {a}\n  {m}")
            return 1
    print("not reproduced on the real code")
    return 0


def load(prop, tier):
    global MOD, TASKS
    MOD = importlib.import_module("checks." + prop)
    TASKS = MOD.tasks(tier)
    return MOD


def main(argv):
    if argv[0] == "--replay":
        return replay_file(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    mod = load(prop, tier)
    import symz.ctx  # noqa: before forking
    order = sorted(range(len(TASKS)), key=lambda i: -TASKS[i].budget)
    limit = 620 if tier == "quick" else 6 * 3600
    results, pending = {}, []
    rdir = HERE / "replays"
    rdir.mkdir(exist_ok=True)
    known = load_known(prop)
    reported, known_seen, unrepro = [], [], []
    shown = set()

    def replay_all():
        """Replay the violations found so far on the real code."""
        for i in sorted(results):
            for j, v in enumerate(results[i]["violations"]):
                if (i, j) in shown or len(reported) >= 5 or len(unrepro) >= 25 or time.time() - t0 > limit + 120:
                    continue
                shown.add((i, j))
                f = rdir / f"{prop}_{i}_{len(shown)}.json"
                f.write_text(json.dumps({"property": prop, "tier": tier, "task": results[i]["name"], "message": v["msg"],
                                         "candidates": v["candidates"]}, indent=1, default=str))
                try:
                    p = subprocess.run([sys.executable, str(HERE / "run.py"), "--replay", str(f)], capture_output=True, text=True, timeout=150)
                    code, out, err = p.returncode, p.stdout, p.stderr
                except subprocess.TimeoutExpired:
                    code, out, err = 2, "", "the replay did not end within 150 s"
                if code == 1 and "REPRODUCED" in out:
                    k = next((k for k in known if k["match"] in results[i]["name"] + " " + v["msg"]), None)
                    if k:
                        known_seen.append((k, f))
                    else:
                        reported.append((f, results[i]["name"], v["msg"], out[out.index("REPRODUCED"):].strip()))
                else:
                    unrepro.append(f"{results[i]['name']}: {v['msg']} -- {out.strip()[-200:]} {err.strip()[-300:]}")

    pool = Workers(int(os.environ.get("SYMZ_PROCS", "8")), order)
    try:
        first = None
        while pool.left() and time.time() - t0 < limit:
            for i, r in pool.step():
                if isinstance(r, dict):
                    results[i] = r
                else:
                    pending.append(f"{TASKS[i].name}: {r}")
            if any(r["violations"] for r in results.values()):
                first = first or time.time()
                if time.time() - first > 45 or not pool.left():     # enough was found to look at
                    replay_all()
                    if reported:
                        break
                    first = time.time()
        pending += [f"{TASKS[i].name}: no answer within the time limit" for i in pool.left()] if not reported else []
    finally:
        pool.end()
    tot, funcs = {}, set()
    inconclusive = list(pending)
    for r in results.values():
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
        funcs.update(r["functions"])
        inconclusive += [f"{r['name']}: {x}" for x in r["inconclusive"]]
    replay_all()
    # conformance of the encoding: concrete runs of the same harnesses on the real modules, at solver-chosen inputs
    validated, vsamples = 0, []
    val_fail = []
    if not reported:
        picks = []
        for i in sorted(results):
            if TASKS[i].validate:
                for a in results[i]["samples"][:3 if tier == "thorough" else 1]:
                    picks.append((TASKS[i].name, a))
        cap = getattr(mod, "VALIDATE", 24) * (4 if tier == "thorough" else 1)
        if len(picks) > cap:
            step = len(picks) / cap
            picks = [picks[int(k * step)] for k in range(cap)]
        left = [(TASKS[i].name, a) for i in sorted(results) for a in results[i]["left"] if TASKS[i].validate]
        picks = left[::max(1, len(left) // 24)] + picks
        if picks:
            f = rdir / f"{prop}_validate.json"
            f.write_text(json.dumps({"property": prop, "tier": tier, "task": picks[0][0], "validate": picks}, default=str))
            try:
                p = subprocess.run([sys.executable, str(HERE / "run.py"), "--replay", str(f)], capture_output=True, text=True,
                                   timeout=200 if tier == "quick" else 3600)
            except subprocess.TimeoutExpired:
                p = subprocess.CompletedProcess([], 2, "", "no answer within the time limit")
            line = next((x for x in p.stdout.splitlines() if x.startswith("VALIDATION ")), None)
            if line is None:
                inconclusive.append("conformance run failed: " + (p.stdout + p.stderr)[-600:])
            else:
                for name, a, verdict, msg in json.loads(line[11:]):
                    if verdict == "held":
                        validated += 1
                        if len(vsamples) < 4:
                            vsamples.append({"harness": name, "inputs": dict(list(a.items())[:12])})
                    elif verdict == "failed":
                        val_fail.append((name, a, msg))
            if not val_fail:
                f.unlink(missing_ok=True)
    for name, a, msg in val_fail[:3]:
        # a real failing run that the encoding does not show: report it with its input
        f = rdir / f"{prop}_real_{len(reported)}.json"
        f.write_text(json.dumps({"property": prop, "tier": tier, "task": name, "message": msg, "candidates": [a]}, default=str))
        k = next((k for k in known if k["match"] in name + " " + msg), None)
        if k:
            known_seen.append((k, f))
        else:
            reported.append((f, name, msg, f"inputs: {a}"))
    undecided = sum(1 for i in range(len(TASKS)) if i not in results or results[i]["inconclusive"])
    failed_runs = [x for x in inconclusive if x.startswith("conformance run failed")]
    inconclusive += ["counterexample not reproduced: " + u for u in unrepro]
    wall = time.time() - t0
    queries = tot.get("queries", 0)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0), "transitions": tot.get("decisions", 0) + tot.get("concretisations", 0),
            "traces_validated_against_impl": validated,
            "samples": vsamples or [{"harness": r["name"], "inputs": dict(list((r["samples"] or [{}])[0].items())[:12])}
                                    for r in list(results.values())[:3]],
            "explanation": "states = symbolic execution paths, transitions = decided branches; every assertion is decided by the SMT "
                           "solver for all values of the inputs within the bounds, or by normalisation to a constant",
            "harnesses": len(TASKS), "harnesses_undecided": undecided, "assertions": tot.get("checks", 0),
            "assertions_constant_after_normalisation": tot.get("discharged_trivially", 0),
            "solver_queries": queries, "solver_sat": tot.get("sat", 0), "solver_unsat": tot.get("unsat", 0),
            "solver_unknown": tot.get("unknown", 0), "solver_s": round(tot.get("solver_s", 0.0), 3),
            "functions_encoded": sorted(funcs), "bounds": getattr(mod, "BOUNDS", ""), "outside_bounds": getattr(mod, "OUTSIDE", ""),
            "inconclusive": inconclusive[:20],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(wall, 2), "violations": len(reported),
    }
    (HERE / "evidence").mkdir(exist_ok=True)
    (HERE / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str))
    seen = set()
    for k, f in known_seen:
        if k["line"] not in seen:
            seen.add(k["line"])
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    print(f"{prop} [{tier}]: {len(TASKS)} harnesses, {tot.get('paths', 0)} paths, {tot.get('checks', 0)} assertions, {queries} queries, "
          f"solver {tot.get('solver_s', 0):.1f}s, {validated} validated runs, wall {wall:.1f}s")
    if os.environ.get("SYMZ_VERBOSE"):
        for r in sorted(results.values(), key=lambda r: -r["wall"])[:8]:
            print(f"   {r['wall']:.2f}s {r['name']} {r['stats']}")
    for f, name, msg, out in reported:
        print(f"  {name}: {msg}\n    {out}")
        print(f"VIOLATION property={prop} replay={f}")
    for x in inconclusive[:10]:
        print("INCONCLUSIVE", x)
    if reported:
        return 1
    # harnesses without an answer are no verdict: the check holds on what was explored, provided that this is most of it
    return 2 if unrepro or failed_runs or 4 * undecided > len(TASKS) else 0


COMMON_ASSUMPTIONS = [
    "float arithmetic is modelled as exact real arithmetic on the code's own constants (rounding error is outside the encoding)",
    "numpy/math/scipy primitives behave as documented (their stand-ins are compared with the real libraries by the concrete runs)",
]


def load_known(prop):
    out = []
    p = HERE / "known_findings.txt"
    if p.is_file():
        for line in p.read_text().splitlines():
            if line.startswith(f"known: property={prop} "):
                rest = line.split(" ", 2)[2]
                m, _, what = rest.partition(" :: ")
                out.append({"match": m[len("match="):], "what": what, "line": line})
    return out


if __name__ == "__main__":
    sys.modules["run"] = sys.modules["__main__"]
    sys.exit(main(sys.argv[1:]))
