"""Exploration of a property's cases over several processes, and the evidence it yields."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import random
import signal
import subprocess
import sys
import time
import traceback

import z3

from . import engine, instrument, models, values, vio
from .ctx import ConcCtx, SymCtx, evaluate, plain
from .engine import ENG, Inconclusive, NonDeterminism, PathEnd, PathTimeout, RestartPath, Violated

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV = "/opt/venv/lib/python3.12/site-packages"


def setup_paths():
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent-pycache"
    if instrument.REPO_SRC not in sys.path:
        sys.path.insert(0, instrument.REPO_SRC)
    if os.path.isdir(VENV) and VENV not in sys.path:
        # rich as the project pins it; appended after our own libraries were imported
        sys.path.insert(1, VENV)


def make_worlds():
    setup_paths()
    env = models.make_env(instrument.SEEN)
    vio.install_rich()
    finder = instrument.Finder(env, {"gaspra": instrument.REPO_SRC, "vp": HERE})
    sys.meta_path.insert(0, finder)
    return instrument.World(finder, True), instrument.World(finder, False)


class Alarm:
    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        def fire(*_):
            raise PathTimeout()

        signal.signal(signal.SIGALRM, fire)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


CONCRETE_LIMIT = 15


GUARDS = {}


def run_concrete(world, module, fn, params, inputs, limit=CONCRETE_LIMIT):
    """(verdict, label, ctx): verdict is ok / violated / skipped."""
    ctx = ConcCtx(inputs)
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(1000 + 100)
    try:
        with world:
            f = getattr(importlib.import_module(module), fn)
            guard = GUARDS.get(id(world))
            if guard is None:
                guard = GUARDS[id(world)] = instrument.StateGuard(world)
            guard.before()
            try:
                with Alarm(limit):
                    f(ctx, world, **params)
            finally:
                guard.after()
        return "ok", None, ctx
    except PathEnd:
        return "skipped", None, ctx
    except PathTimeout:
        return "violated", f"no result within {limit} s", ctx
    except Exception as e:
        from .ctx import CheckFailed

        if isinstance(e, CheckFailed):
            return "violated", str(e), ctx
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{os.path.basename(x.filename)}:{x.lineno}" for x in reversed(tb) if "gaspra" in x.filename), "")
        return "violated", f"{type(e).__name__}: {e} {where}".strip(), ctx
    finally:
        ctx.close()
        sys.setrecursionlimit(old)


class Explorer:
    def __init__(self, prop, tier, seed, deadline):
        self.prop, self.tier, self.deadline = prop, tier, deadline
        self.sym, self.real = make_worlds()
        self.guard = instrument.StateGuard(self.sym)
        self.rng = random.Random(seed * 1000003 + os.getpid() * 0)
        self.cases = prop.cases[tier]
        self.case_id = None
        self.samples = []
        self.reached = {}
        self.incon = {}
        self.violation = None
        self.validated_left = {}
        self.fallback_left = {}
        self.fallback_runs = 0
        self.depth = 0

    def path(self, case):
        """Run one path; returns a verdict string."""
        ENG.start_path()
        self.guard.before()
        ctx = SymCtx()
        cand = None
        try:
            f = getattr(importlib.import_module(self.prop.module), case.fn)
            with Alarm(case.limit):
                f(ctx, self.sym, **case.params)
            verdict = "ok"
        except PathEnd:
            verdict = "end"
        except Violated as v:
            verdict, cand = "cand", (v.label, v.inputs)
        except PathTimeout:
            ENG.resync()  # the alarm may have interrupted the engine itself
            verdict, cand = "cand", ("no result in time", None)
        except RestartPath:
            verdict = "restart"
        except Inconclusive as e:
            verdict = "incon"
            self.note("inconclusive: " + str(e)[:200], e)
        except (RecursionError, MemoryError) as e:
            verdict = "incon"
            self.note("resource: " + type(e).__name__, e)
        except Exception as e:
            verdict, cand = "cand", (f"{type(e).__name__}: {e}", None)
            self.exc = e
        try:
            self.guard.after()
        except Exception:
            self.guard.roots = None
        if verdict == "ok":
            ENG.stats.paths += 1
            r = self.reached.setdefault(self.case_id, set())
            r.update(ctx.reached)
            self.validate(case, ctx)
        elif verdict == "end":
            ENG.stats.infeasible += 1
        elif verdict == "incon":
            ENG.stats.inconclusive += 1
            self.fallback(case, ctx)
        elif verdict == "cand":
            label, inputs = cand
            if inputs is None:
                try:
                    inputs = ctx.values(ENG._model())
                except (PathEnd, Inconclusive):
                    ENG.stats.inconclusive += 1
                    self.note("no model for a candidate: " + label)
                    return verdict
            v, lab, _ = run_concrete(self.real, self.prop.module, case.fn, case.params, inputs)
            if v == "violated":
                self.violation = (case, inputs, lab, label)
                return "violated"
            ENG.stats.inconclusive += 1
            self.note("candidate did not reproduce: " + label, getattr(self, "exc", None), json.dumps(inputs)[:300])
        return verdict

    def note(self, text, exc=None, more=""):
        n = self.incon.get(text)
        if n is None and len(self.incon) < 20:
            tb = more
            if exc is not None:
                t = traceback.extract_tb(exc.__traceback__)
                tb = more + " " + " | ".join(f"{os.path.basename(x.filename)}:{x.lineno}" for x in t[-6:])
            self.incon[text] = [0, tb]
        if text in self.incon:
            self.incon[text][0] += 1

    def fallback(self, case, ctx):
        """A path the encoding cannot follow: run the code as it is on values of that path.  This decides
        nothing about the path (it stays inconclusive), but a failure it meets is a real one."""
        left = self.fallback_left.get(self.case_id, 80)
        done = set()
        for k in range(min(12, left)):
            try:
                inputs = ctx.values(self.spread(ctx) if k else ENG._model())
            except BaseException:
                return
            key = json.dumps(inputs, sort_keys=True)
            if key in done:
                continue
            done.add(key)
            self.fallback_left[self.case_id] = left = left - 1
            v, lab, _ = run_concrete(self.real, self.prop.module, case.fn, case.params, inputs)
            if v != "skipped":
                self.fallback_runs += 1
            if v == "violated":
                self.violation = (case, inputs, lab, "on a path outside the encoding")
                return

    def spread(self, ctx):
        """Another model of the current path condition: the solver is asked for chosen values one input
        after the other, and those that are impossible on the path are dropped."""
        s = ENG.solver
        leaves = [z for _, v in ctx.inputs.values() for z in leaves_of(v)]
        self.rng.shuffle(leaves)
        s.push()
        try:
            s.set("timeout", 2000)
            for i, z in enumerate(leaves[:40]):
                r = self.rng.random()
                if i and r < 0.3:
                    want = z == leaves[self.rng.randrange(i)]
                elif r < 0.8:
                    want = z == self.rng.choice(SALIENT)
                else:
                    want = z == self.rng.randrange(256)
                s.push()
                s.add(want)
                if s.check() != z3.sat:
                    s.pop()
                else:
                    s.pop()
                    s.add(want)
            s.check()
            return s.model()
        finally:
            s.pop()
            s.set("timeout", 15000)

    def validate(self, case, ctx):
        left = self.validated_left.get(self.case_id, 6)
        if left > 0:
            self.validated_left[self.case_id] = left - 1
        elif self.rng.random() > 0.004:
            return
        m = ENG._model()
        inputs = ctx.values(m)
        expected = [(n, evaluate(v, m)) for n, v in ctx.observed]
        v, lab, cc = run_concrete(self.real, self.prop.module, case.fn, case.params, inputs)
        if v == "violated":
            # the code as it is breaks the property on an input the encoding cleared
            self.violation = (case, inputs, lab, "found when validating a path")
            return
        got = [(n, plain(x)) for n, x in cc.observed]
        if v != "ok" or got != expected:
            ENG.stats.validation_mismatch += 1
            self.note("mismatch with the code", None, f"{json.dumps(inputs)[:300]} encoded {expected!r:.300} real {got!r:.300} {lab}")
        else:
            ENG.stats.validated += 1
            if len(self.samples) < 4:
                self.samples.append({"case": case.name, "inputs": render(inputs), "observed": repr(got)[:300]})

    def run_task(self, case_id, prefix, donate, stopped):
        case = self.cases[case_id]
        if case_id != self.case_id:
            ENG.new_case()
            self.case_id = case_id
        ENG.load_prefix(prefix)
        with self.sym:
            try:
                while True:
                    v = self.path(case)
                    if v == "restart":
                        ENG.settle_base()
                        continue
                    if self.violation:
                        return 0
                    if not ENG.backtrack():
                        return 0
                    if stopped():
                        return ENG.open_count() + 1
                    donate(case_id)
            except NonDeterminism as e:
                ENG.stats.inconclusive += 1
                self.note("path not reproducible: " + str(e)[:200], e)
                ENG.new_case()
                self.case_id = None
                return 1


SALIENT = [0, 1, 2, 3, 9, 10, 13, 32, 45, 47, 48, 57, 58, 61, 65, 90, 91, 92, 93, 95, 97, 98, 122, 127, 128, 0x85, 0xA0, 0xBB, 0xBF,
           0xE9, 0xEF, 255, 256, 0x2028, 0xFEFF, 0xFFFD, 0x1F600]


def leaves_of(v):
    """The solver variables of an input."""
    if isinstance(v, values.Rope):
        return [x.z for s in v.segs for x in (s.hi,) if hasattr(x, "z")]
    if hasattr(v, "els"):
        return [e.z for e in v.els if hasattr(e, "z")]
    return [v.z] if hasattr(v, "z") else []


def render(inputs):
    out = {}
    for k, (kind, v) in inputs.items():
        if kind == "text":
            v = "".join(map(chr, v)).encode("unicode_escape").decode("ascii")
        elif kind == "bytes":
            v = bytes(v).hex()
        out[k] = v
    return out


# ---------------------------------------------------------------------------------------------------


def worker(wid, prop, tier, seed, deadline, tasks, results, pending, idle, stop):
    try:
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        ex = Explorer(prop, tier, seed, deadline)

        def stopped():
            return stop.value or time.monotonic() > deadline

        def donate(case_id):
            if idle.value > 0 and pending.value - (NPROC - idle.value) < idle.value:
                p = ENG.donate()
                if p is not None:
                    with pending.get_lock():
                        pending.value += 1
                    tasks.put((case_id, p))

        unexplored, seconds = {}, {}
        while True:
            waiting = False
            while True:
                try:
                    t = tasks.get(timeout=0.02)
                    break
                except queue.Empty:
                    if not waiting:
                        waiting = True
                        with idle.get_lock():
                            idle.value += 1
                    if stop.value or pending.value == 0:
                        t = None
                        break
            if waiting:
                with idle.get_lock():
                    idle.value -= 1
            if t is None:
                break
            case_id, prefix = t
            if stopped():
                unexplored[case_id] = unexplored.get(case_id, 0) + 1
            else:
                t0 = time.monotonic()
                n = ex.run_task(case_id, prefix, donate, stopped)
                seconds[case_id] = seconds.get(case_id, 0) + time.monotonic() - t0
                if n:
                    unexplored[case_id] = unexplored.get(case_id, 0) + n
                if ex.violation:
                    case, inputs, lab, label = ex.violation
                    results.put(("violation", (case.fn, case.params, inputs, lab, label)))
                    stop.value = 1
            with pending.get_lock():
                pending.value -= 1
        results.put(
            (
                "done",
                {
                    "stats": ENG.stats.as_dict(),
                    "samples": ex.samples,
                    "seen": sorted(instrument.SEEN),
                    "reached": {k: sorted(v) for k, v in ex.reached.items()},
                    "incon": ex.incon,
                    "concretised": dict(models.CONCRETISED),
                    "unexplored": unexplored,
                    "seconds": seconds,
                    "resets": ex.guard.resets,
                    "fallback": ex.fallback_runs,
                },
            )
        )
    except BaseException as e:  # noqa: BLE001
        results.put(("error", "".join(traceback.format_exception(e))[-3000:]))


NPROC = int(os.environ.get("VP_JOBS", "0")) or min(8, os.cpu_count() or 1)


def explore(prop, tier, seed, budget):
    ctx = mp.get_context("fork")
    tasks, results = ctx.Queue(), ctx.Queue()
    pending, idle, stop = ctx.Value("l", 0), ctx.Value("l", 0), ctx.Value("l", 0)
    deadline = time.monotonic() + budget
    cases = prop.cases[tier]
    pending.value = len(cases)
    # all families of cases early on (a stride by the golden ratio), whatever the budget
    for i in sorted(range(len(cases)), key=lambda i: (i * 0.6180339887498949) % 1):
        tasks.put((i, ()))
    procs = [
        ctx.Process(
            target=worker, args=(w, prop, tier, seed, deadline, tasks, results, pending, idle, stop), daemon=True
        )
        for w in range(NPROC)
    ]
    for p in procs:
        p.start()
    out = {
        "stats": engine.Stats(), "samples": [], "seen": set(), "reached": {}, "incon": {}, "concretised": {},
        "unexplored": {}, "errors": [], "violation": None, "resets": 0, "fallback": 0,
        "seconds": {},
    }
    done = 0
    grace = None
    while done < len(procs):
        try:
            kind, msg = results.get(timeout=1)
        except queue.Empty:
            now = time.monotonic()
            if now > deadline + 45 or (out["violation"] and grace and now > grace):
                break
            if all(not p.is_alive() for p in procs) and results.empty():
                break
            continue
        if kind == "violation":
            if out["violation"] is None:
                out["violation"] = msg
                grace = time.monotonic() + 3
        elif kind == "error":
            out["errors"].append(msg)
            done += 1
            with pending.get_lock():
                pending.value -= 1
        else:
            done += 1
            out["stats"].merge(msg["stats"])
            out["samples"] += msg["samples"]
            out["seen"].update(msg["seen"])
            out["resets"] += msg["resets"]
            out["fallback"] += msg["fallback"]
            for k, v in msg["reached"].items():
                out["reached"].setdefault(k, set()).update(v)
            for k, v in msg["incon"].items():
                o = out["incon"].setdefault(k, [0, v[1]])
                o[0] += v[0]
            for k, v in msg["concretised"].items():
                out["concretised"][k] = out["concretised"].get(k, 0) + v
            for k, v in msg["seconds"].items():
                out["seconds"][k] = out["seconds"].get(k, 0) + v
            for k, v in msg["unexplored"].items():
                out["unexplored"][k] = out["unexplored"].get(k, 0) + v
    if done < len(procs):
        out["errors"].append(f"{len(procs) - done} worker processes gave no result")
    for p in procs:
        if p.is_alive():
            p.kill()
    for p in procs:
        p.join(5)
    return out


def write_replay(prop, violation):
    fn, params, inputs, lab, label = violation
    d = {"property": prop.pid, "module": prop.module, "fn": fn, "params": params, "inputs": inputs, "label": lab,
         "found_as": label}
    body = json.dumps(d, indent=1, sort_keys=True)
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    path = f"{HERE}/evidence/replay-{prop.pid}-{hashlib.sha1(body.encode()).hexdigest()[:10]}.json"
    with open(path, "w") as f:
        f.write(body)
    return path


def in_child(fn, *args):
    """Its result, from a process of its own."""
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    p = ctx.Process(target=lambda: q.put(fn(*args)), daemon=True)
    p.start()
    try:
        return q.get(timeout=120)
    except queue.Empty:
        return [], None
    finally:
        p.kill()
        p.join(5)


def listed(prop):
    """The known findings of the property that the committed file lists: {id: text}."""
    out = {}
    with open(f"{HERE}/known_findings.txt") as f:
        for line in f:
            if line.startswith(f"known: property={prop.pid} "):
                fid, text = line.split(" ", 2)[2].split(" ", 1)
                out[fid] = text.strip()
    return out


def look_for_findings(prop):
    """Runs the inputs of known findings.  (lines to print, a violation or None)"""
    lines, known = [], listed(prop)
    if not prop.findings:
        return lines, None
    _, real = make_worlds()
    for f in prop.findings:
        v, lab, _ = run_concrete(real, prop.module, f.fn, f.params, f.inputs)
        if v != "violated":
            continue
        if f.fid in known and lab.startswith(f.label):
            lines.append(f"KNOWN-FINDING: property={prop.pid} {f.fid} {known[f.fid]}")
        else:
            return lines, (f.fn, f.params, f.inputs, lab, "on the input of a former finding")
    return lines, None


def check(prop, tier, seed, budget):
    t0 = time.monotonic()
    out = explore(prop, tier, seed, budget)
    out["findings"] = []
    if not out["violation"]:
        out["findings"], out["violation"] = in_child(look_for_findings, prop)
    st = out["stats"]
    confirmed = None
    replay = None
    if out["violation"]:
        replay = write_replay(prop, out["violation"])
        r = subprocess.run(
            [sys.executable, "-B", f"{HERE}/replay.py", replay], capture_output=True, text=True, timeout=120,
            env={**os.environ, "PYTHONHASHSEED": "0"},
        )
        confirmed = r.returncode == 1
        if not confirmed:
            out["errors"].append("a counterexample did not reproduce in a fresh process: " + (r.stdout + r.stderr)[-500:])
    cases = prop.cases[tier]
    unreached = {}
    if not out["violation"]:
        for i, c in enumerate(cases):
            miss = [x for x in c.expect if x not in out["reached"].get(i, ())]
            if miss and not out["unexplored"].get(i):
                unreached[c.name] = miss
    rng = random.Random(seed)
    samples = out["samples"]
    rng.shuffle(samples)
    coverage = {
        "states": st.paths,
        "transitions": st.decisions,
        "traces_validated_against_impl": st.validated,
        "samples": samples[:6] or [{"case": c.name} for c in cases[:3]],
        "functions_encoded": sorted(out["seen"]),
        "bounds": prop.bounds[tier],
        "cases": [c.name for c in cases][:80],
        "case_count": len(cases),
        "cases_cut_by_time": {cases[k].name: v for k, v in out["unexplored"].items()},
        "solver_queries": st.queries,
        "assertions_sent_to_solver": st.checks,
        "assertions_decided_on_the_path": st.checks_trivial,
        "solver_s": round(st.solver_s, 2),
        "solver": "z3 " + z3.get_version_string(),
        "forks": st.forks,
        "paths_dropped_by_assumptions": st.infeasible,
        "paths_inconclusive": st.inconclusive,
        "runs_on_inconclusive_paths": out["fallback"],
        "inconclusive_reasons": {k[:400]: {"count": v[0], "at": v[1]} for k, v in list(out["incon"].items())[:12]},
        "concretised_calls": out["concretised"],
        "validation_mismatches": st.validation_mismatch,
        "unreached_witnesses": unreached,
        "module_reloads": out["resets"],
        "exhaustive": not out["unexplored"] and not st.inconclusive and not st.concretised and not out["violation"] and not out["errors"],
        "known_findings": out["findings"],
        "meaning": "states = feasible paths on which every assertion was decided; transitions = symbolic branch decisions",
    }
    ev = {
        "property": prop.pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": coverage,
        "assumptions": prop.assumptions,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": 1 if confirmed else 0,
    }
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    with open(f"{HERE}/evidence/{prop.pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    return confirmed, replay, out, ev
