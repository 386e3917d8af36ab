"""check.py <property id>: extract, generate obligations, discharge, report."""
import sys, os, json, time, importlib, tempfile, shutil, traceback, subprocess, threading
import multiprocessing as mp
import concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)

import z3
z3.set_param("warning", False)
from engine.types import Unsupported
from engine.contracts import AnnotationMismatch
from engine import solve, frontend
from engine.program import Program

_P = None
_TASKS = None


def short(e):
    return "%s: %s" % (type(e).__name__, e)


def gen_task(i):
    """Worker: symbolic execution of one task; returns SMT scripts."""
    t = _TASKS[i]
    r = gen_task1(t)
    r["dep"] = t.dep
    if t.dep:
        r["task"] = "%s/%s" % (t.dep, r["task"])
        for o in r.get("obs", []):
            o["name"] = "%s/%s" % (t.dep, o["name"])
    return r


def gen_task1(t):
    t0 = time.time()
    z3.set_param("memory_max_size", 6000)
    try:
        ex = t.run(_P)
    except (Unsupported, AnnotationMismatch) as e:
        return {"task": t.name, "error": short(e), "time": time.time() - t0}
    except RecursionError as e:
        return {"task": t.name, "error": short(e), "time": time.time() - t0}
    except Exception as e:
        return {"task": t.name, "error": "translator: " + short(e) + "\n" + traceback.format_exc()[-1500:],
                "time": time.time() - t0}
    obs = []
    seen = {}
    for o in ex.obls:
        if o.kind in t.skip_kinds:
            continue
        g = z3.simplify(o.goal)
        if z3.is_true(g):
            obs.append({"name": o.name, "smt": None, "line": o.line, "kind": o.kind})
            continue
        if any(h.eq(o.goal) for h in o.hyps):
            obs.append({"name": o.name, "smt": None, "line": o.line, "kind": o.kind})
            continue
        # split conjunctions into separate queries
        goals = [o.goal]
        if z3.is_and(o.goal):
            goals = o.goal.children()
        for gi, g1 in enumerate(goals):
            hy = solve.slice_hyps(o.hyps, g1)
            key = (tuple(h.get_id() for h in hy), g1.get_id())
            if key in seen:
                obs.append({"name": o.name, "smt": None, "line": o.line, "kind": o.kind, "dup": True})
                continue
            seen[key] = 1
            fs = list(hy) + [z3.Not(g1)]
            fs += solve.AR.axioms_for(fs, t.mode)
            nm = o.name if len(goals) == 1 else "%s.%d" % (o.name, gi + 1)
            obs.append({"name": nm, "smt": solve.script(fs), "line": o.line, "kind": o.kind,
                        "goal": str(g1)[:1500]})
    covers = []
    for pc in t.ends[:60]:
        covers.append(solve.script(list(pc) + solve.AR.axioms_for(pc, t.mode)))
        if len(covers) >= 6:
            break
    missing = [l.name for l in t.loops if l.name not in t.loops_used]
    return {"task": t.name, "runner": bool(t.runner), "obs": obs, "ends": len(t.ends), "covers": covers, "time": time.time() - t0,
            "func": getattr(t, "func", None), "inlined": sorted(ex.inlined), "contracts": sorted(ex.used_contracts),
            "lib": sorted(ex.lib_used), "notes": sorted(ex.notes), "paths": ex.paths, "loops_missing": missing,
            "line": getattr(getattr(t, "f", None), "line", None)}


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                out.append(l)
    return out


def prove(mod, tier, only=None, verbose=False):
    global _P, _TASKS
    tmp = tempfile.mkdtemp(prefix="verif_")
    res = {"tasks": [], "obligations": 0, "discharged": 0, "failed": [], "unsupported": [], "solver": {}, "solver_s": 0.0,
           "tmp": tmp, "vacuous": [], "trivial": 0, "dep_failed": []}
    gen = frontend.gen_protos(os.path.join(tmp, "gen"))
    units, ghosts, deps = list(mod.UNITS), dict(getattr(mod, "GHOSTS", None) or {}), []
    for d in getattr(mod, "DEPENDS", []):
        dm = importlib.import_module("specs." + d)
        deps.append((d, dm))
        units += [u for u in dm.UNITS if u[0] not in [x[0] for x in units]]
        for k, v in (getattr(dm, "GHOSTS", None) or {}).items():
            ghosts.setdefault(k, v)
    _P = Program(gen, units, ghosts)
    _TASKS = mod.tasks(_P)
    for t in _TASKS:
        t.dep = None
    for d, dm in deps:
        for t in dm.tasks(_P):
            t.dep = d
            if not any(x.name == t.name and x.func == t.func for x in _TASKS):
                _TASKS.append(t)
    if only:
        _TASKS = [t for t in _TASKS if any(o in t.name for o in only)]
    plan = getattr(mod, "PLAN", [("z3-new", 2), ("z3", 3), ("cvc5", 6), ("z3-new", 30), ("cvc5", 30), ("z3", 20)])
    nshort = getattr(mod, "SHORT", 3)
    if tier == "thorough":
        plan = [(n, 3 * t) for n, t in plan]
    ctx = mp.get_context("fork")
    idx = 0
    t0 = time.time()
    # generation first (forked workers, no threads alive), then the solvers
    with ctx.Pool(min(8, max(1, len(_TASKS)))) as pool:
        results = pool.map(gen_task, range(len(_TASKS)), chunksize=1)
    with cf.ThreadPoolExecutor(8) as tp:
        futs = []
        for r in results:
            if "error" in r:
                res["unsupported"].append(r)
                continue
            res["tasks"].append(r)
            if r["ends"] == 0 and not r["dep"] and not r["runner"]:
                res["vacuous"].append(r["task"] + ": no path reaches the exit")
            for o in r["obs"]:
                res["obligations"] += 1
                if o["smt"] is None:
                    res["discharged"] += 1
                    res["trivial"] += 1
                else:
                    futs.append((r, o, tp.submit(solve.discharge, o["smt"], tmp, idx, plan[:nshort])))
                    idx += 1
            r["cover_futs"] = []
            for c in r["covers"]:
                r["cover_futs"].append(tp.submit(solve.discharge, c, tmp, idx, [("z3-new", 3)]))
                idx += 1
            r["covers"] = len(r["covers"])
        # every obligation first gets a short attempt; the hard ones then get the long plan, unless a counterexample is
        # already known (the property is then violated or not provable as annotated) or the time for solving is used up
        deadline = time.time() + (220 if tier == "quick" else 1500)
        done = [(r, o, f.result()) for r, o, f in futs]
        hard = [i for i, (r, o, x) in enumerate(done) if x[0] not in ("sat", "unsat")]
        refuted = lambda own: any(x[0] == "sat" and (r["dep"] is None) == own for r, _, x in done)
        hard = [i for i in hard if not refuted(done[i][0]["dep"] is None)]
        if hard:
            stop = {None: threading.Event()}
            for d, _ in deps:
                stop[d] = threading.Event()

            def again(i):
                r, o, x = done[i]
                st, name, dt, log, path = x
                if not stop[r["dep"]].is_set() and deadline - time.time() > 20:
                    st, nm, d, l, path = solve.by_cases(path, tmp, 2)
                    dt += d
                    log = log + l
                    if st in ("sat", "unsat"):
                        return (st, nm, dt, log, path)
                for nm, t in plan[nshort:]:
                    left = deadline - time.time()
                    if stop[r["dep"]].is_set() or left < 1:
                        log = log + ["not tried further"]
                        break
                    st, d, _ = solve.run_solver(nm, path, int(min(t, left)) or 1)
                    dt += d
                    log = log + ["%s: %s (%.2fs)" % (nm, st, d)]
                    if st in ("sat", "unsat"):
                        name = nm
                        if st == "sat":
                            stop[r["dep"]].set()
                        break
                return (st if st in ("sat", "unsat") else "unknown", name, dt, log, path)
            for i, x in zip(hard, list(tp.map(again, hard))):
                done[i] = (done[i][0], done[i][1], x)
        for r, o, x in done:
            st, name, dt, log, path = x
            res["solver_s"] += dt
            o["time"] = dt
            if verbose and dt > 2:
                print("  slow %.1fs %s %s" % (dt, o["name"], log))
            if st == "unsat":
                res["discharged"] += 1
                res["solver"][name] = res["solver"].get(name, 0) + 1
                if not verbose:
                    os.unlink(path)
            else:
                o["status"], o["log"], o["path"] = st, log, path
                res["dep_failed" if r["dep"] else "failed"].append((r, o))
            o["smt"] = None
        for r in res["tasks"]:
            sts = [f.result()[0] for f in r.pop("cover_futs")]
            if sts and all(s == "unsat" for s in sts):
                if r["dep"]:
                    res["unsupported"].append({"task": r["task"], "dep": r["dep"], "error": "every path condition at exit is contradictory"})
                    continue
                res["vacuous"].append(r["task"] + ": every path condition at exit is contradictory")
    res["gen_s"] = time.time() - t0
    return res


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    if "--only" in sys.argv:
        only = sys.argv[sys.argv.index("--only") + 1].split(",")
    verbose = "-v" in sys.argv
    t0 = time.time()
    mod = importlib.import_module("specs." + pid)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    out = []
    rc = 0
    violations = 0
    bounded = []
    replay_info = None
    res = None
    extraction = None
    try:
        res = prove(mod, tier, only, verbose)
    except frontend.ExtractionError as e:
        extraction = str(e)
    except AnnotationMismatch as e:
        extraction = short(e)
    if res is None:
        res = {"tasks": [], "obligations": 0, "discharged": 0, "failed": [],
               "unsupported": [{"task": "extraction", "error": extraction}], "solver": {}, "solver_s": 0, "tmp": None,
               "vacuous": [], "trivial": 0, "gen_s": 0, "dep_failed": []}
    if verbose:
        for r in res["tasks"]:
            print("task %s: %d obligations, %d paths, %.1fs gen; inlined %s; contracts %s; notes %s%s" % (
                r["task"], len(r["obs"]), r["paths"], r["time"], r["inlined"], r["contracts"], r["notes"],
                "; LOOP SPECS UNUSED %s" % r["loops_missing"] if r["loops_missing"] else ""))
        for r in res["unsupported"]:
            print("UNSUPPORTED", r["task"], r["error"])
        for r, o in res["failed"] + res["dep_failed"] + res.get("unannotated", []):
            print("FAILED", o["name"], "line", o["line"], o["status"], o["log"], o["path"])
            print("   goal:", o.get("goal", "")[:600].replace("\n", " "))
    # a function that now contains a loop nothing is known about is out of the verifier's reach: its undischarged
    # obligations say that the annotations are missing, not that the property is broken
    bare = {id(r): [x for x in r["notes"] if x.startswith("loop without annotation")] for r, o in res["failed"]}
    if res["failed"] and all(bare[id(r)] for r, o in res["failed"]):
        for r in {id(r): r for r, o in res["failed"]}.values():
            res["unsupported"].append({"task": r["task"], "error": "AnnotationMismatch: %s (%s)" % (
                "; ".join(bare[id(r)]), ", ".join(sorted({o["name"] for q, o in res["failed"] if q is r})[:4]))})
        res["unannotated"], res["failed"] = res["failed"], []
    problem = bool(res["failed"] or res["dep_failed"] or res["unsupported"] or res["vacuous"])
    rdir = os.path.join(VERIF, "evidence", "replay")
    rp = getattr(mod, "REPLAY", None)
    if rp is not None and (problem or tier == "thorough") and not only:
        from engine import replay
        hints = []
        for r, o in (res["failed"] + res["dep_failed"] + res.get("unannotated", []))[:8]:
            if o["status"] == "sat":
                try:
                    hints.append(solve.model(o["path"]))
                except Exception:
                    pass
        budget = 60 if tier == "quick" else 240
        replay_info = replay.search(pid, rp, seed, budget, hints)
    path = os.path.join(rdir, pid + ".txt")
    if problem or (replay_info and replay_info.get("violation")):
        os.makedirs(rdir, exist_ok=True)
        with open(path, "w") as f:
            f.write("property %s\n" % pid)
            for r, o in res["failed"] + res["dep_failed"] + res.get("unannotated", []):
                f.write("\nundischarged obligation: %s (line %s)\n  verifier: %s\n  goal: %s\n" % (
                    o["name"], o["line"], "; ".join(o["log"]), o.get("goal")))
            for r in res["unsupported"]:
                f.write("\nnot under contract any more: %s: %s\n" % (r["task"], r["error"]))
            for v in res["vacuous"]:
                f.write("\nvacuous: %s\n" % v)
            if replay_info:
                f.write("\nreplay against the real code: %s\n" % json.dumps(replay_info, indent=1))
        if replay_info and replay_info.get("violation"):
            violations = 1
            out.append("VIOLATION property=%s replay=%s" % (pid, path))
            rc = 1
        elif res["failed"]:
            violations = 1
            out.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
            rc = 1
        elif res["vacuous"]:
            print("ERROR vacuous proof: %s" % "; ".join(res["vacuous"]))
            rc = 2
        if (res["unsupported"] or res["dep_failed"]) and rc == 0:
            # a contract this property builds on, which belongs to another property (whose own check reports it), is not
            # discharged: this property is then only decided by the bounded replay
            bounded = ["%s: %s" % (r["task"], r["error"].split("\n")[0]) for r in res["unsupported"]]
            bounded += sorted({"%s not discharged (decided under %s)" % (o["name"], r["dep"]) for r, o in res["dep_failed"]})
            if replay_info is None or replay_info.get("error"):
                print("ERROR %s: function left the verifier's reach and no bounded check is available: %s %s" % (
                    pid, bounded, (replay_info or {}).get("error")))
                rc = 2
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "proof",
          "coverage": {
              "obligations": res["obligations"], "discharged": res["discharged"],
              "discharged_by_simplification": res["trivial"], "discharged_by_solver": res["solver"],
              "solver_seconds": round(res["solver_s"], 2), "generation_seconds": round(res.get("gen_s", 0), 2),
              "checker_cmd": "python3-vt engine/check.py %s (z3-new 5.x, then cvc5 1.1, then z3 4.8 on each obligation)" % pid,
              "functions_under_contract": [{"function": r["func"], "task": r["task"], "obligations": len(r["obs"]),
                                            "paths": r["paths"], "covers": r["covers"]} for r in
                                           sorted(res["tasks"], key=lambda r: r["task"])],
              "inlined_bodies": sorted({x for r in res["tasks"] for x in r["inlined"]}),
              "contracts_used_at_calls": sorted({x for r in res["tasks"] for x in r["contracts"]}),
              "library_contracts_assumed": sorted({x for r in res["tasks"] for x in r["lib"]}),
              "bounded_stand_ins": bounded,
              "bounded_cross_check": replay_info,
              "trusted_base": TRUSTED + getattr(mod, "TRUSTED", []),
          },
          "assumptions": list(getattr(mod, "ASSUMES", [])) + sorted({x for r in res["tasks"] for x in r["notes"]}),
          "wall_s": round(time.time() - t0, 2), "violations": violations}
    if not only:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for l in known_findings():
        if l.startswith("finding:") and "property=%s " % pid in l:
            print("KNOWN-FINDING: " + l[len("finding:"):].strip())
    for l in out:
        print(l)
    print("%s: %d obligations, %d discharged, %d failed, %d functions, %.1fs solver, %.1fs wall%s" % (
        pid, res["obligations"], res["discharged"], len(res["failed"]), len(res["tasks"]), res["solver_s"], time.time() - t0,
        "; bounded: %s" % bounded if bounded else ""))
    if res["obligations"] == 0 and rc == 0 and not bounded:
        print("ERROR no obligations were generated")
        rc = 2
    if res.get("tmp") and not verbose:
        shutil.rmtree(res["tmp"], ignore_errors=True)
    sys.exit(rc)


TRUSTED = [
    "clang 18 AST of the translation units (frontend.py), with the same defines and include path as the build",
    "engine/interp.py symbolic execution and verification-condition generation",
    "engine/stdlib.py assumed contracts of the C++ standard library, protobuf accessors and absl",
    "SMT solvers (z3, cvc5)",
]

if __name__ == "__main__":
    main()
