"""Discharge of obligations by SMT solvers (z3 5.x, cvc5, z3 4.8 as fall-backs), in parallel processes."""
import z3, os, sys, subprocess, time, tempfile, re, threading
import concurrent.futures as cf
from . import arith as AR

SOLVERS = {
    "z3-new": lambda f, t: ["z3-new", "-T:%d" % t, f],
    "cvc5": lambda f, t: ["cvc5", "--tlimit=%d" % (t * 1000), "--lang=smt2", f],
    "z3": lambda f, t: ["z3", "-T:%d" % t, f],
}


def negated(ob, mode):
    fs = list(ob.hyps) + [z3.Not(ob.goal)]
    ax = AR.axioms_for(fs, mode)
    return fs + ax


def script(fs):
    s = z3.Solver()
    s.add(*fs)
    t = s.to_smt2()
    return t


def slice_hyps(hyps, goal):
    """Drop hypotheses not connected (through shared constants) with the goal: sound, keeps queries small."""
    def consts(f, cache={}):
        k = f.get_id()
        if k in cache:
            return cache[k][0]
        out = set()
        seen = set()
        st = [f]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                st.append(x.body())
                continue
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    if x.num_args() == 0 or x.decl().name() not in AXIOMATIC:
                        out.add(x.decl().name())
                st.extend(x.children())
        cache[k] = (out, f)
        return out
    AXIOMATIC = {"rnd32", "rnd64", "fmul", "fdiv", "fsqrt", "log", "fexp", "pow", "tdiv", "tmod"}
    todo = [(h, consts(h)) for h in hyps]
    cur = set(consts(goal))
    kept = [False] * len(todo)
    ch = True
    while ch:
        ch = False
        for i, (h, c) in enumerate(todo):
            if not kept[i] and (not c or c & cur):
                kept[i] = True
                if not c <= cur:
                    cur |= c
                    ch = True
    return [h for (h, c), k in zip(todo, kept) if k]


def run_solver(name, path, t):
    t0 = time.time()
    try:
        r = subprocess.run(SOLVERS[name](path, t), capture_output=True, text=True, timeout=t + 5)
        out = r.stdout.strip()
    except subprocess.TimeoutExpired:
        out = "timeout"
    first = out.split("\n")[0].strip() if out else "unknown"
    if first not in ("sat", "unsat", "unknown"):
        first = "unknown" if "timeout" in out or "unknown" in out or not out else "error: " + out[:200]
    return first, time.time() - t0, out


def discharge(smt, tmpdir, idx, plan):
    """plan: list of (solver, seconds).  Returns (status, solver, time, log)."""
    path = os.path.join(tmpdir, "o%d.smt2" % idx)
    with open(path, "w") as f:
        f.write(smt)
    total = 0.0
    log = []
    for name, t in plan:
        st, dt, out = run_solver(name, path, t)
        total += dt
        log.append("%s: %s (%.2fs)" % (name, st, dt))
        if st in ("sat", "unsat"):
            return st, name, total, log, path
    return "unknown", None, total, log, path


def by_cases(path, tmpdir, n):
    """Decide both ways the conditions of if-then-else terms in the goal (engine/split.py) and discharge every case."""
    t0 = time.time()
    pre = path[:-5] + ".case"
    try:
        r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "split.py"), path, pre, str(n)],
                           capture_output=True, text=True, timeout=30)
    except subprocess.TimeoutExpired:
        return "unknown", None, time.time() - t0, ["cases: timeout"], path
    files = r.stdout.split()
    names = set()
    for f in files:
        st = "unknown"
        for nm, t in (("z3-new", 2), ("z3", 10), ("cvc5", 4)):
            st, _, _ = run_solver(nm, f, t)
            if st in ("sat", "unsat"):
                names.add(nm)
                break
        if st != "unsat":
            return st if st == "sat" else "unknown", None, time.time() - t0, ["cases: %s (%.2fs)" % (st, time.time() - t0)], f if st == "sat" else path
    if not files:
        return "unknown", None, time.time() - t0, [], path
    return "unsat", "+".join(sorted(names)), time.time() - t0, ["cases: unsat (%.2fs)" % (time.time() - t0)], path


def model(path, t=10):
    """Values of the constants in a counterexample, from z3."""
    s = open(path).read()
    p2 = path + ".m.smt2"
    with open(p2, "w") as f:
        f.write(s + "\n(get-model)\n")
    _, _, out = run_solver("z3-new", p2, t)
    vals = {}
    for m in re.finditer(r"\(define-fun\s+(\|[^|]*\||\S+)\s+\(\)\s+(Int|Real|Bool)\s+(.*?)\)\s*(?=\(define-fun|\)\s*$)", out, re.S):
        v = parse_num(m.group(3).strip())
        if v is not None:
            vals[m.group(1).strip("|")] = v
    return vals


def parse_num(s):
    s = s.strip()
    if s in ("true", "false"):
        return s == "true"
    try:
        toks = re.findall(r"[()]|[^\s()]+", s)

        def ev(i):
            if toks[i] == "(":
                op = toks[i + 1]
                i += 2
                args = []
                while toks[i] != ")":
                    v, i = ev(i)
                    args.append(v)
                if op == "-":
                    r = -args[0] if len(args) == 1 else args[0] - args[1]
                elif op == "/":
                    r = args[0] / args[1]
                else:
                    raise ValueError
                return r, i + 1
            return float(toks[i]), i + 1
        return ev(0)[0]
    except Exception:
        return None
