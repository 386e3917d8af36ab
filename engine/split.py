"""Case split of one query: the conditions of if-then-else terms in the negated goal (the last assertions) are decided both ways,
which yields a complete set of simpler queries.  Usage: split.py QUERY.smt2 PREFIX [MAX]; prints the files of the cases."""
import sys
import z3


def conditions(f):
    """Conditions of if-then-else terms of sort other than Bool outside quantifiers, outermost first."""
    out, seen, st = [], set(), [f]
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x) or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_ITE:
            c = x.arg(0)
            while z3.is_not(c):
                c = c.arg(0)
            if not z3.is_true(c) and not z3.is_false(c) and not any(c.eq(y) for y in out) and "(let" not in c.sexpr()[:5]:
                out.append(c)
        st.extend(x.children())
    return out


def cases(fs, n):
    goal = fs[goal_index(fs)]
    cs = [c for c in conditions(goal) if not z3.is_and(c) and not z3.is_or(c)][:n]
    res = [[]]
    for c in cs:
        res = [r + [(c, v)] for r in res for v in (True, False)]
    return cs, res


def goal_index(fs):
    ite = [i for i, f in enumerate(fs) if z3.is_not(f) and conditions(f)]
    return ite[-1] if ite else len(fs) - 1


def main():
    fs = list(z3.parse_smt2_file(sys.argv[1]))
    cs, res = cases(fs, int(sys.argv[3]) if len(sys.argv) > 3 else 3)
    if not cs:
        return
    for i, r in enumerate(res):
        sub = [(c, z3.BoolVal(v)) for c, v in r]
        gs = [z3.simplify(z3.substitute(f, *sub)) for f in fs] + [c if v else z3.Not(c) for c, v in r]
        s = z3.Solver()
        s.add(*gs)
        p = "%s.%d.smt2" % (sys.argv[2], i)
        with open(p, "w") as f:
            f.write(s.to_smt2())
        print(p)


if __name__ == "__main__":
    main()
