"""Writes MANIFEST.json from properties.jsonl and specs/."""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
NA = {}
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(V, "specs", i + ".py")):
        na.append({"property": i, "reason": NA.get(i, "no check is claimed yet: its contracts are still being written")})
        continue
    m = importlib.import_module("specs." + i)
    checks.append({
        "property": i,
        "quick_cmd": "python3-vt engine/check.py %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough python3-vt engine/check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "contract-based deductive verification: contracts and loop invariants on the real functions, "
                     "verification conditions from clang's AST of /repo, discharged by SMT solvers"
                     + (getattr(m, "TECH", "")),
        "level": getattr(m, "LEVEL", "proof"),
        "level_note": "Unbounded proof over all inputs and iterations of the functions named in the evidence file. Assumes: "
                      + "; ".join(m.ASSUMES) + ". Trusts the clang AST, the verification-condition generator in engine/, the "
                      "assumed library contracts in engine/stdlib.py and the SMT solvers." + getattr(m, "NOTE", ""),
    })
M = {"version": 1,
     "setup_cmd": "python3-vt -m compileall -q engine specs && python3-vt -c 'import z3, json' && which clang++ protoc z3-new cvc5 z3",
     "hooks": {"guard": "none", "enable": "no hooks: the verified text is the unannotated source; contracts live in /verif/specs"},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Each check extracts the AST of /repo's current sources, generates and discharges all obligations."}
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(M, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "claimed", len(na), "not")
