#!/usr/bin/env python3
"""Confirm and store a planted bug under /verif/seeded/<id>/ (see DESIGN.md, "Planted bugs").

plant(id, prop, edits, demo_cc, kind, needs, breaks): applies the edits to /repo's working tree, builds, runs the
tests, runs the demo with and without the change, undoes the change and stores it when everything is as required.
"""
import json, os, subprocess, sys
REPO, VERIF = "/repo", "/verif"
ABSL = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0,'/verif'); from engine import replay; print(' '.join(replay.ABSL))"],
                      capture_output=True, text=True).stdout.strip()
FLAGS = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0,'/verif'); from engine import replay; print(' '.join(replay.FLAGS))"],
                       capture_output=True, text=True).stdout.strip()
IND = " ".join("indicators/%s.cc" % n for n in ("exponential_moving_average", "last_n_ohlc_ticks", "moving_average_convergence_divergence",
               "relative_strength_index", "simple_moving_average", "stochastic_oscillator", "util", "volatility"))
KINDS = {
    "account": ("base/account.cc", "base/base.proto", ""),
    "history": ("base/history.cc base/side_input.cc", "base/base.proto", ""),
    "indicators": (IND, "base/base.proto", ""),
    "traders": ("base/account.cc traders/*.cc " + IND, "base/base.proto traders/trader_config.proto", ABSL),
    "eval": ("base/account.cc base/history.cc base/side_input.cc eval/eval.cc util/time.cc logging/csv_logger.cc " + IND, "base/base.proto eval/eval.proto", ABSL),
    "util": ("util/time.cc", "base/base.proto", ABSL),
    "csv": ("logging/csv_logger.cc", "base/base.proto", ABSL),
    "convert": ("util/time.cc base/history.cc", "base/base.proto", FLAGS + " " + ABSL),
}
SH = """#!/bin/bash
# Exit 0 when the behaviour is right, non-zero otherwise.  Runs in the repository's root.
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
protoc -I. --cpp_out="$tmp" {protos} || exit 3
g++ -std=c++17 -O1 -w -DHAVE_ZLIB -I. -I"$tmp" "$here/demo.cc" {srcs} {pbs} -o "$tmp/demo" {libs} {libs} -lprotobuf -lz -pthread || exit 3
cd "$tmp" && TZ=UTC timeout 60 ./demo
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def tests():
    base = json.load(open("/opt/vp/BASELINE.json"))
    sh("bash /opt/vp/test.sh /tmp/plant_out.json")
    out = json.load(open("/tmp/plant_out.json"))
    def passed(d):
        s = set()
        def walk(x):
            if isinstance(x, dict):
                for k, v in x.items():
                    if k == "passed" and isinstance(v, list):
                        s.update(map(str, v))
                    elif k in ("stable", "stable_pass", "reliable") and isinstance(v, list):
                        s.update(map(str, v))
                    else:
                        walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        walk(d)
        return s
    b, o = passed(base), passed(out)
    return sorted(b - o), len(b)


def plant(bid, prop, edits, demo, kind, needs, breaks, dry=False):
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    srcs, protos, libs = KINDS[kind]
    d = os.path.join(VERIF, "seeded", bid)
    os.makedirs(d, exist_ok=True)
    pbs = " ".join('"$tmp"/' + p.replace(".proto", ".pb.cc") for p in protos.split())
    open(d + "/demo.sh", "w").write(SH.format(protos=protos, srcs=srcs, pbs=pbs, libs=libs))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cc", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    r0 = sh("bash %s/demo.sh" % d, cwd=REPO)
    if r0.returncode:
        print(bid, "demo FAILS on the unchanged tree", r0.returncode, (r0.stdout + r0.stderr)[-1500:])
        ok = False
    try:
        for f, old, new in edits:
            p = os.path.join(REPO, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            print(bid, "BUILD FAILS", b.stdout[-800:])
            ok = False
        else:
            miss, n = tests()
            if miss:
                print(bid, "TESTS FAIL", miss[:6])
                ok = False
            r1 = sh("bash %s/demo.sh" % d, cwd=REPO)
            if r1.returncode in (0, 3):
                print(bid, "demo does not fail with the patch", r1.returncode, r1.stderr[-500:])
                ok = False
            else:
                print(bid, "demo with patch:", r1.returncode, r1.stdout.strip()[-200:])
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    print(bid, "KEPT" if ok else "REJECTED")
    if not ok:
        sh("rm -rf %s" % d)
    return ok
