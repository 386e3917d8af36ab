"""Replay against the real code: build an oracle program with /repo's current sources and search.

The oracle (replay/<name>.cc) is an independent reference for the observable behaviour of a property.
It runs the verifier's counterexample values (hints) first and systematically generated cases after.
It serves three purposes: to turn a failed obligation into a concrete failing input, to stand in (bounded,
labelled so) for a function that left the verifier's reach, and as a cross-check in the thorough tier.
"""
import os, subprocess, tempfile, shutil, re, time
import concurrent.futures as cf
from . import frontend

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = frontend.REPO

ABSL = ("-labsl_statusor -labsl_status -labsl_cord -labsl_cordz_info -labsl_cord_internal -labsl_cordz_functions "
        "-labsl_exponential_biased -labsl_cordz_handle -labsl_synchronization -labsl_graphcycles_internal "
        "-labsl_bad_optional_access -labsl_stacktrace -labsl_strerror -labsl_symbolize -labsl_debugging_internal "
        "-labsl_demangle_internal -labsl_malloc_internal -labsl_bad_variant_access -labsl_str_format_internal -labsl_time "
        "-labsl_civil_time -labsl_strings -labsl_strings_internal -lrt -labsl_base -labsl_spinlock_wait -labsl_int128 "
        "-labsl_throw_delegate -labsl_raw_logging_internal -labsl_log_severity -labsl_time_zone").split()
FLAGS = "-labsl_flags_parse -labsl_flags_usage -labsl_flags_usage_internal -labsl_flags_internal -labsl_flags_marshalling -labsl_flags_reflection -labsl_flags_private_handle_accessor -labsl_flags_commandlineflag -labsl_flags_commandlineflag_internal -labsl_flags_config -labsl_flags_program_name -labsl_hash -labsl_city -labsl_low_level_hash -labsl_raw_hash_set -labsl_hashtablez_sampler".split()
IND = ["indicators/%s.cc" % n for n in ("exponential_moving_average", "last_n_ohlc_ticks", "moving_average_convergence_divergence",
                                        "relative_strength_index", "simple_moving_average", "stochastic_oscillator", "util",
                                        "volatility")]
SAN = ["-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]
KINDS = {
    "account": (["base/account.cc"], ["base/base"], [], []),
    "history": (["base/history.cc", "base/side_input.cc"], ["base/base"], [], SAN),
    "indicators": (IND, ["base/base"], [], SAN),
    "traders": (["base/account.cc", "traders/rebalancing_trader.cc", "traders/stop_trader.cc", "traders/trader_factory.cc"] + IND,
                ["base/base", "traders/trader_config"], ABSL, SAN),
    "eval": (["base/account.cc", "base/history.cc", "base/side_input.cc", "eval/eval.cc", "util/time.cc", "logging/csv_logger.cc"] + IND,
             ["base/base", "eval/eval"], ABSL, SAN),
    "csv": (["logging/csv_logger.cc"], ["base/base"], ABSL, SAN),
    "util": (["util/time.cc"], ["base/base"], ABSL, SAN),
    "convert": (["util/time.cc", "base/history.cc"], ["base/base"], FLAGS + ABSL, SAN),
}
CXX = ["g++", "-std=c++17", "-O1", "-g0", "-w", "-DHAVE_ZLIB"]


def build(kind, oracle, tmp):
    srcs, protos, libs, extra = KINDS[kind]
    gen = os.path.join(tmp, "gen")
    frontend.gen_protos(gen)
    inc = ["-I" + REPO, "-I" + gen, "-I" + os.path.join(VERIF, "replay")]
    jobs = []
    for s in srcs:
        p = os.path.join(REPO, s)
        if os.path.exists(p):
            jobs.append((p, os.path.join(tmp, s.replace("/", "_") + ".o")))
    for p in protos:
        jobs.append((os.path.join(gen, p + ".pb.cc"), os.path.join(tmp, p.replace("/", "_") + ".pb.o")))
    jobs.append((os.path.join(VERIF, "replay", oracle), os.path.join(tmp, "oracle.o")))

    def cc(j):
        r = subprocess.run(CXX + extra + inc + ["-c", j[0], "-o", j[1]], capture_output=True, text=True)
        return r.returncode, r.stderr
    with cf.ThreadPoolExecutor(8) as tp:
        for rc, err in tp.map(cc, jobs):
            if rc:
                raise RuntimeError("compiling the replay program: " + err[-1500:])
    exe = os.path.join(tmp, "oracle")
    r = subprocess.run(["g++"] + extra + [o for _, o in jobs] + ["-o", exe] + libs + libs + ["-lprotobuf", "-lz", "-pthread"],
                       capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("linking the replay program: " + r.stderr[-1500:])
    return exe


def norm(name):
    return re.sub(r"![0-9]+", "", name)


def search(pid, rp, seed, budget, hints, procs=7):
    """hints: list of {name: value}.  Returns {"violation": text|None, "cases": n} or {"error": text}."""
    oracle, props, kind = rp
    if not os.path.exists(os.path.join(VERIF, "replay", oracle)):
        return {"error": "no replay program"}
    tmp = tempfile.mkdtemp(prefix="verif_replay_")
    t0 = time.time()
    try:
        exe = build(kind, oracle, tmp)
        hf = "-"
        if hints:
            hf = os.path.join(tmp, "hints.txt")
            with open(hf, "w") as f:
                for h in hints:
                    for k, v in h.items():
                        try:
                            f.write("%s=%r\n" % (norm(k), float(v)))
                        except (OverflowError, ValueError):
                            pass
                    f.write("--\n")
        ps = []
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0:handle_segv=0",
                   UBSAN_OPTIONS="halt_on_error=0", TZ="UTC")
        for pr in props:
            for k in range(max(1, procs // len(props))):
                d = os.path.join(tmp, "run%d" % len(ps))
                os.mkdir(d)
                o, e = open(d + ".out", "w"), open(d + ".err", "w")
                ps.append((pr, k, subprocess.Popen([exe, pr, str(seed + 100 * k), str(budget), hf if k % 2 == 0 else "-"],
                                                   stdout=o, stderr=e, cwd=d, env=env), d, o, e))
        deadline = time.time() + budget + 90
        cases = 0
        viol = None
        err = None
        done = set()
        while len(done) < len(ps) and time.time() < deadline and viol is None:
            for i, (pr, k, p, d, o, e) in enumerate(ps):
                if i in done or p.poll() is None:
                    continue
                done.add(i)
                out = open(d + ".out", errors="replace").read()
                m = re.search(r"REPLAY-CLEAN (\d+) cases", out)
                if m:
                    cases += int(m.group(1))
                elif "REPLAY-VIOLATION" in out:
                    viol = out[out.index("REPLAY-VIOLATION"):][:6000]
                    viol += "\n(reproduce: oracle %s %s, seed %d, process %d, hints %s)\n" % (oracle, pr, seed, k, hf if k % 2 == 0 else "-")
                    es = open(d + ".err", errors="replace").read()
                    if es:
                        viol += "stderr: " + es[:2000]
                    break
                else:
                    es = open(d + ".err", errors="replace").read()
                    if "AddressSanitizer" in es or "Assertion" in es or p.returncode < 0:
                        viol = "REPLAY-VIOLATION memory error or abort in the code under test\n" + es[:4000]
                        break
                    err = "oracle exited with %d: %s" % (p.returncode, (out + es)[:500])
            time.sleep(0.05)
        for pr, k, p, d, o, e in ps:
            if p.poll() is None:
                p.kill()
            p.wait()
            o.close()
            e.close()
        r = {"program": "replay/" + oracle, "processes": len(ps), "cases": cases, "seconds": round(time.time() - t0, 1),
             "violation": viol}
        if err and not viol:
            r["error"] = err
        return r
    except (RuntimeError, frontend.ExtractionError) as e:
        return {"error": str(e)}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
