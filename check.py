#!/usr/bin/env python3
"""Decide one property on /repo's current tree.  usage: check.py <property id> [quick|thorough]

1. contracts: the functions the property depends on are extracted from /repo/src, the contracts of
   /verif/contracts are spliced in, and Verus must discharge every obligation (vlayer.py).
2. bounded: the same contracts, in executable form, are checked on executions of the real crate
   (harness/), within a time bound.  This part is bounded and never counted as proved.
exit 0: held on everything explored.  exit 1: a VIOLATION line.  exit 2: the check itself broke.
"""
import json, os, subprocess, sys, time, re, threading

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SQS_REPO", "/repo")
PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
SECS = {"quick": 25, "thorough": 420}[TIER]
TARGET = os.path.join(VERIF, "harness", "target")
BIN = os.path.join(TARGET, "release", "sqs-contracts")
LEVELS = json.load(open(os.path.join(VERIF, "levels.json")))
t0 = time.time()


def die(msg):
    print("CHECK-ERROR property=%s %s" % (PROP, msg))
    sys.exit(2)


def build():
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    r = subprocess.run(["cargo", "build", "--release", "--offline", "--target-dir", TARGET, "--quiet"], cwd=os.path.join(VERIF, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if r.returncode != 0:
        die("the harness does not build against the current tree:\n" + r.stdout[-3000:])


def explore(secs, seed):
    """bounded contract-checked executions -> parsed result"""
    try:
        r = subprocess.run([BIN, "--prop", PROP, "--seed", str(seed), "--secs", str(secs)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=secs + 150)
    except subprocess.TimeoutExpired:
        die("the bounded executions do not end")
    try:
        return json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        return {"fails": [{"case": "?", "props": "C19/" + PROP, "msg": "the process running the real code ended with status %d: %s" % (r.returncode, r.stderr[-500:]), "trace": ""}], "crashed": True} if r.returncode < 0 else die("unexpected harness output, status %d: %s %s" % (r.returncode, r.stdout[-500:], r.stderr[-500:]))


def write_replay(name, text):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name)
    open(p, "w").write(text)
    return os.path.relpath(p, VERIF)


def main():
    verus = {}

    def run_verus():
        try:
            import vlayer
            verus.update(vlayer.run(PROP, REPO, TIER))
        except ImportError:
            verus.update({"status": "none"})
        except Exception as e:  # a broken proof run decides nothing
            import traceback
            verus.update({"status": "undecided", "why": ["internal: %r" % e], "trace": traceback.format_exc()})

    th = threading.Thread(target=run_verus)
    th.start()
    build()
    th.join()
    violations = []
    suspicious = verus.get("status") == "failed"
    res = explore(SECS * (2 if suspicious and TIER == "quick" else 1), SEED)
    fails = res.get("fails", [])
    for f in fails[:3]:
        p = write_replay("%s-%s.txt" % (PROP, re.sub(r"\W+", "_", f["case"])),
                         "property %s broken on the real code\ncontract: %s\ncase: %s\nreplay: cd %s/harness && cargo build --release --offline && target/release/sqs-contracts --prop %s --case %s\n\nhistory:\n%s\n" % (PROP, f["msg"], f["case"], VERIF, PROP, f["case"], f["trace"])
                         + ("\nfailed obligations:\n" + verus.get("report", "") if suspicious else ""))
        violations.append((p, f["msg"].splitlines()[0][:300], ""))
    if suspicious and not violations:
        p = write_replay("%s-obligation.txt" % PROP, "property %s: obligations that no longer hold for the current tree\n\n%s\n" % (PROP, verus.get("report", "")))
        violations.append((p, "failed obligation: " + "; ".join(verus.get("failed", []))[:300], " no-failing-input-found"))

    level = LEVELS[PROP]
    cov = {}
    if verus.get("status", "none") != "none":
        cov.update({k: verus[k] for k in ("obligations", "discharged", "checker_cmd", "trusted_base", "functions_under_contract", "smt_time_s", "verus_wall_s", "backend", "proved", "vacuity_checks") if k in verus})
        cov["proof_status"] = verus["status"]
        if verus.get("why"):
            cov["undecided_because"] = verus["why"]
    cov.update({"evaluations": res.get("cases", 0), "distinct_nontrivial": res.get("distinct", 0),
                "rule": "Bounded part (never counted as proved). A case is one seeded, randomly generated history on one configuration (geometry, page count, range position, cache type, fault plan) executed on the real crate with its contract checked after every call; non-trivial: at least one contract was evaluated; distinct: different engine/configuration/history text.",
                "samples": res.get("samples", []), "bounded_operations": res.get("ops", 0), "bounded_contract_evaluations": res.get("checks", 0),
                "crash_points": res.get("crash_points", 0), "injected_faults": res.get("faults", 0), "page_wraps": res.get("wraps", 0), "cases_per_engine": res.get("per_engine", {}), "bound": "%d s on 8 threads, seed %d" % (SECS, SEED)})
    ev = {"property": PROP, "tier": TIER, "seed": SEED, "level": level["level"], "coverage": cov,
          "assumptions": level.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    if level["level"] == "proof" and "obligations" not in cov:
        ev["coverage"].update({"obligations": verus.get("obligations", 0), "discharged": verus.get("discharged", 0), "checker_cmd": "verus", "trusted_base": []})
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % PROP)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", PROP + ".json"))
    if verus.get("status") == "undecided":
        print("UNDECIDED-PROOF property=%s (%s); bounded executions decide" % (PROP, "; ".join(verus.get("why", []))[:400]))
    for p, msg, tail in violations:
        print("  " + msg)
        print("VIOLATION property=%s replay=%s%s" % (PROP, p, tail))
    if violations:
        sys.exit(1)
    print("OK property=%s cases=%d obligations=%s discharged=%s wall=%.0fs" % (PROP, res.get("cases", 0), cov.get("obligations"), cov.get("discharged"), time.time() - t0))


main()
