"""Command line of the simulator.

    check.py run P01 [--tier quick|thorough] [--cases N] [--seconds S]
    check.py replay FILE            rerun a replay file, exit 1 if the violation reproduces
    check.py one P01 N [--seed S]   run one generated case and print its log
    check.py digests P01 A B        print the event log digests of cases A..B-1

Exit status of run: 0 held, 1 violated, 2 the check itself failed.
"""
import argparse
import copy
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time as _time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")

if __name__ == "__main__" and (os.environ.get("PYTHONHASHSEED") is None
                               or sys.pycache_prefix is None):
    # a fixed string hash, and never a stale byte code file of the code under test
    env = dict(os.environ)
    env.setdefault("PYTHONHASHSEED", "0")
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent/pycache")
    os.execve(sys.executable, [sys.executable] + sys.argv, env)

_clock = _time.monotonic          # the real one, taken before the simulator replaces it

sys.path.insert(0, os.path.join(REPO, "src"))
sys.path.insert(0, ROOT)

LEVEL = "exploration"
TIERS = {"quick": (4800, 75), "thorough": (400000, 3600)}
CHUNK = 8


def norm(msg):
    msg = re.sub(r"https?://[^ '\"]+|Z0FBQ[^ '\"]*|eyJ[^ '\"]*", "#", msg)
    return re.sub(r"[0-9a-f]{8,}|-?\d+(\.\d+)?", "#", msg)[:90]


# ------------------------------------------------------------------ known findings
def known_findings():
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)", line.strip())
            if m:
                out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return out


# ------------------------------------------------------------------ running cases
def run_case(case, want_log=False):
    from sim import env
    from sim.engine import Sim
    env.ACTIVE[0] += 1
    try:
        s = Sim(copy.deepcopy(case))
        s.run()
    finally:
        env.ACTIVE[0] -= 1
    return s


def relevant(s, prop):
    return [v for v in s.violations if prop in v["props"]]


def _worker(args):
    prop, seed, start, n = args
    from sim import gen
    out = []
    for i in range(start, start + n):
        case = gen.gen_case(prop, seed, i)
        case["target"] = prop
        rec = {"i": i}
        try:
            s = run_case(case)
        except Exception:
            rec["error"] = traceback.format_exc()[-3000:]
            out.append(rec)
            continue
        rec.update(digest=s.digest(), stats=s.stats, hits=s.hits.get(prop, 0), ops=s.n_ops,
                   sim=s.tmax - s.t0, sched=s.sched_digest(), steps=s.steps)
        rec["side"] = [v["props"] for v in s.violations if prop not in v["props"]]
        v = relevant(s, prop)
        if v:
            rec["viol"] = v[0]
        out.append(rec)
    return out


# ------------------------------------------------------------------ minimising
class Shrinker:
    def __init__(self, case, prop, cls, deadline):
        self.case, self.prop, self.cls = case, prop, cls
        self.deadline = deadline
        self.runs = 0

    def fails(self, case):
        if _clock() > self.deadline:
            return False
        self.runs += 1
        try:
            s = run_case(case)
        except Exception:
            return False
        return any(norm(v["msg"]) == self.cls for v in relevant(s, self.prop))

    def attempt(self, **kw):
        c = dict(self.case, **kw)
        if self.fails(c):
            self.case = c
            return True
        return False

    def ops(self):
        ops = self.case["ops"]
        n = 2
        while len(ops) >= 2:
            size = max(1, len(ops) // n)
            done = False
            i = 0
            while i < len(ops):
                cand = ops[:i] + ops[i + size:]
                if cand and self.attempt(ops=cand):
                    ops = self.case["ops"]
                    n = max(n - 1, 2)
                    done = True
                else:
                    i += size
            if not done:
                if size == 1:
                    break
                n = min(len(ops), n * 2)

    def args(self):
        for i in range(len(self.case["ops"])):
            for k in sorted(self.case["ops"][i]):
                if k in ("op", "id"):
                    continue
                ops = copy.deepcopy(self.case["ops"])
                ops[i].pop(k)
                self.attempt(ops=ops)

    def cfg(self):
        from sim.world import default_cfg
        base = default_cfg()
        for k in sorted(self.case["cfg"]):
            if k in base and self.case["cfg"][k] != base[k]:
                cfg = copy.deepcopy(self.case["cfg"])
                cfg[k] = copy.deepcopy(base[k])
                self.attempt(cfg=cfg)
        while len(self.case["cfg"]["clients"]) > 1:
            cfg = copy.deepcopy(self.case["cfg"])
            cfg["clients"].pop()
            if not self.attempt(cfg=cfg):
                break

    def go(self):
        before = None
        while before != json.dumps(self.case, sort_keys=True) and _clock() < self.deadline:
            before = json.dumps(self.case, sort_keys=True)
            self.ops()
            self.args()
            self.cfg()
        return self.case


def write_replay(prop, case, seed, index):
    s = run_case(case)
    v = relevant(s, prop)[0]
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (prop, seed, index))
    with open(path, "w") as f:
        json.dump({"property": prop, "seed": seed, "index": index, "case": case,
                   "violation": v, "log_digest": s.digest(), "trace": s.log}, f, indent=1)
    return path, v, s


def replay(path):
    d = json.load(open(path))
    s = run_case(d["case"])
    for line in s.log:
        print(line)
    v = relevant(s, d["property"])
    same = bool(v) and v[0]["msg"] == d["violation"]["msg"] and s.digest() == d["log_digest"]
    if v:
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        print(v[0]["msg"])
        print("reproduced exactly" if same else "a violation, but not the recorded execution")
        return 1
    print("no violation of %s" % d["property"])
    return 0


# ------------------------------------------------------------------ the check
REAL = ["oidcop (whole package: server, endpoints, session manager, grants, tokens, authn, "
        "client authn, cookies, userinfo, claims, add-ons)", "oidcmsg", "cryptojwt",
        "JSON export/import of provider state"]
STUB = ["wall clock and timers (simulated)", "secrets/uuid/os.urandom (seeded)",
        "outgoing HTTP (simulated network with faults)",
        "web framework views (transcribed from flask_op)", "user agents and relying parties",
        "RSA key generation and slow RSA checks (cached)"]


def run(prop, tier, seed, cases, seconds, procs):
    t0 = _clock()
    from sim import gen                                  # noqa: F401  import before forking
    from sim.engine import Sim                           # noqa: F401
    findings = [f for f in known_findings() if f[0] == prop]
    known_hit = {}
    agg = {"runs": 0, "ops": 0, "sim": 0.0, "stats": {}, "hits": 0, "steps": 0, "skipped": 0}
    digests, trivial, scheds = set(), 0, set()
    errors, viols, samples = [], [], []
    side = {}
    jobs = ((prop, seed, i, min(CHUNK, cases - i)) for i in range(0, cases, CHUNK))
    ctx = mp.get_context("fork")
    pool = ctx.Pool(procs)
    stop_at = None
    done = True
    try:
        for res in pool.imap(_worker, jobs):
            for r in res:
                if "error" in r:
                    errors.append((r["i"], r["error"]))
                    continue
                agg["runs"] += 1
                agg["ops"] += r["ops"]
                agg["sim"] += r["sim"]
                agg["steps"] += r["steps"]
                for k, v in r["stats"].items():
                    agg["stats"][k] = agg["stats"].get(k, 0) + v
                agg["hits"] += r["hits"]
                if r["hits"]:
                    digests.add(r["digest"])
                else:
                    trivial += 1
                scheds.add(r["sched"])
                for p in r["side"]:
                    side[",".join(p)] = side.get(",".join(p), 0) + 1
                if "viol" in r:
                    for f in findings:
                        if f[1].search(r["viol"]["msg"]):
                            known_hit[f[2]] = known_hit.get(f[2], 0) + 1
                            break
                    else:
                        viols.append((r["i"], r["viol"]))
            if viols or len(errors) > 20:
                break
            if _clock() - t0 > seconds:
                done = False
                break
    finally:
        pool.terminate()
        pool.join()
    wall = _clock() - t0
    for k in range(2):
        c = gen.gen_case(prop, seed, k)
        samples.append({"index": k, "configuration": {x: y for x, y in c["cfg"].items()
                                                      if x not in ("clients",)},
                        "ops": c["ops"][:12], "ops_total": len(c["ops"])})
    faults = {k[6:]: v for k, v in sorted(agg["stats"].items()) if k.startswith("fault_")}
    faults["in_flight_request_delayed_past_others"] = agg["stats"].get("sched_released", 0)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL,
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(digests),
            "rule": "A case is one seeded configuration, operation sequence, schedule and fault "
                    "plan; it is one simulated run of the whole provider. Non-trivial: the "
                    "oracle of this property decided something at least once in the run "
                    "(%d oracle decisions in all); distinct: different event logs." % agg["hits"],
            "samples": samples,
            "trivial_runs": trivial,
            "runs_per_hour": int(agg["runs"] / wall * 3600),
            "seeds_per_hour": int(agg["runs"] / wall * 3600),
            "operations": agg["ops"],
            "provider_calls": agg["steps"],
            "simulated_seconds": int(agg["sim"]),
            "faults_injected": faults,
            "operations_by_kind": {k[3:]: v for k, v in sorted(agg["stats"].items())
                                   if k.startswith("op_")},
            "distinct_event_logs": len(digests),
            "distinct_schedules": len(scheds),
            "distinct_schedules_measure": "different orders of the parse/process phases of "
                                          "overlapping requests, restarts and clock steps",
            "stopped_by": "all cases run" if done and not viols else
                          ("violation" if viols else "time limit"),
            "real_components": REAL, "stubbed_components": STUB,
            "other_properties_seen_violated": side,
            "known_findings_hit": known_hit,
        },
        "assumptions": [
            "requests interleave at the boundary between parsing and processing a request, "
            "not inside a phase (the code is synchronous; one phase runs to completion)",
            "crypto primitives are sound; RSA keys are fixed test keys",
        ],
        "wall_s": round(wall, 2),
        "violations": len(viols),
    }
    rc = 0
    if viols:
        i, v = min(viols, key=lambda x: x[0])
        case = gen.gen_case(prop, seed, i)
        case["target"] = prop
        n_ops = len(case["ops"])
        sh = Shrinker(case, prop, norm(v["msg"]), _clock() + (60 if tier == "quick" else 300))
        small = sh.go()
        path, v2, s = write_replay(prop, small, seed, i)
        rep = subprocess.run([sys.executable, os.path.abspath(__file__), "replay", path],
                             capture_output=True, text=True,
                             env=dict(os.environ, PYTHONHASHSEED="0"))
        exact = "reproduced exactly" in rep.stdout
        print("seed %s case %s: %d operations, minimised to %d in %d runs" % (
            seed, i, n_ops, len(small["ops"]), sh.runs))
        for op in small["ops"]:
            print("   ", json.dumps(op))
        for line in s.log:
            print("   |", line[:300])
        print("%s: %s" % (prop, v2["msg"][:600]))
        print("replayed in a fresh process: %s" % ("identical" if exact else "NOT identical"))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        ev["coverage"]["violation"] = {"message": v2["msg"], "case": i, "minimised_ops":
                                       small["ops"], "replay": path, "replays_exactly": exact}
        rc = 1
    elif errors:
        print("the simulator failed on %d runs, first: case %s\n%s" % (
            len(errors), errors[0][0], errors[0][1]), file=sys.stderr)
        rc = 2
    ev["coverage"]["aborted_runs"] = len(errors)
    for f in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, f[2]))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s seed %s: %d runs (%d distinct non-trivial), %d operations, %d s simulated, "
          "%d faults, %.1f s -> %s" % (
              prop, tier, seed, agg["runs"], len(digests), agg["ops"], agg["sim"],
              sum(faults.values()), wall, {0: "held", 1: "VIOLATED", 2: "ERROR"}[rc]))
    return rc


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["run", "replay", "one", "digests"])
    ap.add_argument("what")
    ap.add_argument("a", nargs="?", type=int)
    ap.add_argument("b", nargs="?", type=int)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--procs", type=int, default=os.cpu_count() or 4)
    a = ap.parse_args()
    if a.cmd == "replay":
        return replay(a.what)
    if a.cmd == "run":
        n, s = TIERS.get(a.tier, TIERS["quick"])
        return run(a.what, a.tier, a.seed, a.cases or n, a.seconds or s, min(a.procs, 16))
    from sim import gen
    if a.cmd == "one":
        case = gen.gen_case(a.what, a.seed, a.a)
        case["target"] = a.what
        s = run_case(case)
        for line in s.log:
            print(line)
        for v in s.violations:
            print(v)
        return 1 if relevant(s, a.what) else 0
    for i in range(a.a, a.b):
        case = gen.gen_case(a.what, a.seed, i)
        case["target"] = a.what
        print(i, run_case(case).digest())
    return 0


if __name__ == "__main__":
    sys.exit(main())
