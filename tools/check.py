#!/usr/bin/env python3
"""check.py PROPERTY - decides one property by seeded deterministic simulation.

Builds the simulator from /repo's working tree, runs many seeds of the property's
profiles (tools/plan.py), gates, minimises and reports violations, and writes
/verif/evidence/<PROPERTY>.json.

Environment: VERIF_SEED (default 1), VERIF_TIER quick|thorough.
Exit: 0 held; 1 with "VIOLATION property=<id> replay=<path>"; anything else: the check itself failed.
"""
import sys, os, json, time, threading, subprocess, re, collections, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as builder
import plan
import simproc

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--thorough" in sys.argv: tier = "thorough"
    p = plan.PLAN[prop]
    t_start = time.time()
    variants = sorted({e.get("variant", "plain") for e in p["runs"]})
    exe = {v: builder.build(v) for v in variants}
    t_built = time.time()
    budget = p.get("budget", plan.BUDGET)[tier]
    # 1. known findings of this property
    known_lines = []
    for k in simproc.known_findings(prop):
        r = simproc.run_one(builder.build(k.get("variant", "plain")), simproc.replay_line(os.path.join(VERIF, k["replay"])))
        if r and any(t == k["tag"] for t, _ in simproc.viols(r)):
            known_lines.append(k); print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    # 2. the search
    st = search(p, tier, seed, exe, budget)
    # 3. gate, minimise, report
    rc = 0; reported = []; ungated = []
    for tag, cases in st["bad"].items():
        if len(reported) >= 3: break
        ok = False
        for case in cases[:6]:
            path, why = simproc.gate_and_minimise(prop, exe[case["variant"]], case, tag, plan.MIN_TIME[tier] if not reported else 8)
            if path: ok = True; reported.append((tag, case, path)); break
            ungated.append((tag, case["seed"], why))
    for tag, case, path in reported:
        print("violated: %s: %s" % (tag, case["text"]))
        print("VIOLATION property=%s replay=%s" % (prop, path)); rc = 1
    if not reported and (st["bad"] or st["mismatch"] or st["errors"]):
        print("check error: ungated=%s mismatch=%s errors=%s" % (ungated[:5], st["mismatch"][:5], st["errors"][:5]), file=sys.stderr); rc = 3
    # 4. evidence
    write_evidence(prop, tier, seed, p, st, reported, known_lines, t_start, t_built)
    print("%s %s: %d simulated runs, %d distinct, %.0f simulated s, %d states, %.1f s wall, %s" % (prop, tier, st["runs"], len(st["hashes"]), st["vt"] / 1e9, len(st["cov"]), time.time() - t_start, "violated" if rc == 1 else "held" if rc == 0 else "ERROR"))
    return rc

def search(p, tier, seed, exe, budget):
    """Runs seeds round robin over the profiles on all workers until the budget ends."""
    lock = threading.Lock()
    st = dict(runs=0, vt=0, cov=set(), hashes=set(), cnt=collections.Counter(), bad=collections.OrderedDict(), mismatch=[], errors=[], per=collections.Counter(), resampled=0, first={}, samples=[], nbad=0, curve=[])
    pat = []
    for i, e in enumerate(p["runs"]): pat += [i] * e.get("share", 1)
    # interleave shares
    pat.sort(); pat = [pat[(j * 7919) % len(pat)] for j in range(len(pat))] if len(pat) % 7919 else pat
    max_runs = budget["runs"]; t_end = time.time() + budget["time"]; nxt = [0]; stop = [False]
    base = seed * 1000003
    nw = os.cpu_count() or 8
    def case_of(n):
        e = p["runs"][pat[n % len(pat)]]
        return e["world"], e["profile"], base + n, e.get("variant", "plain")
    def take():
        with lock:
            if stop[0] or nxt[0] >= max_runs or time.time() > t_end: return None
            a = nxt[0]; n = 1 + min(39, max_runs - a - 1); nxt[0] = a + n; return range(a, a + n)
    def add(n, r, again):
        w, prof, s, v = case_of(n)
        with lock:
            if again:
                st["resampled"] += 1
                if st["first"].get(n) != r.get("hash", r.get("crash")): st["mismatch"].append((w, prof, s))
                return
            st["runs"] += 1; st["per"][w + ":" + prof + (":" + v if v != "plain" else "")] += 1
            if r.get("error"): st["errors"].append((w, prof, s, r["error"])); return
            st["vt"] += r.get("vt", 0); st["cnt"].update(r.get("cnt", {})); st["cov"].update(r.get("cov", []))
            if r.get("cov"): st["hashes"].add(r.get("hash"))
            if n % 97 == 0: st["first"][n] = r.get("hash", r.get("crash"))
            if n % 2000 == 0: st["curve"].append((st["runs"], len(st["cov"])))
            vs = simproc.viols(r)
            if vs:
                st["nbad"] += 1
                tag, text = vs[0]
                st["bad"].setdefault(tag, []).append(dict(world=w, profile=prof, seed=s, variant=v, text=text, hash=r.get("hash"), choices=r.get("choices")))
                if st["nbad"] >= 40: stop[0] = True
    def worker(again=None):
        procs = {}
        try:
            while True:
                rng = take() if again is None else ([again.pop()] if again else None)
                if rng is None: break
                byv = collections.OrderedDict()
                for n in rng: byv.setdefault(case_of(n)[3], []).append(n)
                for v, ns in byv.items():
                    if v not in procs: procs[v] = simproc.Sim(exe[v])
                    lines = ["%s %s seed %d" % case_of(n)[:3] for n in ns]
                    for n, r in zip(ns, procs[v].run(lines)): add(n, r, again is not None)
        except Exception as ex:
            with lock: st["errors"].append(repr(ex))
        finally:
            for q in procs.values(): q.close()
    def pool(args=()):
        th = [threading.Thread(target=worker, args=args) for _ in range(nw)]
        for t in th: t.start()
        for t in th: t.join()
    t0 = time.time(); pool(); st["search_s"] = time.time() - t0
    # the same seeds again, in other processes and another order: every event must be the same
    rest = sorted(st["first"])[:200]
    if not st["bad"]: pool((rest,))
    # write out a few cases in full
    q = {}
    for n in sorted(st["first"])[:3]:
        w, prof, s, v = case_of(n)
        r = simproc.run_one(exe[v], "%s %s seed %d trace" % (w, prof, s))
        if r: st["samples"].append({"world": w, "profile": prof, "seed": s, "hash": r.get("hash"), "events": r.get("trace", "").split("\n")[:60]})
    return st

def write_evidence(prop, tier, seed, p, st, reported, known, t_start, t_built):
    c = st["cnt"]
    faults = {k: v for k, v in sorted(c.items()) if k.startswith(("fault.", "net.", "sched.", "mta."))}
    work = {k: v for k, v in sorted(c.items()) if k not in faults}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": st["runs"], "distinct_nontrivial": len(st["hashes"]),
            "rule": "one evaluation = one simulated execution of the real code, all choices drawn from one seed (configuration, scenario, milter and MTA behaviour, segmentation, delays, faults); non-trivial = it reached at least one protocol state beyond start-up; distinct = a different hash over the complete event trace",
            "samples": st["samples"] or [{"note": "no sample collected"}],
            "simulated_seconds": round(st["vt"] / 1e9, 1),
            "runs_per_hour": int(st["runs"] / max(st["search_s"], 1e-3) * 3600), "seeds_per_hour": int(st["runs"] / max(st["search_s"], 1e-3) * 3600),
            "runs_per_profile": dict(st["per"]),
            "distinct_states": len(st["cov"]), "state_measure": "hashes of (party, previous command or event, command, answer, faults so far) transitions; each counted once over all runs",
            "states_by_runs": st["curve"][-40:],
            "faults_injected": faults, "workload": work,
            "determinism": {"seeds_run_again_in_other_processes": st["resampled"], "mismatches": len(st["mismatch"])},
            "real_components": p.get("real", plan.REAL), "stubbed_components": p.get("stub", plan.STUB),
            "violating_runs": st["nbad"], "build_s": round(t_built - t_start, 1),
            "known_findings_reproduced": [k["what"] for k in known],
            "reported": [{"tag": t, "seed": cs["seed"], "profile": cs["profile"], "text": cs["text"], "replay": path} for t, cs, path in reported],
        },
        "assumptions": p.get("assumptions", []) + plan.ASSUME,
        "wall_s": round(time.time() - t_start, 2), "violations": len(reported),
    }
    d = os.path.join(VERIF, "evidence"); os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, "." + prop + ".tmp"); open(tmp, "w").write(json.dumps(ev, indent=1, ensure_ascii=True)); os.replace(tmp, os.path.join(d, prop + ".json"))

if __name__ == "__main__":
    sys.exit(main())
