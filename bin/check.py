#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--runs N]: decide one property.
   check.py build [variant...]: build the simulators.
   check.py trace <property> <scenario> <run> [seed]: event log of one run.
   check.py replay <file>: reproduce a recorded violation exactly."""
import sys, os, json, time, hashlib, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vsim
from catalog import CHECKS, VARIANT_NOTES

VERIF = vsim.VERIF


def known_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: "):
                # finding: property=<id> scenario=<name> class=<violation class> what: <text>
                head, _, what = line[9:].partition(" what: ")
                d = dict(x.split("=", 1) for x in head.split(" ") if "=" in x)
                d["what"] = what
                out.append(d)
    return out


def write_replay(pid, part, seed, r, choices, exe, env, thorough, original_len):
    rr, trace, extra = vsim.replay(exe, part["scenario"], choices, env, verbose=True, thorough=thorough)
    doc = {"property": pid, "variant": part["variant"], "scenario": part["scenario"], "seed": seed, "run": r.idx,
           "thorough": thorough, "violation": rr.cls, "message": rr.msg, "log_hash": rr.log, "choices": choices,
           "choices_before_minimisation": original_len, "faults_and_probes": extra, "trace": trace[-400:],
           "reproduce": "cd /verif && python3 bin/check.py replay <this file>"}
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps([part["scenario"], choices, rr.cls]).encode()).hexdigest()[:10]
    fn = os.path.join(d, "%s-%s-%s.json" % (pid, part["scenario"], h))
    with open(fn, "w") as f:
        json.dump(doc, f, indent=1)
    return fn, rr


def do_check(pid, tier, seed, only=None, runs_override=None, no_shrink=False):
    t0 = time.time()
    c = CHECKS[pid]
    thorough = tier == "thorough"
    env = vsim.Env()
    try:
        exes = {}
        for part in c["parts"]:
            v = part["variant"]
            if v not in exes:
                exes[v] = vsim.build(v, log=lambda m: print(m, file=sys.stderr))
        tb = time.time() - t0
        parts_ev, viol_lines, known_lines = [], [], []
        findings = [f for f in known_findings() if f.get("property") == pid]
        total = nontriv = 0
        sigs, sim_m, faults, probes, samples = set(), 0.0, {}, {}, []
        run_secs = 0.0
        harness = []
        budget = c.get("quick_secs", 40) if not thorough else c.get("thorough_secs", 780)
        totw = sum(p.get("runs", 1000) for p in c["parts"])
        for part in c["parts"]:
            if only and part["scenario"] != only:
                continue
            n = part.get("runs", 1000)
            share = max(4.0, budget * n / totw)
            if thorough:
                n *= part.get("thorough_factor", 40)
            if runs_override:
                n = runs_override
            exe = exes[part["variant"]]
            ts = time.time()
            known_cls = {f["class"] for f in findings if f.get("scenario") == part["scenario"]}
            maxviol = 2 if not known_cls else 50
            res, cnt, errors, outdir = vsim.run_range(exe, part["scenario"], seed, n, share if thorough else max(share * 3, 60),
                                                      env, thorough=thorough, cpu=part.get("cpu", 20), maxviol=maxviol)
            dt = time.time() - ts
            run_secs += dt
            if errors:
                harness += errors
            # determinism: the same runs in other processes, in another order of workers
            det_n = min(len(res), part.get("det", 24))
            det = 0
            if det_n:
                r2, _, e2, _ = vsim.run_range(exe, part["scenario"], seed, det_n, 60, env, thorough=thorough,
                                              workers=3, maxviol=1000, cpu=part.get("cpu", 20))
                a = {r.idx: r for r in res}
                for r in r2:
                    if r.idx in a:
                        det += 1
                        if (a[r.idx].log, a[r.idx].status, a[r.idx].cls) != (r.log, r.status, r.cls):
                            harness.append("run %d of %s is not deterministic (%s/%s %s vs %s/%s %s)" % (
                                r.idx, part["scenario"], a[r.idx].log, a[r.idx].status, a[r.idx].cls, r.log, r.status, r.cls))
            bad = [r for r in res if r.status == 2]
            seen = {}
            for r in bad:
                seen.setdefault(r.cls, []).append(r)
            for cls, rs in seen.items():
                r = rs[0]
                hit = [f for f in findings if f.get("scenario") == part["scenario"] and f["class"] == cls]
                if hit:
                    known_lines.append("KNOWN-FINDING: property=%s %s (%d of %d runs)" % (pid, hit[0]["what"], len(rs), len(res)))
                    continue
                if len(viol_lines) >= 4:
                    break
                cf = os.path.join(outdir, "fail_%d.choices" % r.idx)
                ch = vsim.read_choices(cf) if os.path.exists(cf) else None
                if ch is None:
                    harness.append("no choices for failing run %d" % r.idx)
                    continue
                # gate: the recorded choices alone must reproduce it, twice
                ok = []
                for _ in range(2):
                    rr, _, _ = vsim.replay(exe, part["scenario"], ch, env, thorough=thorough, cpu=part.get("cpu", 20))
                    ok.append(rr.status == 2 and rr.cls == cls)
                if not all(ok):
                    harness.append("run %d of %s (%s) does not replay" % (r.idx, part["scenario"], cls))
                    continue
                small = ch
                if not no_shrink:
                    s = vsim.Shrinker(exe, part["scenario"], cls, env, thorough=thorough,
                                      secs=(25 if not thorough else 120) if not viol_lines else 8,
                                      cpu=3 if cls.startswith("hang") else part.get("cpu", 20))
                    small = s.run(ch)
                    s.close()
                fn, rr = write_replay(pid, part, seed, r, small, exe, env, thorough, len(ch))
                viol_lines.append(("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(fn, VERIF)), rr.cls, rr.msg))
            shutil.rmtree(outdir, ignore_errors=True)
            psig = {r.sig for r in res if r.nt}
            sigs |= {part["scenario"] + s for s in psig}
            total += len(res)
            nontriv += sum(1 for r in res if r.nt)
            sm = sum(r.steps for r in res)
            sim_m += sm
            for (kind, name), (a, b) in cnt.items():
                d = faults if kind == "fault" else probes
                e = d.setdefault(name, [0, 0])
                e[0] += a
                e[1] += b
            # write out one actual case
            nt = [r for r in res if r.nt and r.status == 1] or res
            if nt:
                k = nt[len(nt) // 2]
                ch = vsim.choices_of(exe, part["scenario"], seed, k.idx, env, thorough=thorough, cpu=part.get("cpu", 20))
                smp = {"scenario": part["scenario"], "run": k.idx, "choices": k.nch, "log_hash": k.log, "state_signature": k.sig,
                       "simulated_units": k.steps, "verdict": "held" if k.status == 1 else k.cls}
                if ch is not None:
                    rr, trace, extra = vsim.replay(exe, part["scenario"], ch, env, verbose=True, thorough=thorough, cpu=part.get("cpu", 20))
                    smp["trace_head"] = [t[:160] for t in trace[:25]]
                    smp["faults_and_probes"] = extra[:20]
                samples.append(smp)
            parts_ev.append({"scenario": part["scenario"], "variant": part["variant"], "runs": len(res),
                             "planned_runs": n, "nontrivial": sum(1 for r in res if r.nt), "distinct_states": len(psig),
                             "determinism_rechecked": det, "seconds": round(dt, 2),
                             "simulated_units": round(sm, 3), "violating_runs": len(bad)})
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {
                  "evaluations": total, "distinct_nontrivial": len(sigs),
                  "rule": c["rule"] + " Distinct: by the state signature each run computes (" + c.get("measure", "hash of workload shape, schedule and outcome") + "); non-trivial: the run reached the situation the property speaks about.",
                  "samples": samples, "nontrivial_runs": nontriv,
                  "runs_per_hour": int(total / run_secs * 3600) if run_secs else 0,

                  "simulated_time": {"amount": round(sim_m, 3), "unit": c.get("unit", "metres of beam line traversed")},
                  "faults_injected": {k: {"times": v[0], "runs": v[1]} for k, v in sorted(faults.items())},
                  "situations_reached": {k: {"times": v[0], "runs": v[1]} for k, v in sorted(probes.items())},
                  "parts": parts_ev,
                  "real_components": c["real"], "stub_components": c["stub"],
                  "determinism": "each run is a fresh process driven only by its recorded choices; sampled runs were executed again with a different number of worker processes and the event-log hash compared",
              },
              "assumptions": c.get("assume", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol_lines)}
        if harness:
            ev["coverage"]["harness_errors"] = harness[:10]
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, ".%s.%d" % (pid, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(d, pid + ".json"))
        for k in sorted(set(known_lines)):
            print(k)
        for v, cls, msg in viol_lines:
            print(v)
            print("  " + cls + ": " + msg[:600])
        print("%s: %d runs (%d non-trivial, %d distinct states), %.1f s build, %.1f s run, faults: %s" % (
            pid, total, nontriv, len(sigs), tb, run_secs, ", ".join("%s=%d" % (k, v[0]) for k, v in sorted(faults.items())) or "none"))
        if viol_lines:
            return 1
        if harness:
            for h in harness[:10]:
                print("HARNESS: " + h)
            return 3
        if total == 0:
            print("HARNESS: nothing ran")
            return 3
        return 0
    finally:
        env.close()


def do_replay(fn):
    doc = json.load(open(fn))
    exe = vsim.build(doc["variant"])
    env = vsim.Env()
    try:
        r, trace, extra = vsim.replay(exe, doc["scenario"], doc["choices"], env, verbose=True, thorough=doc.get("thorough", False))
        for t in trace:
            print(t)
        same = r.status == 2 and r.cls == doc["violation"] and r.log == doc["log_hash"]
        print("%s: %s" % (r.cls, r.msg))
        print("recorded: %s, log hash %s; replayed log hash %s" % (doc["violation"], doc["log_hash"], r.log))
        print("reproduced exactly" if same else ("violation class reproduced, history differs (other code?)" if r.cls == doc["violation"] else "NOT reproduced"))
        return 1 if r.status == 2 else 0
    finally:
        env.close()


def do_trace(pid, scen, idx, seed):
    part = [p for p in CHECKS[pid]["parts"] if p["scenario"] == scen][0]
    exe = vsim.build(part["variant"])
    env = vsim.Env()
    try:
        ch = vsim.choices_of(exe, scen, seed, idx, env)
        r, trace, extra = vsim.replay(exe, scen, ch, env, verbose=True)
        for t in trace + extra:
            print(t)
        print(r.status, r.cls, r.msg)
    finally:
        env.close()


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "build":
        ok = True
        vs = a[1:] or sorted({p["variant"] for c in CHECKS.values() for p in c["parts"]})
        for v in vs:
            try:
                vsim.build(v, log=print)
            except vsim.BuildError as e:
                print(e)
                ok = False
        return 0 if ok else 2
    if a[0] == "trace":
        return do_trace(a[1], a[2], int(a[3]), int(a[4]) if len(a) > 4 else 1)
    if a[0] == "replay":
        return do_replay(a[1])
    opt = {}
    i = 1
    flags = set()
    while i < len(a):
        if a[i] in ("--no-shrink",):
            flags.add(a[i])
            i += 1
        else:
            opt[a[i][2:]] = a[i + 1]
            i += 2
    tier = opt.get("tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(opt.get("seed", os.environ.get("VERIF_SEED", "1")))
    try:
        return do_check(a[0], tier, seed, only=opt.get("only"), runs_override=int(opt["runs"]) if "runs" in opt else None,
                        no_shrink="--no-shrink" in flags)
    except vsim.BuildError as e:
        print(e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
