#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]: decide one property.

Builds the harnesses of the property from /repo's working tree, runs their
scenarios under the explorer, prints VIOLATION / KNOWN-FINDING lines and
writes evidence/<property>.json.  Exit 0: held on everything explored, 1:
violation, 2: no answer (build failure, internal error).
"""
import argparse, json, os, shutil, subprocess, sys, tempfile, time
import build as B
from checks import CHECKS

V = B.VERIF


def known_findings():
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                # finding: property=<id> sig=<signature> | text
                head, _, text = l[len("finding:"):].partition("|")
                d = dict(x.split("=", 1) for x in head.split())
                out.append((d["property"], d["sig"], text.strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    a = ap.parse_args()
    c = CHECKS[a.prop]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    runs = [r for r in c["runs"] if not a.only or a.only in r["scenario"]]
    targets = sorted(set((r["h"], r.get("flavour", "asan")) for r in runs))
    if not B.build(targets):
        return 2
    tb = time.time() - t0
    known = [k for k in known_findings() if k[0] == a.prop]
    violdir = os.path.join(V, "viol", a.prop)
    os.makedirs(violdir, exist_ok=True)
    tot = dict(runs=0, choices=0, evaluations=0, vacuous=0, validated=0,
               outcomes=0, states=0, violations=0)
    exhaustive = True
    samples, per, lines, seen_known = [], [], [], set()
    bad = False
    for r in runs:
        fl = r.get("flavour", "asan")
        prm = dict(r.get("params", {}))
        if a.tier == "thorough":
            prm.update(r.get("thorough", {}))
        cap = r.get("time", 120)
        if a.tier == "thorough":
            cap = r.get("thorough_time", cap * 10)
        jf = tempfile.mktemp(prefix="mc", suffix=".json")
        cmd = [os.path.join(B.BUILD, fl, r["h"]), r["scenario"], "--jobs",
               str(r.get("jobs", os.cpu_count() or 8)), "--time", str(cap),
               "--json", jf, "--violdir", violdir]
        for k in known:
            cmd += ["--known", k[1]]
        cmd += ["%s=%s" % kv for kv in sorted(prm.items())]
        p = subprocess.run(cmd, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True,
                           errors="replace")
        try:
            j = json.load(open(jf))
            os.unlink(jf)
        except Exception as e:
            sys.stdout.write(p.stdout[-2000:] + p.stderr[-4000:])
            print("ERROR: %s gave no result (%s)" % (" ".join(cmd), e))
            bad = True
            continue
        for k in tot:
            if k in j and k != "violations":
                tot[k] += j[k]
        exhaustive = exhaustive and bool(j["exhaustive"])
        for s in j.get("samples", [])[:6]:
            samples.append("%s: %s" % (r["scenario"], s[:200]))
        per.append(dict(scenario=r["scenario"], flavour=fl, params=prm,
                        runs=j["runs"], choices=j["choices"],
                        evaluations=j["evaluations"],
                        outcomes=j["outcomes"], states=j["states"],
                        maxdepth=j["maxdepth"], vacuous=j["vacuous"],
                        pruned_preempt=j["pruned_preempt"],
                        pruned_fault=j["pruned_fault"],
                        pruned_order=j["pruned_order"],
                        exhaustive=j["exhaustive"], wall_s=j["wall_s"],
                        unreproduced=j["unreproduced"]))
        for v in j["violations"]:
            if not v["confirmed"]:
                lines.append("UNREPRODUCED property=%s scenario=%s sig=%s %s"
                             % (a.prop, r["scenario"], v["sig"], v["msg"]))
                continue
            tot["violations"] += 1
            lines.append("VIOLATION property=%s replay=%s"
                         % (a.prop, v["replay"]))
            lines.append("  scenario=%s sig=%s count=%s" %
                         (r["scenario"], v["sig"], v["count"]))
            lines.append("  " + v["msg"][:1500])
        for k in j.get("known", []):
            seen_known.add(k["sig"] if isinstance(k, dict) else k)
        print("%-28s runs=%-9d choices=%-10d outcomes=%-6d states=%-6d "
              "exhaustive=%s %.1fs" % (r["scenario"] + ":" + fl, j["runs"],
              j["choices"], j["outcomes"], j["states"], j["exhaustive"],
              j["wall_s"]))
    for k in known:
        if k[1] in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, k[2] or k[1]))
    for l in lines:
        print(l)
    ev = dict(property=a.prop, tier=a.tier, seed=seed, level=c["level"],
              wall_s=round(time.time() - t0, 2),
              violations=tot["violations"], exhaustive=exhaustive,
              assumptions=c.get("assumptions", []),
              coverage=dict(
                  states=tot["states"], transitions=tot["choices"],
                  traces_validated_against_impl=tot["runs"]
                  - tot["vacuous"],
                  evaluations=tot["evaluations"],
                  distinct_nontrivial=tot["outcomes"],
                  rule=c.get("rule", "distinct observed end-to-end outcomes "
                             "(responses, event sequences, final state)"),
                  samples=samples[:12] or ["-"], scenarios=per,
                  build_s=round(tb, 1)))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if bad:
        return 2
    print("%s %s: %d executions, %d choices, %d violations, %.1fs"
          % (a.prop, a.tier, tot["runs"], tot["choices"], tot["violations"],
             time.time() - t0))
    return 1 if tot["violations"] else 0


if __name__ == "__main__":
    sys.exit(main())
