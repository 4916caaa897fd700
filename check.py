#!/usr/bin/env python3
"""Decides one property:  check.py <ID> [--tier quick|thorough] [--budget S]

Exit 0: the property held on everything explored.  Exit 1 and a line
"VIOLATION property=<id> replay=<path>": it does not.  Exit 2: no answer.
"""
import argparse
import concurrent.futures
import json
import os
import re
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build as B
from vlib.props import PROPS

VERIF = B.VERIF


def symbolize(exe, text):
    addrs = sorted(set(re.findall(r"0x[0-9a-f]{5,8}\b", text)))
    if not addrs:
        return ""
    try:
        out = subprocess.run(["addr2line", "-C", "-f", "-i", "-p", "-e", exe] + addrs,
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60).stdout
    except Exception:
        return ""
    lines = [l for l in out.splitlines() if "??" not in l]
    keep = [l for l in lines if "/repo/" in l or "/harness/" in l]
    return "\n".join("    " + l for l in (keep or lines)[:24])


def known_findings(pid):
    """Lines 'known: property=<id> match=<regex> <what fails>' of known_findings.txt."""
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) scenario=(\S+) match=/(.*)/ (.*)", line.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float, default=0)
    ap.add_argument("--only", default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = PROPS[pid]
    t0 = time.time()
    scen, fails, errors, unusable = [], [], [], []
    outdir = os.path.join(VERIF, "build", "replay", pid)
    os.makedirs(outdir, exist_ok=True)
    programs = [p for p in prop["programs"] if tier in p.get("tiers", ("quick", "thorough"))]
    try:
        def mk(p):
            try:
                return B.build(p["name"], p["engine"], p["sources"], p.get("backend", "nlohmann"),
                               p.get("libset", "full"), p.get("flags", ()), p.get("ldflags", ()))
            except B.BuildError as e:
                # "uses": a header whose declared operations must be usable; an
                # error inside it (not in the harness) means they are not.
                text = str(e)
                if "uses" not in p or p["uses"] + ":" not in text:
                    raise
                rp = os.path.join(outdir, p["name"] + ".errors")
                with open(rp, "w") as fh:
                    fh.write(text + "\n")
                unusable.append((p, rp))
                return None
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            exes = list(ex.map(mk, programs))
    except B.BuildError as e:
        print("check %s: cannot build:\n%s" % (pid, e))
        return 2
    tbuild = time.time() - t0
    env = dict(os.environ)
    for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "LSAN_OPTIONS"):
        env.pop(k, None)   # the engines set their own defaults
    for p, exe in zip(programs, exes):
        if exe is None:
            continue
        budget = a.budget or p.get("budget", {}).get(tier, 60 if tier == "quick" else 1200)
        odir = os.path.join(outdir, p["name"] + "-" + p.get("backend", "nlohmann"))
        os.makedirs(odir, exist_ok=True)
        cmd = [exe, "--tier", tier, "--budget", str(budget), "--out", odir, "--workers", str(B.JOBS)]
        only = a.only or p.get("only")
        if only:
            cmd += ["--only", only]
        cmd += p.get("args", [])
        if tier == "thorough":
            cmd += ["--table", "26"]
        if a.v:
            cmd += ["-v"]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=None if a.v else subprocess.PIPE, text=True,
                               timeout=budget * 3 + 300, env=env, cwd=odir)
        except subprocess.TimeoutExpired:
            errors.append("%s: no answer in time" % p["name"])
            continue
        got = False
        for line in r.stdout.splitlines():
            try:
                d = json.loads(line)
            except ValueError:
                continue
            d["program"] = p["name"]
            d["backend"] = p.get("backend", "nlohmann")
            got = True
            if "scenario" in d:
                scen.append(d)
            elif "fail" in d:
                d["exe"] = exe
                d["stderr"] = (r.stderr or "")[-3000:]
                fails.append(d)
        if r.returncode == 2 or not got:
            errors.append("%s: exit %d: %s" % (p["name"], r.returncode, ((r.stderr or "") + r.stdout)[-1500:]))
    rc = 0
    violations = 0
    kf = known_findings(pid)
    for f in fails:
        if f.get("diverged") or f["confirmed"] != 2:
            errors.append("%s/%s: not reproducible: %s" % (f["program"], f["fail"], f["message"]))
            continue
        hit = next((k for k in kf if k[0] == f["fail"] and k[1].search(f["message"])), None)
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, hit[2]))
            continue
        violations += 1
        sym = symbolize(f["exe"], f["message"])
        rp = f["replay"]
        with open(rp, "a") as fh:
            fh.write("symbolized:\n%s\nrerun: %s --replay %s -v\n" % (sym, f["exe"], rp))
        print("scenario %s (%s, %s): %s" % (f["fail"], f["program"], f["backend"], f["message"][:1500]))
        if sym:
            print(sym)
        if f["stderr"].strip():
            print("\n".join("    | " + l for l in f["stderr"].strip().splitlines()[-25:]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        rc = 1
    for p, rp in unusable:
        violations += 1
        print("%s: operations declared in %s cannot be used, see %s" % (p["name"], p["uses"], rp))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        rc = 1
    if rc == 0 and errors:
        rc = 2
    for e in errors:
        print("check %s: %s" % (pid, e))
    conf = conformance(tier) if prop.get("network") and not a.only and rc == 0 else None
    write_evidence(pid, prop, tier, seed, scen, violations, time.time() - t0, tbuild, conf)
    tot = sum(s["executions"] for s in scen)
    print("%s: %s: %d scenarios, %d executions, %d states, %d steps, %.1f s (build %.1f s)" % (
        pid, {0: "held", 1: "VIOLATED", 2: "NO ANSWER"}[rc], len(scen), tot,
        sum(s["states"] or s["choice_points"] for s in scen), sum(s["steps"] for s in scen), time.time() - t0, tbuild))
    return rc


def conformance(tier):
    """Compares the simulated network with the real loopback.  Evidence only: it says
    nothing about google/cppdap, so it never decides the result of a check."""
    try:
        from tools.netconf import compare
        n, bad = compare(4 if tier == "thorough" else 2)
        return {"call_sequences_compared_with_the_real_loopback": n, "differences": len(bad),
                "samples": ["%s: simulated %s, real %s" % b for b in bad[:3]]}
    except Exception as e:  # no usable loopback here
        return {"not_compared": repr(e)[:300]}


def write_evidence(pid, prop, tier, seed, scen, violations, wall, tbuild, conf=None):
    states = sum(s["states"] or s["choice_points"] for s in scen)
    execs = sum(s["executions"] - s["pruned"] for s in scen)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": states,
            "transitions": sum(s["steps"] if s["engine"] == "interleaving" else s["choice_points"] for s in scen),
            "traces_validated_against_impl": execs,
            "distinct_outcomes": sum(s["outcomes"] for s in scen),
            "exhaustive": all((not s["capped"]) and not s["failed"] for s in scen) and bool(scen),
            "rule": prop.get("rule", "every choice sequence within the bounds of each scenario, on the real code"),
            "samples": [{"scenario": s["scenario"], "observed": s["samples"][:3]} for s in scen][:12],
            "scenarios": [{k: s[k] for k in ("program", "backend", "scenario", "engine", "bound_requested",
                                             "bound_completed", "capped", "executions", "pruned", "discarded",
                                             "states", "choice_points", "steps", "max_choices", "outcomes", "wall")}
                          for s in scen],
            "build_s": round(tbuild, 1),
        },
        "assumptions": prop.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    if conf:
        ev["coverage"]["network_model"] = conf
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
