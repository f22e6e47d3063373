#!/usr/bin/env python3
"""Runs the check of one property:  check.py <PROPERTY> [quick|thorough]
   check.py --replay <file>   re-executes a recorded counterexample
   check.py --setup           builds everything the checks need
"""
import json, os, re, subprocess, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from checks_table import CHECKS, PROGRAMS

VERIF = vbuild.VERIF
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def known_findings():
    out = []
    p = f"{VERIF}/known-findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding:\s+property=(\S+)\s+sig=(\S+)\s+(.*)", line)
            if m:
                out.append((m.group(1), m.group(2), m.group(3).strip()))
    return out


def build_for(parts):
    """Builds the programs used by the parts; returns {(flavor, name): path}, stats."""
    by = {}
    for p in parts:
        by.setdefault(p.get("flavor", "o1"), set()).add(p["prog"])
        for d in p.get("needs", []):
            fl, name = d if isinstance(d, tuple) else (p.get("flavor", "o1"), d)
            by.setdefault(fl, set()).add(name)
    paths, stats = {}, {}
    for fl, names in by.items():
        progs = [dict(PROGRAMS[n], name=n) for n in sorted(names)]
        core = any(p.get("core", True) for p in progs)
        out, st = vbuild.build(fl, progs, core=core)
        for n, pth in out.items():
            paths[(fl, n)] = pth
        stats[fl] = st
    return paths, stats


def env_for(flavor):
    e = dict(os.environ)
    e["VERIF_BUILD_DIR"] = f"{vbuild.BUILD}/{flavor}"
    e["VERIF_DIR"] = VERIF
    e["VERIF_REPO"] = vbuild.REPO
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1"
    e["LC_ALL"] = "C.UTF-8"
    e["PYTHONPATH"] = ""
    e.pop("SST_CORE_PREFIX", None)
    return e


def replay_once(exe, flavor, scenario, choices, thorough, limit):
    cmd = [exe, "--scenario", scenario, "--choices", choices] + (["--thorough"] if thorough else [])
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env_for(flavor), timeout=limit)
    except subprocess.TimeoutExpired:
        return "hang", ""
    txt = p.stdout.decode("utf-8", "replace")
    m = re.search(r"^REPLAY violation sig=(\S+)", txt, re.M)
    if m:
        return m.group(1), txt
    if p.returncode < 0:
        return f"crash:signal{-p.returncode}", txt
    if "REPLAY ok" in txt or "REPLAY discarded" in txt:
        return None, txt
    return f"exit:{p.returncode}", txt


def shard_replay(exe, flavor, scenario, sig, thorough, jobs):
    out = f"/tmp/vreplay.{os.getpid()}.json"
    cmd = [exe, "--scenario", scenario, "--out", out, "--jobs", str(jobs)] + (["--thorough"] if thorough else [])
    try:
        subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env_for(flavor), timeout=300)
        r = json.load(open(out))
        os.unlink(out)
        return any(v["sig"] == sig for s in r["scenarios"] for v in s["violations"])
    except Exception:
        return False


def run_check(pid, tier):
    t0 = time.time()
    chk = CHECKS[pid]
    parts = chk["parts"]
    thorough = tier == "thorough"
    parts = [p for p in parts if thorough or not p.get("thorough_only")]
    paths, bstats = build_for(parts)
    jobs = vbuild.JOBS
    known = [k for k in known_findings() if k[0] == pid]
    seen_known, viols, scen = {}, [], []
    for part in parts:
        fl = part.get("flavor", "o1")
        exe = paths[(fl, part["prog"])]
        out = f"/tmp/vcheck.{os.getpid()}.json"
        cmd = [exe, "--out", out, "--jobs", str(part.get("jobs", jobs))]
        if thorough:
            cmd += ["--thorough", "--max-seconds", str(part.get("thorough_s", 3000))]
        else:
            cmd += ["--max-seconds", str(part.get("quick_s", 400))]
        if part.get("scenario"):
            cmd += ["--scenario", part["scenario"]]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env_for(fl))
        sys.stdout.write(p.stdout.decode("utf-8", "replace"))
        if p.returncode not in (0, 1) or not os.path.exists(out):
            sys.stderr.write(p.stderr.decode("utf-8", "replace")[-3000:])
            raise RuntimeError(f"harness {part['prog']} ended with {p.returncode}")
        r = json.load(open(out))
        os.unlink(out)
        for s in r["scenarios"]:
            s["prog"] = part["prog"]
            scen.append(s)
            for v in s["violations"]:
                hit = next((k for k in known if re.fullmatch(k[1].replace("*", ".*"), v["sig"])), None)
                if hit:
                    seen_known[hit] = seen_known.get(hit, 0) + v["count"]
                    continue
                viols.append((part, fl, exe, s["name"], v))
    reported = []
    for part, fl, exe, sname, v in viols[:20]:
        limit = 60 if v["sig"] != "hang" else 90
        got, txt = replay_once(exe, fl, sname, v["choices"], thorough, limit)
        how = "alone"
        if got is None:
            how = "history"
            if v["sig"] == "hang" or not shard_replay(exe, fl, sname, v["sig"], thorough, part.get("jobs", jobs)):
                print(f"note: {sname} sig={v['sig']} did not reproduce on replay; not reported")
                continue
        rdir = f"{VERIF}/evidence/replay"
        os.makedirs(rdir, exist_ok=True)
        safe = re.sub(r"[^A-Za-z0-9_.-]", "_", f"{pid}-{sname}-{v['sig']}")[:120]
        rp = f"{rdir}/{safe}.json"
        with open(rp, "w") as f:
            json.dump({"property": pid, "prog": part["prog"], "flavor": fl, "needs": part.get("needs", []), "scenario": sname,
                       "choices": v["choices"], "thorough": thorough, "sig": v["sig"], "message": v["msg"], "trace": v["trace"],
                       "reproduces": how, "output": txt[-6000:]}, f, indent=1)
        reported.append({"property": pid, "scenario": sname, "sig": v["sig"], "message": v["msg"][:1500], "replay": rp,
                         "executions": v["count"]})
        print(f"violation: {sname}: {v['sig']}: {v['msg'][:600]}")
        print(f"   history: {v['trace'][:800]}")
    for k, n in seen_known.items():
        print(f"KNOWN-FINDING: property={pid} {k[1]}: {k[2]} ({n} executions)")
    ev = sum(s["evaluations"] for s in scen)
    di = sum(s["distinct"] for s in scen)
    samples = []
    for s in scen:
        for x in s["samples"][:1]:
            samples.append(f"{s['name']}: {x}")
    cov = {
        # a scenario that hashes the states of the system under test reports those; any other one reports the nodes of
        # its choice tree (prefixes of histories executed on the real code)
        "states": sum(s["states"] or s["tree_nodes"] for s in scen),
        "transitions": sum(s["transitions"] or max(0, s["tree_nodes"] - 1) for s in scen),
        "traces_validated_against_impl": sum(s["validated"] or s["evaluations"] for s in scen),
        "evaluations": ev,
        "distinct_nontrivial": di,
        "rule": chk.get("rule", "every leaf of the choice tree of each scenario is executed on the real code; an execution is "
                        "non-trivial when it exercised the operation under test, distinct by the hash of its recorded history"),
        "samples": samples[:12] or ["none"],
        "exhaustive": all(s["complete"] for s in scen),
        "bounds": chk.get("bounds_thorough" if thorough and "bounds_thorough" in chk else "bounds", ""),
        "scenarios": [{k: s[k] for k in ("name", "evaluations", "distinct", "states", "transitions", "max_choices", "tree_nodes", "complete",
                                         "wall_s")} for s in scen],
        "build": bstats,
    }
    evd = {"property": pid, "tier": tier, "seed": SEED, "level": chk.get("level", "model_checking"), "coverage": cov,
           "wall_s": round(time.time() - t0, 1), "assumptions": chk.get("assumptions", []),
           "violations": len(reported), "violation_details": reported, "known_findings": [{"sig": k[1], "what": k[2], "executions": n} for k, n in seen_known.items()]}
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
        json.dump(evd, f, indent=1)
    print(f"{pid} {tier}: evaluations={ev} distinct={di} states={cov['states']} transitions={cov['transitions']} "
          f"exhaustive={cov['exhaustive']} wall={evd['wall_s']}s")
    if reported:
        for r in reported:
            print(f"VIOLATION property={pid} replay={r['replay']}")
        return 1
    return 0


def replay(path):
    d = json.load(open(path))
    part = {"prog": d["prog"], "flavor": d["flavor"], "needs": [tuple(x) if isinstance(x, list) else x for x in d.get("needs", [])]}
    paths, _ = build_for([part])
    got, txt = replay_once(paths[(d["flavor"], d["prog"])], d["flavor"], d["scenario"], d["choices"], d["thorough"], 120)
    print(txt)
    if got:
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    return 0


def setup():
    by = {}
    for c in CHECKS.values():
        for p in c["parts"]:
            by.setdefault(p.get("flavor", "o1"), []).append(p)
    for fl, parts in by.items():
        _, st = build_for(parts)
        print("setup", st)
    return 0


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--replay":
            sys.exit(replay(sys.argv[2]))
        if sys.argv[1] == "--setup":
            sys.exit(setup())
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        sys.exit(run_check(sys.argv[1], tier))
    except vbuild.BuildError as e:
        print(f"BUILD ERROR: {e}")
        sys.exit(3)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(4)
