#!/usr/bin/env python3
"""Runs the check of one property: build, seeded search, gate and minimise what was found, write the evidence.

  run.py <property> [--tier quick|thorough]      exit 0: held, 1: VIOLATION, 2: the check itself failed
  run.py --replay FILE                            replays a replay file (exit 1 when the violation shows)
"""
import argparse, collections, glob, json, os, shutil, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import vbuild
from checks import CHECKS

WORKERS = 8
KNOWN = os.path.join(VERIF, "known-findings.json")


def replay(exe, path, timeout=300, env=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        out = subprocess.run([exe, "replay", path], capture_output=True, text=True, timeout=timeout, env=e, errors="replace").stdout
    except subprocess.TimeoutExpired:
        return None
    for line in out.splitlines():
        if line.startswith("RESULT "):
            return json.loads(line[7:])
    return None


def minimise(exe, src, dst, seconds):
    try:
        subprocess.run([exe, "minimise", src, dst, "--seconds", str(seconds)], stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, timeout=seconds * 3 + 120)
    except subprocess.TimeoutExpired:
        pass
    return os.path.exists(dst)


def explore(exe, profile, seed, runs, seconds, outdir, env=None):
    """One process per worker; the run numbers are dealt round robin, so the set of runs only depends on the seed."""
    ps = []
    e = dict(os.environ)
    e.update(env or {})
    for w in range(WORKERS):
        out = os.path.join(outdir, f"{profile}.{w}")
        log = open(out + ".log", "w")
        ps.append((out, subprocess.Popen(
            [exe, "explore", "--profile", profile, "--seed", str(seed), "--worker", str(w), "--workers", str(WORKERS),
             "--runs", str(runs), "--seconds", str(seconds), "--out", out], stdout=log, stderr=log, env=e)))
    res, broken = [], []
    for out, p in ps:
        try:
            p.wait(timeout=seconds + 400)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        try:
            with open(out + ".json") as f:
                res.append((out, json.load(f)))
        except Exception:
            broken.append(out + ".log")
    return res, broken


def union_count(outdir, profile, suffix):
    s = set()
    for f in glob.glob(os.path.join(outdir, f"{profile}.?.{suffix}")):
        b = open(f, "rb").read()
        s.update(struct.unpack("<%dQ" % (len(b) // 8), b[: len(b) // 8 * 8]))
    return len(s)


def known_findings(prop):
    try:
        with open(KNOWN) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == prop]
    except FileNotFoundError:
        return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    a = ap.parse_args()
    if a.replay:
        with open(a.replay) as f:
            t = json.load(f)
        c = CHECKS[t["property"]]
        exe, env = vbuild.build([c["target"]])[c["target"]], c.get("env")
        r = replay(exe, a.replay, env=env() if env else None)
        print(json.dumps(r, indent=1))
        return 1 if r and r["violated"] else 0

    pid, tier = a.property, a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = CHECKS[pid]
    t0 = time.time()
    exe = vbuild.build([c["target"]])[c["target"]]
    build_s = time.time() - t0
    env = c["env"]() if c.get("env") else None
    outdir = os.path.join(VERIF, "build", "out", pid)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)

    found = []            # (class, text, replay file)
    stats = collections.Counter()
    kinds, probes, opkinds, bykind = (collections.Counter() for _ in range(4))
    samples, nondet, broken = [], [], []
    distinct = states = 0
    search_s = 0.0
    for profile, quick, thorough in c["profiles"]:
        runs = a.runs or (quick if tier == "quick" else thorough)
        seconds = 240 if tier == "quick" else 3600
        t1 = time.time()
        res, b = explore(exe, profile, seed, runs, seconds, outdir, env)
        search_s += time.time() - t1
        broken += b
        for out, d in res:
            for k in ("runs", "events", "ops", "runs_with_faults", "incarnations", "sim_ns", "determinism_rechecks"):
                stats[k] += d.get(k, 0)
            kinds.update(d["fault_kinds"])
            probes.update(d["probes"])
            opkinds.update(d["op_kinds"])
            nondet += d["nondet"]
            if len(samples) < 3:
                samples += d["samples"][:1]
            for v in d["violations"]:
                found.append((v["cls"], v["text"], v["path"], profile))
        distinct += union_count(outdir, profile, "hashes")
        states += union_count(outdir, profile, "states")

    # every violation must replay exactly in a fresh process
    confirmed, dropped = [], []
    seen = set()
    for cls, text, path, profile in found:
        if cls in seen or len(confirmed) >= 3:
            continue
        r1 = replay(exe, path, env=env)
        r2 = replay(exe, path, env=env)
        if r1 and r2 and r1["violated"] and r2["violated"] and r1["cls"] == r2["cls"]:
            seen.add(cls)
            confirmed.append((r1["cls"], r1["text"], path))
        else:
            dropped.append((cls, text, path))

    rdir = os.path.join(VERIF, "build", "replays")
    os.makedirs(rdir, exist_ok=True)
    lines = []
    for i, (cls, text, path) in enumerate(confirmed):
        final = os.path.join(rdir, f"{pid}-{i}.json")
        mini = path + ".min"
        if not minimise(exe, path, mini, 25 if i == 0 else 8):
            shutil.copy(path, mini)
        rm = replay(exe, mini, env=env)
        if not (rm and rm["violated"] and rm["cls"] == cls):
            shutil.copy(path, mini)
        with open(mini) as f:
            t = json.load(f)
        t["property"] = pid
        with open(final, "w") as f:
            json.dump(t, f, indent=1)
        lines.append((final, t.get("text", text), t))

    # findings recorded earlier: still there?
    known_lines = []
    for k in known_findings(pid):
        p = os.path.join(VERIF, k["replay"])
        r = replay(exe, p, env=env)
        if r and r["violated"] and r["cls"] == k["class"]:
            known_lines.append(f"KNOWN-FINDING: property={pid} {k['what']}")

    wall = time.time() - t0
    hours = max(search_s, 1e-9) / 3600
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": stats["runs"],
            "distinct_nontrivial": distinct,
            "rule": c["rule"],
            "samples": samples[:2],
            "simulated_runs": stats["runs"],
            "operations": stats["ops"],
            "runs_per_hour": int(stats["runs"] / hours),
            "seeds_per_hour": int(stats["runs"] / hours),
            "simulated_seconds": round(stats["sim_ns"] / 1e9, 3),
            "runs_with_faults": stats["runs_with_faults"],
            "fault_kinds_injected": dict(sorted(kinds.items())),
            "storage_and_scheduling_events": stats["events"],
            "process_incarnations": stats["incarnations"],
            "distinct_event_histories": distinct,
            "distinct_abstract_states": states,
            "operation_kinds": dict(sorted(opkinds.items())),
            "rare_conditions_reached": dict(sorted(probes.items())),
            "determinism_rechecks": stats["determinism_rechecks"],
            "not_reproducible": len(nondet) + len(dropped),
            "components_real": c["real"],
            "components_stubbed": c["stub"],
            "build_s": round(build_s, 1), "search_s": round(search_s, 1),
            "known_findings_confirmed": len(known_lines),
        },
        "assumptions": c["assumptions"],
        "wall_s": round(wall, 2),
        "violations": len(lines),
    }
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print(f"{pid} [{tier}] seed={seed} runs={stats['runs']} distinct={distinct} states={states} faults={sum(kinds.values())} "
          f"build={build_s:.1f}s search={search_s:.1f}s")
    for l in known_lines:
        print(l)
    for x in nondet[:3]:
        print("not reproducible:", json.dumps(x))
    for x in dropped[:3]:
        print("not reproducible:", x[0], x[1][:200])
    if lines:
        for final, text, t in lines:
            print(f"VIOLATION property={pid} replay={final}")
            print("  " + text[:500])
            for s in t.get("steps", [])[:40]:
                print("    " + s)
            if t.get("faults"):
                print("    faults: " + json.dumps(t["faults"]))
        return 1
    if broken or stats["runs"] == 0:
        for b in broken:
            print("worker failed:", b)
            sys.stdout.write(open(b).read()[-2000:])
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
