#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : decide one property by seeded simulation.

Exit 0: no violation found.  Exit 1: `VIOLATION property=<id> replay=<path>` on stdout.
Any other exit: the check itself is broken (build failure, irreproducible failure).
check.py --replay FILE re-executes a replay file and prints what it does.
"""
import json, os, re, shutil, struct, subprocess, sys, tempfile, time, glob

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sim.registry import PROPS  # noqa: E402

REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.path.join(HERE, "out")


def known_findings():
    known, fixed = [], []
    path = os.path.join(HERE, "known_findings.txt")
    for line in open(path) if os.path.exists(path) else []:
        line = line.strip()
        m = re.match(r"known: property=(\S+) class=(\S+)\s+(.*)", line)
        if m:
            known.append(m.groups())
        if line.startswith("fixed:"):
            fixed.append(line)
    return known, fixed


def build(world):
    r = subprocess.run(["bash", os.path.join(HERE, "sim/build.sh"), world], capture_output=True, text=True,
                       env=dict(os.environ, SIM_REPO=REPO))
    if r.returncode != 0:
        sys.stderr.write(r.stderr[-6000:])
        print("ERROR: world %s does not build" % world)
        sys.exit(2)
    return r.stdout.strip().splitlines()[-1]


def parse_stats(paths):
    tot = {"runs": 0, "nontrivial": 0, "sim_time": 0.0, "states_total": 0}
    c, foreign, known = {}, {}, {}
    for p in paths:
        if not os.path.exists(p):
            continue
        for line in open(p):
            f = line.split()
            if not f:
                continue
            if f[0] in tot:
                tot[f[0]] += float(f[1]) if f[0] == "sim_time" else int(f[1])
            elif f[0] in ("c", "foreign", "known"):
                d = {"c": c, "foreign": foreign, "known": known}[f[0]]
                d[f[1]] = d.get(f[1], 0) + int(f[2])
    return tot, c, foreign, known


def count_states(paths):
    s = set()
    for p in paths:
        if os.path.exists(p):
            data = open(p, "rb").read()
            s.update(struct.unpack("<%dQ" % (len(data) // 8), data[: len(data) // 8 * 8]))
    return len(s)


def parse_replay(path):
    d = {}
    for line in open(path):
        m = re.match(r"# (\w+) ?(.*)", line)
        if m:
            d[m.group(1)] = m.group(2).strip()
    return d


def run_replay(binary, path, prop, knownarg):
    r = subprocess.run([binary, "--replay", path, "--prop", prop] + knownarg, capture_output=True, text=True)
    f = (r.stdout.split("\n")[0]).split("\t")
    if len(f) < 5:
        return None
    return {"kind": f[0], "hash": f[1], "prop": f[2], "class": f[3], "msg": f[4]}


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        path = os.path.abspath(args[1])
        d = parse_replay(path)
        b = build(d["world"])
        with tempfile.TemporaryDirectory() as cwd:  # libraries may leave debug files behind
            r = subprocess.run([b, "--replay", path, "--prop", d["property"], "--trace"], cwd=cwd)
        sys.exit(r.returncode)
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = PROPS[prop]
    known, _ = known_findings()
    knownkeys = ["%s:%s" % (p, c) for p, c, _ in known]
    knownarg = ["--known", ",".join(knownkeys)] if knownkeys else []
    work = os.path.join(OUT, "%s-%s-%d" % (prop, tier, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work, exist_ok=True)
    os.chdir(work)  # libraries may leave debug files behind
    workers = int(os.environ.get("SIM_WORKERS", "0")) or min(8, os.cpu_count() or 8)
    procs = {w: subprocess.Popen(["true"]) for w in ()}
    bins = {}
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for w, b in zip(spec["worlds"], ex.map(build, list(spec["worlds"]))):
            bins[w] = b
    build_s = time.time() - t0
    budget = float(os.environ.get("SIM_TIME", 0)) or spec.get("time", {}).get(tier, 30 if tier == "quick" else 600)
    totw = sum(spec["worlds"].values())
    cov_worlds, violations, irreproducible = {}, [], []
    agg = {"runs": 0, "nontrivial": 0, "sim_time": 0.0, "states": 0}
    faults, probes, ops, samples, known_hits, foreign_all = {}, {}, {}, [], {}, {}
    determinism = {}
    corpus_run = 0
    search_wall = 0.0
    for w, weight in spec["worlds"].items():
        b = bins[w]
        # 1. regression corpus: minimised traces of violations found earlier
        for cf in sorted(glob.glob(os.path.join(HERE, "corpus", "%s-*.replay" % prop))):
            if parse_replay(cf).get("world") != w:
                continue
            corpus_run += 1
            o = run_replay(b, cf, prop, knownarg)
            if o and o["kind"] != "0":
                o2 = run_replay(b, cf, prop, knownarg)
                if o2 == o:
                    dst = os.path.join(OUT, "%s-%s.replay" % (prop, os.path.basename(cf)[:-7]))
                    body = [l for l in open(cf) if not l.startswith("#")]
                    with open(dst, "w") as f:
                        f.write("# world %s\n# property %s\n# class %s\n# kind %s\n# hash %s\n# seed corpus\n# message %s\n" % (
                            w, prop, o["class"], o["kind"], o["hash"], o["msg"]))
                        f.writelines(body)
                    violations.append((w, dst, o))
                    break
        if violations:
            break
        # 2. seeded search
        T = max(5.0, budget * weight / totw)
        ts = time.time()
        procs = []
        for i in range(workers):
            pre = os.path.join(work, "%s.%d" % (w, i))
            procs.append((pre, subprocess.Popen(
                [b, "--prop", prop, "--tier", tier, "--base", str(seed * 1000000007 % (1 << 52)), "--worker", str(i),
                 "--workers", str(workers), "--time", str(T), "--out", pre] + knownarg,
                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
        # as soon as one worker has a gated, minimised violation the rest may stop
        hard_stop = ts + T + 240
        live = list(procs)
        judged = {}

        def judge(pre):
            """A worker's finding counts if a fresh process replays it exactly."""
            rp = pre + ".replay"
            if pre not in judged and os.path.exists(rp):
                d = parse_replay(rp)
                o = run_replay(b, rp, prop, knownarg)
                judged[pre] = (bool(o and o["class"] == d["class"] and o["hash"] == d["hash"]), d, o)
            return pre in judged and judged[pre][0]

        while live and time.time() < hard_stop:
            live = [(p, q) for p, q in live if q.poll() is None]
            if any(q.poll() == 1 and judge(pre) for pre, q in procs):
                time.sleep(0.5)
                for _, q in procs:
                    if q.poll() is None:
                        q.terminate()
                break
            time.sleep(0.1)
        for _, q in procs:
            if q.poll() is None:
                q.kill()
            q.wait()
        search_wall += time.time() - ts
        for pre, q in procs:
            if q.returncode == 1 and os.path.exists(pre + ".replay"):
                if judge(pre):
                    violations.append((w, pre + ".replay", judged[pre][2]))
                else:
                    irreproducible.append((w, judged[pre][1], judged[pre][2]))
            elif q.returncode in (3, 4):
                irreproducible.append((w, open(pre + ".found").read() if os.path.exists(pre + ".found") else "", None))
        pres = [p for p, _ in procs]
        tot, c, foreign, kh = parse_stats([p + ".stats" for p in pres])
        st = count_states([p + ".states" for p in pres])
        for k, v in c.items():
            if k.startswith("fault:"):
                faults[k[6:]] = faults.get(k[6:], 0) + v
            elif k.startswith("probe:"):
                probes[k[6:]] = probes.get(k[6:], 0) + v
            elif k.startswith("op:"):
                ops[k[3:]] = ops.get(k[3:], 0) + v
            else:
                probes[k] = probes.get(k, 0) + v
        for k, v in kh.items():
            known_hits[k] = known_hits.get(k, 0) + v
        for k, v in foreign.items():
            foreign_all[k] = foreign_all.get(k, 0) + v
        agg["runs"] += tot["runs"]
        agg["nontrivial"] += tot["nontrivial"]
        agg["sim_time"] += tot["sim_time"]
        agg["states"] += st
        cov_worlds[w] = {"runs": tot["runs"], "distinct_states": st, "states_visited": tot["states_total"],
                         "simulated_seconds": round(tot["sim_time"], 3), "search_seconds": round(time.time() - ts, 2),
                         "components": subprocess.run([b, "--describe"], capture_output=True, text=True).stdout.strip()}
        sample_seed = seed * 1000000007 % (1 << 52)
        g = subprocess.run([b, "--gen", str(sample_seed), "--prop", prop, "--tier", tier], capture_output=True,
                           text=True).stdout
        samples.append({"world": w, "seed": sample_seed, "plan": g[:1500]})
        if violations:
            break
        # 3. determinism of the simulator itself: same seeds, separate processes, same trace hashes
        n = spec.get("determinism", 12)
        hs = [subprocess.Popen([b, "--hashes", str(sample_seed + 5000000), "--n", str(n), "--prop", prop, "--tier", tier] + knownarg,
                               stdout=subprocess.PIPE, text=True) for _ in range(2)]
        outs = [h.communicate()[0] for h in hs]
        determinism[w] = {"seeds": n, "processes": 2, "identical": outs[0] == outs[1] and bool(outs[0].strip())}
        if not determinism[w]["identical"]:
            irreproducible.append((w, "trace hashes differ between two executions of the same seeds", None))

    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg["runs"], "distinct_nontrivial": min(agg["nontrivial"], agg["runs"]),
            "rule": "one evaluation = one simulated run of a plan generated from its own seed (all seeds differ); "
                    "non-trivial = the run reached at least one probe listed under `rare_conditions_hit`",
            "samples": samples,
            "runs_per_hour": round(agg["runs"] / max(search_wall, 1e-3) * 3600),
            "simulated_seconds": round(agg["sim_time"], 3),
            "faults_injected": faults, "rare_conditions_hit": probes, "operations": ops,
            "distinct_states": agg["states"], "state_measure": spec.get("state_measure", "hash of the model state after each step"),
            "worlds": cov_worlds, "regression_traces_replayed": corpus_run, "determinism_check": determinism,
            "violations_of_other_properties_seen": foreign_all,
        },
        "assumptions": spec.get("assumptions", []),
        "violations": len(violations), "wall_s": round(time.time() - t0, 2), "build_s": round(build_s, 2),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
    for p, c, what in known:
        if p == prop:
            print("KNOWN-FINDING: property=%s %s" % (p, what))
    print("%s %s: %d runs, %d distinct states, faults %s, build %.0fs, total %.0fs" % (
        prop, tier, agg["runs"], agg["states"], json.dumps(faults), build_s, time.time() - t0))
    if violations:
        w, rp, o = violations[0]
        dst = os.path.join(OUT, "%s-%s.replay" % (prop, tier))
        if os.path.abspath(rp) != dst:
            shutil.copy(rp, dst)
        print("  %s/%s: %s" % (w, o["class"], o["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, dst))
        shutil.rmtree(work, ignore_errors=True)
        sys.exit(1)
    shutil.rmtree(work, ignore_errors=True)
    if irreproducible:
        for x in irreproducible:
            print("ERROR: irreproducible:", x)
        sys.exit(2)
    if agg["runs"] == 0:
        print("ERROR: no run completed")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
