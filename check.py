#!/usr/bin/env python3
"""Runs the simulation check of one property.

  check.py PROPERTY            quick or thorough by VERIF_TIER, seed from VERIF_SEED
  check.py replay FILE [v]     rebuilds and replays one recorded violation (v: print the trace)
  check.py selftest [SECONDS]  determinism: same seeds in different processes and worker counts
  check.py setup               builds once to see that the tools are there
"""
import json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
from props import PROPS

KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")


def known_findings(prop):
    """Lines `known: property=ID key=KEY text`: the failures with that key are reported as known findings."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            w = l.split(None, 3)
            if len(w) == 4 and w[0] == "known:" and w[1] == "property=" + prop and w[2].startswith("key="):
                out.append((w[2][4:], w[3].strip()))
    return out


def popcount(b):
    return bin(int.from_bytes(b, "little")).count("1")


def main(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = PROPS[prop]
    secs = spec.get("quick", 40) if tier != "thorough" else spec.get("thorough", 420)
    secs = float(os.environ.get("SIM_SECONDS", secs))
    workers = max(2, min(16, os.cpu_count() or 2))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "work"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(HERE, "work"))
    procs = []
    try:
        simbin = B.build(os.path.join(work, "b"))
        tb = time.time() - t0
        known = known_findings(prop)
        for w in range(workers):
            cmd = [simbin, "run", "--scen", ",".join(spec["scen"]), "--prop", prop, "--seed", str(seed), "--worker", str(w), "--workers",
                   str(workers), "--seconds", str(secs), "--out", "%s/o%d" % (work, w), "--replay", "%s/replay%d.txt" % (work, w)]
            if known:
                cmd += ["--known", ",".join(k for k, _ in known)]
            procs.append(subprocess.Popen(cmd, stderr=open("%s/e%d" % (work, w), "w"), stdout=subprocess.DEVNULL))
        deadline = time.time() + secs + 200
        running = set(range(workers))
        first = None
        while running:
            for w in sorted(running):
                rc = procs[w].poll()
                if rc is not None:
                    running.discard(w)
                    if rc == 1 and first is None:
                        first = w
            if first is not None and running:
                # somebody has a confirmed, minimised violation: let the others go
                for w in running:
                    procs[w].kill()
                for w in running:
                    procs[w].wait()
                running = set()
            if time.time() > deadline:
                for w in running:
                    procs[w].kill()
                print("workers did not finish in time", file=sys.stderr)
                return 2
            time.sleep(0.05)
        if first is None:
            for w in range(workers):
                if procs[w].returncode != 0:
                    sys.stderr.write("worker %d ended with %d: %s\n" % (w, procs[w].returncode, open("%s/e%d" % (work, w)).read()[-2000:]))
                    return 2
        outs = []
        for w in range(workers):
            if procs[w].returncode in (0, 1):
                outs.append((json.load(open("%s/o%d" % (work, w))), open("%s/o%d.bin" % (work, w), "rb").read()))
        violation = None
        if first is not None:
            violation = json.load(open("%s/o%d" % (work, first)))["violation"]
            # A violation counts only if a fresh process reproduces it exactly from the recorded file, twice.
            for _ in range(2):
                rc = subprocess.run([simbin, "replay", violation["replay"]], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
                if rc != 1:
                    print("replay did not reproduce the violation (%d)" % rc, file=sys.stderr)
                    return 2
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            rp = os.path.join(HERE, "replays", "%s-%s-%d.txt" % (prop, violation["scenario"], violation["seed"]))
            shutil.copy(violation["replay"], rp)
            violation["replay"] = rp
        write_evidence(prop, tier, seed, spec, outs, violation, known, workers, secs, tb, t0)
        hits = {}
        for o, _ in outs:
            for k, n in o["known"].items():
                key = k.split(" ", 1)[1]
                hits[key] = hits.get(key, 0) + n
        for k, text in known:
            n = sum(v for key, v in hits.items() if key.startswith(k))
            print("KNOWN-FINDING: property=%s %s (%d of the runs)" % (prop, text, n))
        if violation:
            print("%s: scenario %s seed %d: %s (%s)" % (prop, violation["scenario"], violation["seed"], violation["msg"], violation["key"]))
            print("replay with: python3 %s/check.py replay %s v" % (HERE, violation["replay"]))
            print("VIOLATION property=%s replay=%s" % (prop, violation["replay"]))
            return 1
        runs = sum(sum(o["scenarios"].values()) for o, _ in outs)
        print("%s held in %d simulated runs" % (prop, runs))
        return 0
    except RuntimeError as e:
        print(e, file=sys.stderr)
        return 2
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(work, ignore_errors=True)


def write_evidence(prop, tier, seed, spec, outs, violation, known, workers, secs, tb, t0):
    tot = {}
    for k in ("runs", "steps", "sim_ns", "switches", "faultfree", "rechecked"):
        tot[k] = sum(o[k] for o, _ in outs)
    def merge(name):
        r = {}
        for o, _ in outs:
            for k, v in o[name].items():
                r[k] = r.get(k, 0) + v
        return r
    n = 1 << 19
    maps = []
    for i in range(3):
        acc = 0
        for _, b in outs:
            acc |= int.from_bytes(b[i * n:(i + 1) * n], "little")
        maps.append(bin(acc).count("1"))
    hs = set()
    for _, b in outs:
        t = b[3 * n:]
        hs.update(t[i:i + 8] for i in range(0, len(t), 8))
    wall_sim = max([o["wall"] for o, _ in outs] or [1])
    samples = []
    for o, _ in outs[:4]:
        samples += o["samples"][:3]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
        "coverage": {
            "evaluations": sum(merge("scenarios").values()),
            "distinct_nontrivial": len(hs),
            "rule": "One evaluation is one complete simulated execution of one scenario from one seed, repeated runs for determinism not counted. "
                    "Distinct: different hash over the sequence of (thread, code position, decision) of the run. Non-trivial: at least two threads took "
                    "turns and at least one scheduling or fault decision differed from the plain order.",
            "samples": samples,
            "scenarios": merge("scenarios"),
            "runs_without_injected_faults": tot["faultfree"],
            "runs_repeated_and_replayed_with_equal_hash": tot["rechecked"],
            "steps_of_code_under_test": tot["steps"],
            "context_switches": tot["switches"],
            "simulated_seconds": round(tot["sim_ns"] / 1e9, 3),
            "seeds_per_hour": int(sum(merge("scenarios").values()) / max(wall_sim, 0.001) * 3600),
            "faults_injected": {k: v for k, v in merge("faults").items() if v},
            "distinct_switch_pairs": maps[0],
            "distinct_switch_pairs_measure": "bits set in a 4M-bit map of (code position left, code position entered) at context switches inside the code under test",
            "distinct_death_points": maps[1],
            "distinct_death_points_measure": "bits set in a 4M-bit map of code positions (with caller) at which a process was killed",
            "distinct_states": maps[2],
            "distinct_states_measure": "bits set in a 4M-bit map of hashes of the reference model's state at the points where it is compared with the code",
            "events_of_interest": merge("marks"),
            "failures_of_other_properties_seen": merge("others"),
            "known_finding_runs": merge("known"),
            "components_real": ["all of /repo/src except tests and benchmarks, compiled with step instrumentation"],
            "components_simulated": ["futex and robust lists", "threads and processes", "clocks", "file system and mmap", "inotify, epoll, eventfd",
                                     "/dev/urandom", "malloc", "yyjson (absent from the repository, replaced by a small stand-in)"],
            "workers": workers, "seconds_budget": secs, "build_s": round(tb, 2),
        },
        "assumptions": ["sequentially consistent memory", "the simulated kernel behaves as Linux does for the calls used"],
    }
    if violation:
        ev["coverage"]["violation"] = violation
    p = os.path.join(HERE, spec.get("evidence", "evidence/%s.json" % prop))
    json.dump(ev, open(p + ".tmp", "w"), indent=1)
    os.replace(p + ".tmp", p)


def replay(path, verbose):
    os.makedirs(os.path.join(HERE, "work"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="replay-", dir=os.path.join(HERE, "work"))
    try:
        simbin = B.build(work)
        return subprocess.run([simbin, "replay", path] + (["v"] if verbose else [])).returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)


def selftest(n):
    """The same seeds must give the same hashes in separate processes, alone or next to others, in any order."""
    os.makedirs(os.path.join(HERE, "work"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="self-", dir=os.path.join(HERE, "work"))
    try:
        simbin = B.build(work)
        bad = 0
        for sc in subprocess.run([simbin, "list"], stdout=subprocess.PIPE, text=True).stdout.split():
            whole = subprocess.run([simbin, "hashes", sc, "5000", str(n)], stdout=subprocess.PIPE, text=True).stdout.splitlines()
            k = 8
            ps = [subprocess.Popen([simbin, "hashes", sc, str(5000 + i * (n // k)), str(n // k)], stdout=subprocess.PIPE, text=True) for i in range(k)]
            parts = [x for p in ps for x in p.communicate()[0].splitlines()]
            same = whole[:len(parts)] == parts
            bad += not same
            print("%-12s %d seeds in one process and in %d processes: %s" % (sc, len(parts), k, "equal" if same else "DIFFERENT"))
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "replay":
        sys.exit(replay(a[1], len(a) > 2))
    if a and a[0] == "selftest":
        sys.exit(selftest(int(a[1]) if len(a) > 1 else 4000))
    if a and a[0] == "setup":
        w = os.path.join(HERE, "work", "setup")
        try:
            B.build(w)
        except RuntimeError as e:
            print(e, file=sys.stderr)
            sys.exit(2)
        shutil.rmtree(w, ignore_errors=True)
        sys.exit(0)
    if not a or a[0] not in PROPS:
        print(__doc__, file=sys.stderr)
        sys.exit(2)
    sys.exit(main(a[0]))
