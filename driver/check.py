#!/usr/bin/env python3
"""Decides one property by deterministic simulation.

check.py --property C01 [--tier quick|thorough] [--seconds S] [--seed N]
check.py --build-only
check.py --replay FILE

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Exit 2: the check itself could not be carried out (no verdict).
"""
import argparse, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, os.path.join(VERIF, "driver"))
from catalogue import CATALOGUE   # per property: flavours, seconds, texts

FLAGS = {
    "F": ["-fopenmp", "-fsanitize-coverage=trace-pc"],
    "N": ["-fsanitize-coverage=trace-pc", "-Wno-unknown-pragmas"],
    "R": ["-fopenmp", "-fsanitize=thread"],
    "A": ["-DVP_APP", "-fopenmp", "-fsanitize-coverage=trace-pc"],
}
CXX = ["g++", "-std=c++17", "-fno-pie"]


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def files_under(d, exts):
    out = []
    for r, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(r, f))
    return out


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def build(flavours):
    """Builds what is missing, from the current working tree of the repository."""
    own = files_under(os.path.join(VERIF, "sim"), (".h", ".cpp")) + files_under(
        os.path.join(VERIF, "harness"), (".h", ".cpp", ".def"))
    src = files_under(os.path.join(REPO, "printemps"), (".h", ".hpp", ".cpp"))
    if not src:
        die("no sources under %s/printemps" % REPO)
    key = digest(own + src, repr(FLAGS))
    d = os.path.join(BUILD, key)
    os.makedirs(d, exist_ok=True)
    jobs = []

    def job(name, cmd):
        o = os.path.join(d, name)
        if not os.path.exists(o):
            t = "%s.%d.tmp" % (o, os.getpid())
            jobs.append((name, o, t, subprocess.Popen(cmd + ["-o", t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for f in flavours:
        job("t_%s.o" % f, CXX + ["-O1", "-g1"] + FLAGS[f] + ["-I" + os.path.join(REPO, "printemps"), "-c", os.path.join(VERIF, "harness", "target.cpp")])
    for n in ("scenario", "main", "props"):
        job(n + ".o", CXX + ["-O2", "-c", os.path.join(VERIF, "harness", n + ".cpp")])
    job("simrt.o", CXX + ["-O2", "-c", os.path.join(VERIF, "sim", "simrt.cpp")])
    for name, o, t, p in jobs:
        out = p.communicate()[0].decode(errors="replace")
        if p.returncode != 0:
            for q in jobs:
                q[3].poll() is None and q[3].kill()
            die("cannot compile %s:\n%s" % (name, out[-4000:]))
        os.rename(t, o)
    for f in flavours:
        e = os.path.join(d, "simrun-" + f)
        if not os.path.exists(e):
            t = "%s.%d.tmp" % (e, os.getpid())
            r = subprocess.run(["g++", "-no-pie", "-o", t] + [os.path.join(d, n) for n in ("main.o", "props.o", "scenario.o", "t_%s.o" % f, "simrt.o")] + ["-ldl"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                die("cannot link %s:\n%s" % (f, r.stdout.decode(errors="replace")[-4000:]))
            os.rename(t, e)
    # keep the two most recent builds only
    old = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD)), key=os.path.getmtime)
    for x in old[:-2]:
        if x != d:
            shutil.rmtree(x, ignore_errors=True)
    os.utime(d)
    return d


def known_findings(prop):
    """Lines: 'finding: property=C08 match=<regular expression> :: text'."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


FOUND = re.compile(r"FOUND seed=(\d+) kind=(\S+) file=(\S+) msg=(.*)$")


def sweep(exe, prop, first, workers, seconds, out, scratch, env, known):
    """Runs the workers until the time is over or one of them reports."""
    procs = []
    for w in range(workers):
        log = open(os.path.join(out, "log-%d" % w), "w")
        procs.append(subprocess.Popen([exe, "batch", prop, str(first + w), str(workers), "100000000", str(seconds), out],
                                      stdout=log, stderr=subprocess.STDOUT, env=env, start_new_session=True))
    t_end = time.time() + seconds + 330
    stop_at = None
    while any(p.poll() is None for p in procs):
        time.sleep(0.1)
        found = False
        for w in range(workers):
            with open(os.path.join(out, "log-%d" % w)) as f:
                for l in f:
                    m = FOUND.match(l)
                    if m and not any(rx.search("kind=%s %s" % (m.group(2), m.group(4))) for rx, _ in known):
                        found = True
        if found and stop_at is None:
            stop_at = time.time() + 20
            for p in procs:
                if p.poll() is None:
                    p.send_signal(signal.SIGTERM)   # finish the current case
        if time.time() > t_end or (stop_at and time.time() > stop_at):
            for p in procs:
                if p.poll() is None:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
            break
    for p in procs:
        p.wait()
    lines = []
    for w in range(workers):
        with open(os.path.join(out, "log-%d" % w), errors="replace") as f:
            lines += f.read().splitlines()
    rcs = [p.returncode for p in procs]
    return lines, rcs


def merge(out):
    tot, faults, notes, sched, outc, samples = {}, {}, {}, set(), set(), []
    for f in glob.glob(os.path.join(out, "tally-*.json")):
        t = json.load(open(f))
        for k, v in t.items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
        for src, dst in ((t["faults"], faults), (t["notes"], notes)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        sched.update(t["schedules"])
        outc.update(t["outcomes"])
        samples += t["samples"][:2]
    return tot, faults, notes, sched, outc, samples


def replay(exe, path, env):
    r = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    t = r.stdout.decode(errors="replace")
    m = re.search(r"hash=(\w+) violated=(\d) kind=(\S*)", t)
    return (m.groups() if m else None), t


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--workers", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.build_only:
        build(["F", "N", "R", "A"])
        return 0
    if a.replay:
        txt = open(a.replay).read()
        a.property = re.search(r"^property (\S+)", txt, re.M).group(1)
    t0 = time.time()
    spec = CATALOGUE[a.property]
    d = build(spec["flavours"])
    t_build = time.time() - t0
    exe = os.path.join(d, "simrun-" + spec["flavours"][0])
    scratch = tempfile.mkdtemp(prefix="vpscratch.")
    env = dict(os.environ, SIM_SCRATCH=scratch, LC_ALL="C", OMP_NUM_THREADS="1")
    if a.tier == "thorough":
        env["SIM_THOROUGH"] = "1"
    rc = 2
    try:
        if a.replay:
            g, text = replay(exe, a.replay, env)
            print(text)
            if g and g[1] == "1":
                print("VIOLATION property=%s replay=%s" % (a.property, a.replay))
            return 1 if g and g[1] == "1" else 0
        rc = run(a, spec, d, exe, scratch, env, t0, t_build)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def run(a, spec, d, exe, scratch, env, t0, t_build):
    prop = a.property
    seconds = a.seconds or (spec["thorough_s"] if a.tier == "thorough" else spec["quick_s"])
    out = os.path.join(scratch, "out")
    os.makedirs(out)
    first = (a.seed % 1000003) * 10000000 + (5000000 if a.tier == "thorough" else 0) + 1
    known = known_findings(prop)
    kenv = dict(env)
    if known:
        kenv["SIM_KEEP_GOING"] = "1"
    t1 = time.time()
    # reproducibility: the first cases in two fresh processes, one of them in
    # another directory, must leave identical records
    det = []
    for k in range(2):
        s2 = os.path.join(scratch, "det%d" % k)
        os.makedirs(s2)
        det.append(subprocess.Popen([exe, "repeat", prop, str(first), "6"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(env, SIM_SCRATCH=s2)))
    det = [p.communicate()[0].decode() for p in det]
    if det[0] != det[1]:
        print("ERROR: two executions of the same seeds differ")
        print("\n".join(x + "   |   " + y for x, y in zip(det[0].splitlines(), det[1].splitlines()) if x != y))
        return 2
    lines, rcs = sweep(exe, prop, first, a.workers, seconds, out, scratch, kenv, known)
    t_sweep = time.time() - t1
    tot, faults, notes, sched, outc, samples = merge(out)
    found = []
    bad = [l for l in lines if l.startswith(("BAD ", "NONDET "))]
    hits = {}
    for l in lines:
        m = FOUND.match(l)
        if not m:
            continue
        for rx, text in known:
            if rx.search("kind=%s %s" % (m.group(2), m.group(4))):
                hits[text] = hits.get(text, 0) + 1
                break
        else:
            found.append(m.groups())
    verdict = None
    for seed, kind, path, msg in found[:3]:
        ce = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(ce, exist_ok=True)
        dst = os.path.join(ce, "%s-%s.case" % (prop, seed))
        shutil.copy(path, dst)
        small = dst.replace(".case", ".min.case")
        budget = 120 if a.tier == "thorough" else 40
        try:
            subprocess.run([exe, "minimise", dst, small, str(budget)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, timeout=budget + 300)
        except subprocess.TimeoutExpired:
            pass
        for cand in (small, dst):
            if not os.path.exists(cand):
                continue
            g1, text = replay(exe, cand, env)
            g2, _ = replay(exe, cand, env)
            if g1 and g1 == g2 and g1[1] == "1":
                verdict = (seed, kind, cand, msg, text)
                break
        if verdict:
            break
    cov = {
        "evaluations": int(tot.get("cases", 0)),
        "distinct_nontrivial": min(len(outc), int(tot.get("nontrivial", 0))),
        "rule": spec["rule"],
        "samples": samples[:6] or ["no case completed"],
        "simulated_runs": int(tot.get("legs", 0)),
        "cases_per_hour": round(3600.0 * tot.get("cases", 0) / max(t_sweep, 1e-9)),
        "simulated_runs_per_hour": round(3600.0 * tot.get("legs", 0) / max(t_sweep, 1e-9)),
        "seeds": {"first": first, "stride": 1, "workers": a.workers},
        "simulated_seconds": tot.get("sim_seconds", 0),
        "work_units_executed": int(tot.get("work", 0)),
        "faults_injected": faults,
        "distinct_schedules": len(sched),
        "distinct_schedules_measure": "hash over every (decision index, worker chosen) of a run with at least one multi-worker region",
        "distinct_outcomes": len(outc),
        "distinct_outcomes_measure": "hash of the trajectory of search states, returned values, objective, number of loops, produced files and way of ending",
        "scheduling_decisions": int(tot.get("decisions", 0)),
        "multi_worker_regions": int(tot.get("par_regions", 0)),
        "search_states_checked": int(tot.get("states", 0)),
        "memory_accesses_checked": int(tot.get("accesses", 0)),
        "run_endings": {k[4:]: v for k, v in sorted(notes.items(), key=lambda q: -q[1])[:12] if k.startswith("end:")},
        "skipped_cases": int(tot.get("skipped", 0)),
        "determinism": {"cases_repeated_in_fresh_processes": len(det[0].splitlines()), "mismatches": 0, "found_but_not_reproducible": len([b for b in bad if b.startswith("NONDET")])},
        "real_components": spec["real"],
        "stub_components": ["OpenMP runtime (fibers on one thread, seeded scheduler)", "clock", "file system call layer (real files in a scratch directory behind injected faults)", "heap allocator (fixed arena)"],
        "build_s": round(t_build, 1),
    }
    ev = {"property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed, "level": spec["level"], "coverage": cov,
          "assumptions": spec["assumptions"], "wall_s": round(time.time() - t0, 1), "violations": 1 if verdict else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    print("%s %s: %d cases, %d simulated runs, %d distinct schedules, %d distinct outcomes, faults %s, build %.0f s, search %.0f s"
          % (prop, a.tier, tot.get("cases", 0), tot.get("legs", 0), len(sched), len(outc), json.dumps(faults), t_build, t_sweep))
    for text, n in hits.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if verdict:
        seed, kind, path, msg, text = verdict
        print("seed %s kind %s: %s" % (seed, kind, msg))
        print(text.rstrip())
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if found:
        print("ERROR: a violation was found but could not be replayed: %s" % (found[0],))
        return 2
    if bad:
        print("\n".join(bad[:5]))
    if any(b.startswith("NONDET") for b in bad):
        print("ERROR: a violation did not repeat")
        return 2
    if tot.get("cases", 0) < 10 or len(bad) > 0.02 * tot.get("cases", 0):
        print("ERROR: too few completed cases (%d, %d broken)" % (tot.get("cases", 0), len(bad)))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
