#!/usr/bin/env python3
"""Decide one property by seeded simulation with fault injection.

  check.py ID                 search (VERIF_SEED, VERIF_TIER), write evidence/ID.json
  check.py --replay FILE      execute a replay file again

Exit 0: held on everything explored. Exit 1: VIOLATION line(s) printed.
Anything else: the check itself failed."""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
import build as simbuild

SHARDS = 8                                   # fixed: run r belongs to shard r % 8, whatever the machine
SHARD_FLAVOUR = ["a", "z", "a", "p", "a", "z", "a", "p"]
SHARD_FLAVOURS = {"C09": ["a", "t", "t", "z", "t", "t", "a", "t"]}

def flavours(prop):
    return SHARD_FLAVOURS.get(prop, SHARD_FLAVOUR)

def build(prop):
    return simbuild.build(sorted(set(flavours(prop)) | set("zp")))
QUICK_S, THOROUGH_S = 75, 600
REPLAYS = os.path.join(HERE, "replays")
EVID = os.path.join(HERE, "evidence")

MEASURE = ("evaluations = oracle decisions made (an operation's recorded outcome judged against its reference). One run = one plan drawn from "
           "(seed, property, run number). A run is non-trivial when at least one oracle decision was made in it; runs are distinct when the digest over "
           "their complete recorded history (outcomes, messages, callback values, fault firings, schedule) differs.")
REAL = ["all of src/*.c and src/*.cpp (readers, tracer, writers, exception handling)", "src/main.c with getopt (the command-line tool, as a simulated process)",
        "src/wrapper/* (C++ interface, JSON options, buffer interface and its program)", "libpng and zlib (statically linked, on the simulated allocator)", "C library stdio buffering and formatting"]
STUB = ["disk: fopencookie streams over files in a scratch directory", "allocator outcomes and fill bytes", "clock, environment, locale, random numbers",
        "thread scheduler: one baton, switches decided by the plan", "process exit, abort, assert and crash", "json11 (outside the repository, minimal stand-in for the absent submodule)"]
ASSUME = ["the simulator's own encoders and the C library are right", "gcc -O1 with the listed instrumentation keeps the meaning of the sources",
          "in C09's flavour t, a thread can be overtaken only at basic blocks, at accesses to static data some session wrote, and at library calls",
          "a property broken only by executions no drawn plan reaches is not seen: this is seeded search, not proof"]

def say(*a):
    print(*a, flush=True)

def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) match=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4).strip()))
    return out

def scratch():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 1 << 30 else "/tmp"
    return tempfile.mkdtemp(prefix="atsim-", dir=base)

def sim(bins, flav, args, timeout=400):
    env = dict(os.environ, LOCPATH=os.path.join(HERE, "_build", "locale"))
    r = subprocess.run([bins[flav]] + args + ["%s=%s" % (f, bins[f]) for f in ("z", "p")], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, env=env, timeout=timeout)
    return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")

def search(bins, prop, seed, seconds, top, maxruns=10**9, first=0, stop_on_violation=True):
    """All shards in parallel. Returns per-shard (run lines, violations, stats), errors."""
    env = dict(os.environ, LOCPATH=os.path.join(HERE, "_build", "locale"))
    procs = []
    for i in range(SHARDS):
        d = os.path.join(top, "s%d" % i)
        os.makedirs(d, exist_ok=True)
        out, err = open(d + ".out", "wb"), open(d + ".err", "wb")
        procs.append((i, subprocess.Popen([bins[flavours(prop)[i]], "run", prop, str(seed), str(first * SHARDS + i), str(SHARDS), str(seconds), str(maxruns), d] +
                      ["%s=%s" % (f, bins[f]) for f in ("z", "p")], stdin=subprocess.DEVNULL, stdout=out, stderr=err, env=env, start_new_session=True)))
    t0, seen_at, killed = time.time(), None, []
    pos = [0] * SHARDS
    while any(p.poll() is None for _, p in procs):
        time.sleep(0.3)
        for i, _ in procs:
            if seen_at is None and stop_on_violation:
                with open(os.path.join(top, "s%d.out" % i), "rb") as f:
                    f.seek(pos[i])
                    new = f.read()
                    pos[i] += max(new.rfind(b"\n") + 1, 0)
                if re.search(rb"^VIOL ", new, re.M):
                    seen_at = time.time()
        if seen_at and time.time() - seen_at > 4:
            open(os.path.join(top, "stop"), "w").close()
        late = time.time() - t0 - seconds
        if late > 150 or (seen_at and time.time() - seen_at > 60):
            for i, p in procs:
                if p.poll() is None:
                    killed.append(i)
                    os.killpg(p.pid, 9)
    runs, viols, stats, errors = [], [], {}, []
    for i, p in procs:
        p.wait()
        for l in open(os.path.join(top, "s%d.out" % i), errors="replace"):
            if not l.endswith("\n"):
                continue
            w = l.split()
            if w[0] == "RUN":
                c, s = w.index("C"), w.index("S")
                runs.append((int(w[1]), w[2], int(w[3]), w[c + 1:s], w[s + 1:]))
            elif w[0] == "VIOL":
                m = re.match(r"VIOL (\d+) (\S+) (\S+) \| (.*)", l)
                viols.append((int(m.group(1)), m.group(3), m.group(2), m.group(4), flavours(prop)[i]))
            elif w[0] == "STATS":
                for kv in w[1:]:
                    k, v = kv.split("=")
                    stats[k] = stats.get(k, 0) + float(v)
        if p.returncode and i not in killed:
            e = open(os.path.join(top, "s%d.err" % i), errors="replace").read()
            errors.append("shard %d ended with %d: %s" % (i, p.returncode, e[-600:]))
        elif i in killed:
            errors.append("shard %d did not stop in time" % i)
    if os.path.exists(os.path.join(top, "stop")):
        os.unlink(os.path.join(top, "stop"))
    return runs, viols, stats, errors, bool(seen_at)

def reproduce(bins, flav, prop, cls, plan, top):
    """Two fresh processes, different scratch directories: same class, same digest."""
    dig, text = [], ""
    for k in range(2):
        rc, out, err = sim(bins, flav, ["replay", prop, plan, os.path.join(top, "rp%d" % k)])
        m = re.search(r"^DIGEST (\S+)", out, re.M)
        t = re.search(r"^VIOL \S+ \S+ %s \| (.*)$" % re.escape(cls), out, re.M)
        if rc or not m or not t:
            return None
        dig.append(m.group(1))
        text = t.group(1)
    return text if dig[0] == dig[1] else None

def settle(bins, prop, seed, viols, top, tier):
    """Minimise and replay the earliest violation of each class. Returns (reported, known, unreproduced)."""
    kf = known_findings(prop)
    first = {}
    for v in sorted(viols):
        first.setdefault(v[1], []).append(v)
    reported, known, bad = [], [], []
    t0 = time.time()
    for cls, vs in sorted(first.items(), key=lambda x: x[1][0]):
        if len(reported) >= 3:
            break
        ok = False
        for run, _, plan, text, flav in vs[:4]:
            text2 = reproduce(bins, flav, prop, cls, plan, top)
            if not text2:
                bad.append("run %d %s" % (run, cls))
                continue
            os.makedirs(REPLAYS, exist_ok=True)
            small = os.path.join(top, "min.plan")
            budget = 40 if not reported else 10
            try:
                rc, out, _ = sim(bins, flav, ["minimise", prop, plan, small, cls, os.path.join(top, "mn"), str(budget)], timeout=budget + 200)
            except subprocess.TimeoutExpired:
                rc = 9
            text3 = reproduce(bins, flav, prop, cls, small, top) if rc == 0 else None
            src = small if text3 else plan
            what = text3 or text2
            hit = [k for k in kf if k[0] == cls and k[1].search(what)]
            if hit:
                known.append(hit[0][2])
                ok = True
                continue      # another violation of this class may be a different one
            dst = os.path.join(REPLAYS, "%s-%s-seed%d-run%d.plan" % (prop, cls, seed, run))
            with open(dst, "w") as f:
                f.write("# property %s\n# flavour %s\n# seed %d run %d\n# class %s\n# %s\n%s" % (prop, flav, seed, run, cls, what, open(src).read()))
            reported.append((cls, what, dst))
            ok = True
            break
    return reported, sorted(set(known)), bad

def run_check(prop):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seconds = float(os.environ.get("SIM_SECONDS", THOROUGH_S if tier == "thorough" else QUICK_S))
    bins = build(prop)
    build_s = time.time() - t0
    top = scratch()
    try:
        t1 = time.time()
        runs, viols, stats, errors, stopped = search(bins, prop, seed, seconds, top)
        search_s = time.time() - t1
        reported, known, bad = settle(bins, prop, seed, viols, top, tier) if viols else ([], [], [])
        # the same seeds again in fresh processes must give the same histories
        again = {}
        if not reported and not errors:
            k = 2 if tier == "quick" else 12
            os.makedirs(os.path.join(top, "again"))
            r2, _, _, e2, _ = search(bins, prop, seed, 60 if tier == "quick" else 300, os.path.join(top, "again"), maxruns=k, stop_on_violation=False)
            errors += e2
            again = {r[0]: r[1] for r in r2}
        first = {r[0]: r[1] for r in runs}
        differ = [r for r in again if r in first and first[r] != again[r]]
        compared = len([r for r in again if r in first])
        good = [r for r in runs if r[2] > 0]
        samples = []
        for r in sorted(good)[:2]:
            rc, out, _ = sim(bins, "z", ["gen", prop, str(seed), str(r[0])])
            samples.append({"run": r[0], "flavour": flavours(prop)[r[0] % SHARDS], "history_digest": r[1], "plan": out.splitlines()})
        faults = {k[6:]: int(v) for k, v in stats.items() if k.startswith("fault.") and v}
        extra = {k[2:]: int(v) for k, v in stats.items() if k.startswith("x.")}
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": int(stats.get("evals", 0)), "distinct_nontrivial": len({r[1] for r in good}), "rule": MEASURE, "samples": samples,
                           "simulated_runs": len(runs), "executions": int(stats.get("execs", 0)), "seeds_per_hour": int(len(runs) / max(search_s, 0.1) * 3600),
                           "simulated_clock_seconds_moved": int(stats.get("simtime", 0)), "simulated_steps": int(stats.get("steps", 0)),
                           "step_meaning": "basic blocks of the code under test executed on the simulated timeline",
                           "stream_operations": int(stats.get("io", 0)), "allocations": int(stats.get("allocs", 0)), "thread_switches": int(stats.get("switches", 0)),
                           "faults_fired": faults, "oracle_outcomes": extra,
                           "distinct_code_paths": len({c for r in runs for c in r[3]}), "distinct_code_paths_measure": "distinct hashes of the set of code edges covered by one execution",
                           "distinct_interleavings": len({c for r in runs for c in r[4]}), "distinct_interleavings_measure": "distinct hashes of (step, thread) switch sequences of one execution",
                           "determinism": {"runs_executed_twice": compared, "histories_that_differed": len(differ)},
                           "real_components": REAL, "stub_components": STUB, "flavours": {f: flavours(prop).count(f) for f in "azpt"},
                           "stopped_at_first_violation": stopped},
              "assumptions": ASSUME, "wall_s": round(time.time() - t0, 1), "build_s": round(build_s, 1), "violations": len(reported)}
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, ".%s.%d" % (prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(tmp, os.path.join(EVID, prop + ".json"))
        say("%s seed=%d tier=%s: %d runs, %d evaluations, %d distinct histories, %d fault firings, %.0f s" %
            (prop, seed, tier, len(runs), int(stats.get("evals", 0)), len({r[1] for r in good}), sum(faults.values()), time.time() - t0))
        for k in known:
            say("KNOWN-FINDING: property=%s %s" % (prop, k))
        for cls, what, dst in reported:
            say("  %s: %s" % (cls, what))
            say("VIOLATION property=%s replay=%s" % (prop, dst))
        if reported:
            return 1
        for e in errors:
            say("error: " + e)
        if bad:
            say("error: violations that did not replay: " + ", ".join(bad[:5]))
        if differ:
            say("error: runs whose history differed between two executions: %s" % differ[:5])
        return 3 if errors or bad or differ or not good else 0
    finally:
        shutil.rmtree(top, ignore_errors=True)

def run_replay(path):
    head = open(path).read()
    prop = re.search(r"^# property (\S+)", head, re.M).group(1)
    flav = re.search(r"^# flavour (\S+)", head, re.M).group(1)
    cls = re.search(r"^# class (\S+)", head, re.M).group(1)
    bins = build(prop)
    top = scratch()
    try:
        text = reproduce(bins, flav, prop, cls, path, top)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    if text:
        say("  %s: %s" % (cls, text))
        say("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    say("not reproduced on this tree: " + cls)
    return 0

if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(run_replay(os.path.abspath(sys.argv[2])))
    if len(sys.argv) != 2:
        sys.stderr.write(__doc__)
        sys.exit(2)
    sys.exit(run_check(sys.argv[1]))
