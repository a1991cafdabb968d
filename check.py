#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough : decides one property by seeded simulation of the tree in /repo.
   check.py build [WORLD...]       : only builds.        check.py replay FILE : replays a replay file with its trace."""
import fcntl, hashlib, json, os, shutil, struct, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
REPO = os.environ.get("VERIF_REPO", "/repo")
S = os.path.join(V, "sim")
BUILD = os.path.join(V, "build")
JOBS = min(8, os.cpu_count() or 4)
from worlds import WORLDS, PROPS  # noqa: E402


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------------------------------------ building
def sources(world):
    """Everything the binary of a world depends on."""
    w = WORLDS[world]
    files = []
    for d in [os.path.join(S, "core"), os.path.join(S, "stubs"), os.path.join(S, "worlds")]:
        for r, _, fs in os.walk(d):
            files += [os.path.join(r, f) for f in fs]
    files += [os.path.join(S, "gen_msgs.py"), os.path.join(V, "tools", "worlds.py"), os.path.abspath(__file__)]
    for d in w["repo_dirs"]:
        for r, _, fs in os.walk(os.path.join(REPO, d)):
            files += [os.path.join(r, f) for f in fs]
    return sorted(files)


def digest(world):
    h = hashlib.sha256()
    for f in sources(world):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fd:
            h.update(fd.read() + b"\0")
    return h.hexdigest()[:20]


def build(world):
    """Builds the simulator of a world from the repository's working tree; the result is cached by content."""
    w = WORLDS[world]
    if w["lang"] == "py":
        return None
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, world + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        dig = digest(world)
        out = os.path.join(BUILD, world + "-" + dig)
        exe = os.path.join(out, "sim")
        if os.path.exists(exe):
            os.utime(out)
            return exe
        for d in os.listdir(BUILD):  # builds of other trees, unless a check of one of them may still be running
            p = os.path.join(BUILD, d)
            if d.startswith(world + "-") and time.time() - os.stat(p).st_mtime > 1000:
                shutil.rmtree(p, ignore_errors=True)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        subprocess.run([sys.executable, os.path.join(S, "gen_msgs.py"), REPO, os.path.join(tmp, "gen")], check=True, stdout=subprocess.DEVNULL)
        inc = ["-I" + S, "-I" + os.path.join(S, "stubs"), "-I" + os.path.join(tmp, "gen")] + ["-I" + os.path.join(REPO, d) for d in w["includes"]]
        common = ["clang++", "-std=c++17", "-g", "-Wno-everything", "-DVERIF_SIM", "-c"]
        tsan = ["-O1", "-fsanitize=thread", "-ftrivial-auto-var-init=pattern"]
        jobs = [(common + ["-O2", "-I" + S, os.path.join(S, "core/sim.cpp"), "-o"], "core.o"),
                (common + tsan + ["-I" + S, os.path.join(S, "core/framework.cpp"), "-o"], "framework.o")]
        for f in w["sources"]:
            jobs.append((common + tsan + inc + w.get("flags", []) + [os.path.join(S, f), "-o"], "h_" + os.path.basename(f) + ".o"))
        import glob
        for f in [os.path.relpath(g, REPO) for pat in w["repo_sources"] for g in sorted(glob.glob(os.path.join(REPO, pat)))]:
            jobs.append((common + tsan + inc + w.get("flags", []) + [os.path.join(REPO, f), "-o"], "r_" + os.path.basename(f) + ".o"))
        procs = []
        t0 = time.time()
        for cmd, o in jobs:
            while sum(p.poll() is None for p, _, _ in procs) >= JOBS:
                time.sleep(0.02)
            procs.append((subprocess.Popen(cmd + [os.path.join(tmp, o)], stderr=subprocess.PIPE, text=True), o, cmd))
        bad = False
        for p, o, cmd in procs:
            _, err = p.communicate()
            if p.returncode:
                bad = True
                log(" ".join(cmd), "\n", err[-4000:])
        if bad:
            shutil.rmtree(tmp, ignore_errors=True)
            log("BUILD FAILED for world", world)
            sys.exit(2)
        objs = [os.path.join(tmp, o) for _, o in jobs if o != "core.o"] + [os.path.join(tmp, "core.o")]
        r = subprocess.run(["clang++", "-rdynamic"] + w.get("ldflags", []) + objs + ["-o", os.path.join(tmp, "sim"), "-lpthread"] + w.get("libs", []), stderr=subprocess.PIPE, text=True)
        if r.returncode:
            log(r.stderr[-4000:])
            shutil.rmtree(tmp, ignore_errors=True)
            log("LINK FAILED for world", world)
            sys.exit(2)
        for o in objs:
            os.remove(o)
        os.rename(tmp, out)
        log("built world %s in %.1f s" % (world, time.time() - t0))
        return exe


def runner(world):
    """The command that runs a world (same command line interface for C++ and Python worlds)."""
    w = WORLDS[world]
    if w["lang"] == "py":
        return [sys.executable, "-B", os.path.join(S, w["script"])]
    return [build(world)]


# ------------------------------------------------------------------------------------------------ findings
def known_findings():
    known = {}
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: "):
                # finding: property=<id> match=<substring of the violation message> :: <what fails>
                head, _, what = line[len("finding: "):].partition(" :: ")
                prop, _, m = head.partition(" match=")
                known.setdefault(prop.split("=")[1], []).append((m, what))
    return known


# ------------------------------------------------------------------------------------------------ checking
def check(prop, tier):
    t0 = time.time()
    spec = PROPS[prop]
    world = spec["world"]
    cmd = runner(world)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    n, tmax = spec[tier]
    out = os.path.join(BUILD, "out-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    env = dict(os.environ, VERIF_REPO=REPO, PYTHONHASHSEED="0")
    known = known_findings().get(prop, [])
    for m, what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what), flush=True)
    base = seed * 1000000007
    procs = []
    for k in range(JOBS):
        a = cmd + ["run", "--prop", prop, "--seed0", str(base + k), "--stride", str(JOBS), "--count", str((n + JOBS - 1) // JOBS), "--time", str(tmax), "--tier", tier,
                   "--out", os.path.join(out, "w%d" % k)]
        if known:
            a += ["--known", "\x1f".join(m for m, _ in known)]
        procs.append(subprocess.Popen(a, env=env, stdout=open(os.path.join(out, "w%d.log" % k), "w"), stderr=subprocess.STDOUT))
    bad = None
    hard = time.time() + tmax + 120
    while bad is None and any(p.poll() is None for p in procs):
        for k, p in enumerate(procs):
            if p.poll() is not None and p.returncode not in (0,):
                bad = k
                break
        if time.time() > hard:
            bad = -1
            break
        time.sleep(0.05)
    if bad is None:
        for k, p in enumerate(procs):
            if p.returncode != 0:
                bad = k
    if bad is not None:
        time.sleep(0.5)  # let others that are about to finish write their results
        for p in procs:
            if p.poll() is None:
                p.kill()
        for p in procs:
            p.wait()
    # ---- statistics
    tot = dict(runs=0, points=0, sim_seconds=0.0, switches=0, preemptions=0, freezes=0, ended_other=0)
    cnt, others, samples, secs = {}, {}, [], 0.0
    allh, nth = set(), set()
    for k in range(JOBS):
        f = os.path.join(out, "w%d.json" % k)
        if not os.path.exists(f):
            continue
        d = json.load(open(f))
        for x in tot:
            tot[x] += d[x]
        secs = max(secs, d["seconds"])
        for c, x in d["counters"].items():
            cnt[c] = cnt.get(c, 0) + x
        for c, x in d["others"].items():
            others[c] = others.get(c, 0) + x
        samples += d["samples"][:1] if k else d["samples"][:2]
        b = open(os.path.join(out, "w%d.hashes" % k), "rb").read()
        n1 = struct.unpack_from("<Q", b)[0]
        h = struct.unpack_from("<%dQ" % (len(b) // 8 - 1), b, 8)
        allh.update(h[:n1])
        nth.update(h[n1:])
    rc, nviol = 0, 0
    if bad is not None:
        rc = report(prop, cmd, out, procs, bad, tier, env)
        nviol = 1 if rc == 1 else 0
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(wall, 2), violations=nviol,
              coverage=dict(
                  evaluations=tot["runs"], distinct_nontrivial=len(nth),
                  rule="one evaluation is one simulated run: workload, faults and schedule generated from one seed. %s Runs are distinct by the hash of the order of their events; a run counts as non-trivial if it evaluated this property's oracle at least once (counter chk_%s)." % (spec["rule"], prop),
                  samples=samples[:6],
                  seeds="%d..%d" % (base, base + tot["runs"]),
                  runs_per_hour=int(tot["runs"] / secs * 3600) if secs else 0,
                  seeds_per_hour=int(tot["runs"] / secs * 3600) if secs else 0,
                  simulated_seconds=round(tot["sim_seconds"], 3),
                  scheduling_points=tot["points"], context_switches=tot["switches"], preemptions=tot["preemptions"], frozen_threads=tot["freezes"],
                  distinct_event_orders=len(allh),
                  faults={k[6:]: v for k, v in sorted(cnt.items()) if k.startswith("fault_")},
                  oracle_evaluations={k[4:]: v for k, v in sorted(cnt.items()) if k.startswith("chk_")},
                  operations={k[3:]: v for k, v in sorted(cnt.items()) if k.startswith("op_")},
                  events={k[3:]: v for k, v in sorted(cnt.items()) if k.startswith("ev_")},
                  other_counters={k: v for k, v in sorted(cnt.items()) if k.split("_")[0] not in ("fault", "chk", "op", "ev")},
                  runs_ended_by_other_properties=tot["ended_other"], other_properties=dict(sorted(others.items())[:10]),
                  real_components=WORLDS[world]["real"], stubbed_components=WORLDS[world]["stub"]),
              assumptions=WORLDS[world]["assume"])
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(out, ignore_errors=True)
    log("%s %s: %d runs, %d non-trivial distinct, %.0f simulated s, %.1f s wall" % (prop, tier, tot["runs"], len(nth), tot["sim_seconds"], wall))
    return rc


def replay(cmd, f, env, trace=False):
    r = subprocess.run(cmd + ["replay", f] + ([] if trace else ["--trace", "0"]), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    last = [x for x in r.stdout.splitlines() if x.startswith("result ")]
    return r.returncode, (last[-1] if last else "no result (%s)" % r.stderr[-300:])


def report(prop, cmd, out, procs, bad, tier, env):
    """A worker found a violation: minimise it, check that it replays exactly, and report it."""
    if bad < 0 or procs[bad].returncode != 1 or not os.path.exists(os.path.join(out, "w%d.plan" % bad)):
        for k, p in enumerate(procs):
            if p.returncode == 1 and os.path.exists(os.path.join(out, "w%d.plan" % k)):
                bad = k
                break
        else:
            log("worker %d failed with %s" % (bad, procs[bad].returncode if bad >= 0 else "a time-out"))
            for k in range(JOBS):
                log(open(os.path.join(out, "w%d.log" % k)).read()[-1000:])
            return 2
    plan = os.path.join(out, "w%d.plan" % bad)
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    seed = [x.split()[1] for x in open(plan) if x.startswith("seed ")][0]
    dst = os.path.join(V, "replays", "%s-%s.replay" % (prop, seed))
    # the unshrunk run first: it must replay
    rc0, res0 = replay(cmd, plan, env)
    mini = os.path.join(out, "min")
    shrunk = False
    if rc0 == 1:
        try:
            r = subprocess.run(cmd + ["shrink", plan, mini, "--time", "20" if tier == "quick" else "120"], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=420)
            log(r.stdout.strip()[-300:])
            shrunk = r.returncode == 0
        except subprocess.TimeoutExpired:
            pass
    shutil.copy(mini if shrunk else plan, dst)
    rc1, res1 = replay(cmd, dst, env)
    rc2, res2 = replay(cmd, dst, env)
    if shrunk and (rc1 != 1 or res1 != res2):
        shutil.copy(plan, dst)
        rc1, res1 = replay(cmd, dst, env)
        rc2, res2 = replay(cmd, dst, env)
    if rc1 != 1 or res1 != res2:
        log("the violation does not replay exactly:", res0, "|", res1, "|", res2)
        print("violation seen but not reproducible, see", dst)
        return 2
    print("seed %s: %s" % (seed, res1.partition(" msg ")[2]))
    print("VIOLATION property=%s replay=%s" % (prop, dst), flush=True)
    return 1


def main():
    a = sys.argv[1:]
    if a and a[0] == "build":
        for w in a[1:] or WORLDS:
            if WORLDS[w]["lang"] != "py":
                build(w)
        return 0
    if a and a[0] == "replay":
        prop = [x.split()[1] for x in open(a[1]) if x.startswith("property ")][0]
        return subprocess.run(runner(PROPS[prop]["world"]) + ["replay", a[1]], env=dict(os.environ, VERIF_REPO=REPO, PYTHONHASHSEED="0")).returncode
    if len(a) == 2 and a[0] in PROPS and a[1] in ("quick", "thorough"):
        return check(a[0], a[1])
    print(__doc__)
    return 3


if __name__ == "__main__":
    sys.exit(main())
