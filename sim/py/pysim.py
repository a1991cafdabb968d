#!/usr/bin/env python3
"""Runs, replays and shrinks simulated executions of the Python parts (same interface as the C++ simulators)."""
import json, os, random, re, struct, sys, time
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tools_world as W
import gui_world
W.WORLDS["C31"] = (gui_world.gen_gui, gui_world.Gui)
from kernel import Sim
from plan import Line, Plan
import _thread
_thread.stack_size(256 * 1024)


class Spec(object):
    def __init__(self, prop, seed, plan):
        self.prop, self.seed, self.plan, self.dec, self.replay = prop, seed, plan, [], False


def make(prop, seed):
    return Spec(prop, seed, W.generate(prop, random.Random(seed)))


def execute(s, trace=False):
    sim = Sim(s.plan, s.dec, s.replay, s.prop, trace, set())
    W.execute(s.prop, s.plan, sim)
    sim.hash = sim.h.hexdigest()
    sim.order_hash = sim.order.hexdigest()
    return sim


def save(path, s, r):
    with open(path, "w") as f:
        f.write("# replay file: property, plan (workload and faults) and schedule\n")
        f.write("property %s\nseed %d\nhash %s\nmsg %s\n" % (s.prop, s.seed, r.hash, r.violation))
        for l in s.plan.lines:
            f.write("plan %s\n" % l)
        f.write("replay 1\n")
        for k, j in (s.dec if s.replay else r.decisions):
            f.write("dec %d %d\n" % (k, j))


def load(path):
    s = Spec("", 0, Plan())
    for l in open(path):
        l = l.rstrip("\n")
        if not l or l[0] == "#":
            continue
        k, _, v = l.partition(" ")
        if k == "property":
            s.prop = v
        elif k == "seed":
            s.seed = int(v)
        elif k == "plan":
            s.plan.lines.append(Line.parse(v))
        elif k == "replay":
            s.replay = True
        elif k == "dec":
            a, b = v.split()
            s.dec.append((int(a), int(b)))
    return s


def kind(m):
    """What a message says, without the details that differ between runs."""
    return re.sub(r"\[.*|'[^']*'|/\S+|[0-9.]+", "", m or "")


def shrink(s, r, seconds):
    end = time.time() + seconds
    same = lambda x: x.violation and kind(x.violation) == want
    want = kind(r.violation)

    def attempt(plan, tries):
        c = Spec(s.prop, s.seed, plan)
        c.replay = True
        rr = execute(c)
        if same(rr):
            return c, rr
        sl = plan.first("sched")
        for i in range(tries):
            if time.time() > end:
                return None
            c = Spec(s.prop, s.seed, Plan([Line(l.kind, **l) for l in plan.lines]))
            if sl is not None and i:
                c.plan.first("sched")["seed"] = random.Random(int(sl["seed"]) + i).randrange(1, 10 ** 9)
            rr = execute(c)
            if same(rr):
                return c, rr
        return None
    again = True
    while again and time.time() < end:
        again = False
        i = len(s.plan.lines) - 1
        while i >= 0 and time.time() < end:
            if i < len(s.plan.lines) and W.droppable(s.plan.lines[i]):
                x = attempt(Plan(s.plan.lines[:i] + s.plan.lines[i + 1:]), 6)
                if x:
                    s, r = x
                    again = True
            i -= 1
        for i in range(len(s.plan.lines)):
            for alt in W.simpler(s.plan.lines[i]):
                if time.time() > end:
                    break
                x = attempt(Plan(s.plan.lines[:i] + [alt] + s.plan.lines[i + 1:]), 6)
                if x:
                    s, r = x
                    again = True
                    break
    if not s.replay:
        c = Spec(s.prop, s.seed, s.plan)
        c.replay, c.dec = True, r.decisions
        rr = execute(c)
        if not same(rr):
            return s, r
        s, r = c, rr
    i = 0
    while i < len(s.dec) and time.time() < end + seconds:
        c = Spec(s.prop, s.seed, s.plan)
        c.replay, c.dec = True, s.dec[:i] + s.dec[i + 1:]
        rr = execute(c)
        if same(rr):
            s, r = c, rr
        else:
            i += 1
    return s, r


def result(r):
    return "result %s hash %s order %s points %d msg %s" % ("VIOLATED" if r.violation else "OTHER" if r.other else "HELD", r.hash, r.order_hash, r.npoint, r.violation or r.other or "")


def main():
    mode = sys.argv[1] if len(sys.argv) > 1 else ""
    o, pos = {}, []
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x.startswith("--") and a:
            o[x[2:]] = a.pop(0)
        else:
            pos.append(x)
    if mode == "run":
        prop, seed0, stride = o["prop"], int(o["seed0"]), int(o.get("stride", 1))
        tmax, nmax, out = float(o.get("time", 10)), int(o.get("count", 10 ** 12)), os.path.abspath(o["out"])
        known = [k for k in o.get("known", "").split("\x1f") if k]
        t0 = time.time()
        d = dict(runs=0, points=0, sim_seconds=0.0, switches=0, preemptions=0, freezes=0, ended_other=0)
        cnt, others, samples, hashes, nt = {}, {}, [], set(), set()
        rc, vio = 0, ""
        k = 0
        while k < nmax and time.time() - t0 < tmax:
            s = make(prop, seed0 + k * stride)
            k += 1
            r = execute(s)
            d["runs"] += 1
            d["points"] += r.npoint
            d["sim_seconds"] += r.now / 1e9
            d["switches"] += r.switches
            d["preemptions"] += r.preemptions
            for c, n in r.counters.items():
                cnt[c] = cnt.get(c, 0) + n
            h = int(r.order_hash, 16)
            hashes.add(h)
            if "chk_" + prop in r.counters:
                if h not in nt and len(samples) < 3:
                    samples.append("seed %d: %s" % (s.seed, "; ".join(str(l) for l in s.plan.lines)[:900]))
                nt.add(h)
            if r.other:
                d["ended_other"] += 1
                others[r.other[:160]] = others.get(r.other[:160], 0) + 1
            if r.violation:
                m = [x for x in known if x in r.violation]
                if m:
                    cnt["known_finding"] = cnt.get("known_finding", 0) + 1
                    continue
                save(out + ".plan", s, r)
                vio, rc = r.violation, 1
                break
        d.update(seconds=time.time() - t0, violation=vio, counters=cnt, others=others, samples=samples)
        json.dump(d, open(out + ".json", "w"))
        with open(out + ".hashes", "wb") as f:
            f.write(struct.pack("<Q", len(hashes)))
            f.write(struct.pack("<%dQ" % len(hashes), *hashes))
            f.write(struct.pack("<%dQ" % len(nt), *nt))
        return rc
    if mode in ("replay", "seed"):
        s = load(os.path.abspath(pos[0])) if mode == "replay" else make(o["prop"], int(o["seed"]))
        r = execute(s, True)
        if o.get("trace") != "0":
            if mode == "seed":
                for l in s.plan.lines:
                    print("plan", l)
            print("\n".join(r.log))
        print(result(r))
        return 1 if r.violation else 0
    if mode == "shrink":
        dst = os.path.abspath(pos[1])
        s = load(os.path.abspath(pos[0]))
        r = execute(s)
        if not r.violation:
            print("does not reproduce")
            return 2
        s, r = shrink(s, r, float(o.get("time", 30)))
        save(dst, s, r)
        print("shrunk to %d plan lines, %d scheduling decisions: %s" % (len(s.plan.lines), len(s.dec), r.violation))
        return 0
    print("usage: run|replay|seed|shrink")
    return 3


if __name__ == "__main__":
    sys.stdout.flush()
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
