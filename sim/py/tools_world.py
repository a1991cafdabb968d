"""C26-C29: the command line tools and discovery utilities against simulated controller managers."""
import os, random, shutil, sys, tempfile
from collections import OrderedDict
from kernel import MS, S, Sim, Killed
from fakeros import Ros
from model import Manager, Service, SERVICES
from plan import Line, Plan

REPO = os.environ.get("VERIF_REPO", "/repo")
_scratch = None


def scratch():
    """A directory with the files the tools are given, removed when the process ends."""
    global _scratch
    if _scratch is None:
        import atexit
        _scratch = tempfile.mkdtemp(prefix="verif-tools-")
        atexit.register(lambda d=_scratch: shutil.rmtree(d, ignore_errors=True))
        os.chdir(_scratch)
    return _scratch


def names(l, k):
    return [x for x in l.get(k, "").split(",") if x]


class Hooks(object):
    """Applies the plan's faults to the service calls of the tool and records them."""

    def __init__(self, w):
        self.w = w
        self.calls = []
        self.faulted = []

    def before(self, c):
        w, sim = self.w, self.w.sim
        self.calls.append(c)
        c.param_set = "/" + getattr(c.req, "name", "") + "/type" in w.ros.params
        n = w.base + c.n if hasattr(w, "base") else c.n
        c.n = n
        r = random.Random(w.netseed * 100003 + n)
        hi = w.nethi
        c.latency = (int(r.uniform(0.1, hi) * MS), int(r.uniform(0.1, hi) * MS))
        c.drop = r.random() < w.netdrop
        for l in w.plan.all("fault"):
            if int(l["call"]) == n:
                c.fault = l["kind"]
                if c.fault == "slow":
                    sim.count("fault_slow_call")
                    c.latency = (c.latency[0] + int(l.get("ms", 1000)) * MS, c.latency[1])
                if c.fault in ("crash_before", "crash_after") and int(l.get("down", -1)) >= 0:
                    w.restart_after = int(l["down"]) * MS
        self.act(n, "before")
        for l in w.plan.all("sig"):
            if int(l.get("call", 0)) == n and l.get("phase") == "mid":
                sim.at(sim.now + c.latency[0] // 2, w.request_shutdown(l))
            if int(l.get("call", 0)) == n and l.get("phase") == "wait":
                sim.at(sim.now + c.latency[0] + c.latency[1] // 2, w.request_shutdown(l))
        for l in w.plan.all("other"):
            if int(l.get("call", 0)) == n and l.get("phase") == "mid":
                sim.at(sim.now + c.latency[0] + c.latency[1] // 2, lambda l=l: w.other(l))

    def act(self, n, phase):
        w = self.w
        for l in w.plan.all("other"):
            if int(l.get("call", 0)) == n and l.get("phase") == phase:
                w.other(l)
        for l in w.plan.all("sig"):
            if int(l.get("call", 0)) == n and l.get("phase") == phase:
                w.request_shutdown(l)()

    def failed(self, c):
        self.faulted.append(c)
        w = self.w
        if w.restart_after is not None and c.fault in ("crash_before", "crash_after"):
            t, w.restart_after = w.restart_after, None
            w.sim.at(w.sim.now + t, w.cm.restart)
        self.act(c.n, "after")

    def after(self, c):
        self.act(c.n, "after")


class Run(object):
    """Common to all worlds of this file."""

    def __init__(self, plan, sim):
        self.plan, self.sim = plan, sim
        net = plan.first("net") or Line("net")
        self.netseed, self.nethi, self.netdrop = int(net.get("seed", 1)), float(net.get("hi", 5)), float(net.get("drop", 0.5))
        self.restart_after = None
        self.repo = REPO
        self.sig_times = []
        self.killer = None

    def make_cm(self, ros, ns):
        cm = Manager(self.sim, ros, ns, ros.messages("msg"), ros.messages("srv"))
        up = self.plan.first("up") or Line("up")
        for s, t in SERVICES.items():
            at = int(up.get(s, up.get("at", 0))) * MS
            n = ros.resolve(ns + "/" + s)
            ros.services[n] = Service(cm, n, "controller_manager_msgs/" + t, at)
        for l in self.plan.all("ctrl"):
            cm.avail[l["name"]] = (l.get("load", "1") == "1", l.get("res", "-"), l.get("start", "1") == "1")
            if l.get("pre"):
                cm.load(l["name"], "other") or cm.ctrls.__setitem__(l["name"], None)
                if cm.ctrls.get(l["name"]) is None:
                    cm.ctrls.pop(l["name"], None)
                    continue
                if l["pre"] == "running" and cm.ctrls[l["name"]].res not in [x.res for x in cm.ctrls.values() if x.state == "running" and x.res != "-"]:
                    cm.ctrls[l["name"]].state = "running"
                    cm.note(l["name"], "started", "other")
                elif l["pre"] != "running":
                    cm.ctrls[l["name"]].state = l["pre"]
        if up.get("never"):
            for s in ros.services.values():
                s.at = 10 ** 18
        return cm

    def other(self, l):
        if l["op"] == "crash":
            self.cm.crash()
            if int(l.get("down", -1)) >= 0:
                self.sim.at(self.sim.now + int(l["down"]) * MS, self.cm.restart)
        elif l["op"] == "netsplit":
            self.sim.count("fault_master_outage")
            self.ros.master_up = False

            def heal():
                self.ros.master_up = True
            self.sim.at(self.sim.now + int(l.get("down", 1000)) * MS, heal)
        elif l["op"] == "clockjump":
            self.sim.count("fault_clock_jump")
            self.ros.clock_off += int(l["ms"]) * MS
            self.ros.wall_off += int(l["ms"]) * MS
            self.sim.ev("clock jumps by %s ms" % l["ms"])
        else:
            self.cm.other(l["op"], l["name"])

    def request_shutdown(self, l):
        def go():
            sim = self.sim
            if l.get("how") == "kill":
                if not self.ros.initialized:
                    return
                self.sig_times.append(sim.now)
                sim.count("fault_shutdown_from_another_thread")
                sim.spawn("shutdown", lambda: self.ros.signal_shutdown("external shutdown request"))
            else:
                self.sig_times.append(sim.now)
                sim.signal()
        return go

    def timers(self):
        sim = self.sim
        for l in self.plan.all("sig"):
            if "t" in l:
                sim.at(int(l["t"]) * MS, self.request_shutdown(l))
        for l in self.plan.all("other"):
            if "t" in l:
                sim.at(int(l["t"]) * MS, lambda l=l: self.other(l))
        for l in self.plan.all("msg"):
            from_msg = self.ros.mods["std_msgs.msg"].Bool
            sim.at(int(l["t"]) * MS, lambda l=l: self.message(l, from_msg(data=l["data"] == "1")))

    def message(self, l, m):
        self.sim.ev("message %s %s" % (l.get("topic", "/go"), m.data))
        if l.get("latch"):
            self.ros.latched[l.get("topic", "/go")] = m
        self.ros.publish(l.get("topic", "/go"), m)

    def process(self, path):
        """The tool as a process: script, then the exit handlers of the interpreter."""
        sim, ros = self.sim, self.ros
        self.exc = None
        self.exited = None

        def body():
            try:
                ros.script(path)
            except Killed:
                raise
            except SystemExit:
                pass
            except BaseException as e:
                self.exc = e
                sim.ev("uncaught %s: %s" % (type(e).__name__, str(e)[:100]))
            self.main_end = sim.now
            self.asked = ros.shutdown_at is not None
            sim.ev("main ends")
            for t in list(ros.threads):
                if not t.daemon:
                    t.join()
            if ros.initialized:
                ros.signal_shutdown("atexit")
            self.exited = sim.now
            sim.ev("exit")
        sim.run(body)


# ---------------------------------------------------------------------------------------------- C26: spawner
class Spawner(Run):
    def run(self):
        sim, plan = self.sim, self.plan
        a = plan.first("spawner")
        pos = names(a, "names")
        argv = ["/opt/ros/lib/controller_manager/spawner"]
        ns = a.get("ns", "")
        if a.get("stopped"):
            argv += ["--stopped"]
        topic = a.get("wait")
        if topic:
            argv += ["--wait-for", topic]
        if ns:
            argv += ["--namespace", ns]
        if "timeout" in a:
            argv += ["--timeout", a["timeout"]] if not a["timeout"].startswith("-") else ["--timeout=" + a["timeout"]]
        if a.get("notimeout"):
            argv += ["--no-timeout"]
        if a.get("sdt"):
            argv += ["--shutdown-timeout", a["sdt"]]
        argv += pos
        scratch()
        for f in os.listdir("."):
            os.remove(f)
        wanted = []
        for p in pos:
            if p.endswith(".yaml"):
                fl = [l for l in plan.all("file") if l["name"] == p]
                inner = names(fl[0], "names") if fl else []
                wanted += inner
                with open(p, "w") as f:
                    f.write("".join("%s:\n  type: t/A\n" % n for n in inner))
            else:
                wanted.append(p)
        self.wanted = wanted
        self.in_files = set(n for l in plan.all("file") for n in names(l, "names"))
        self.ros = ros = Ros(sim, self.repo, argv)
        self.cm = cm = self.make_cm(ros, "/" + ns.strip("/") + "/controller_manager" if ns.strip("/") else "/controller_manager")
        if a.get("simtime") is not None:
            ros.sim_time = True
            ros.params["/use_sim_time"] = True
            ros.clock_at = None if a["simtime"] == "never" else int(a["simtime"]) * MS
        ros.call_hook = self.hooks = Hooks(self)
        cm.refuse_stop = set(n for l in plan.all("ctrl") if l.get("nostop") for n in [l["name"]])
        self.timers()
        sim.horizon = (max([0] + [int(l["t"]) for l in plan.all("sig") if "t" in l]) + 200000) * MS
        sim.hang_msg = lambda: "the spawner does not exit although it was asked to shut down" if ros.shutdown_at is not None or sim.sig_pending else "the spawner neither finishes nor waits"
        self.process(os.path.join(self.repo, "controller_manager/scripts/spawner"))
        cm.drain()
        self.judge(a, topic)

    def judge(self, a, topic):
        sim, ros, cm = self.sim, self.ros, self.cm
        if sim.violation:
            return
        if self.exited is None:
            return          # killed by the signal before the node started
        F = lambda m: sim.fail("C26", m)
        calls = self.hooks.calls
        sim.count("chk_C26")
        begun = ros.shutdown_at
        # which requests were made
        confirmed = [c.req.name for c in calls if c.kind == "load_controller" and c.outcome == "reply" and c.reply.ok]
        loads = [c for c in calls if c.kind == "load_controller"]
        starts = []

        def owned(n, c):
            """Whether a request made before c may have loaded n, as far as the spawner can know."""
            if begun is not None:
                made = len([l for l in loads if l.n < c.n and not l.after_flag])
                if made < len(self.wanted) and self.wanted[made] == n:
                    return True     # interrupted just before the request
            return [l for l in loads if l.req.name == n and l.n < c.n and (l.outcome != "reply" or l.reply.ok or l.delivered == begun)]
        for c in calls:
            if c.kind == "load_controller":
                if c.req.name not in self.wanted:
                    F("the spawner loads '%s', which it was not asked for" % c.req.name)
            elif c.kind == "unload_controller":
                if not owned(c.req.name, c):
                    F("the spawner unloads '%s', which it did not load" % c.req.name)
                elif begun is None or c.sent < begun:
                    F("the spawner unloads '%s' before it is shut down" % c.req.name)
            elif c.kind == "switch_controller":
                if c.req.start_controllers:
                    starts.append(c)
                    if c.req.stop_controllers:
                        F("the spawner stops controllers while starting: %s" % c.req.stop_controllers)
                    if c.req.strictness != 2:
                        F("the spawner's start request is not strict")
                    conf = [x.req.name for x in loads if x.n < c.n and x.outcome == "reply" and x.reply.ok]
                    if sorted(c.req.start_controllers) != sorted(conf):
                        F("the spawner starts %s but it loaded %s" % (sorted(c.req.start_controllers), sorted(conf)))
                    if a.get("stopped"):
                        F("the spawner starts controllers although it was told not to")
                elif c.req.stop_controllers:
                    for n in c.req.stop_controllers:
                        if not owned(n, c):
                            F("the spawner stops '%s', which it did not load" % n)
                    if begun is None or c.sent < begun:
                        F("the spawner stops controllers before it is shut down")
            elif c.kind == "reload_controller_libraries":
                F("the spawner reloads libraries")
        if len(starts) > 1 and not any(c.outcome != "reply" for c in starts[:-1]):
            F("the spawner starts its controllers in more than one switch")
        # waiting for the topic
        heard = [int(l["t"]) * MS for l in self.plan.all("msg") if l["data"] == "1" and l.get("topic", "/go") == ros.resolve(topic or "/go")]
        if topic and loads and not [t for t in heard if t <= loads[0].sent]:
            F("the spawner loads controllers before the topic it waits for is true")
        up = self.plan.first("up") or Line("up")
        ready = max(x.at for k, x in ros.services.items() if k.rsplit("/", 1)[1] in ("load_controller", "switch_controller", "unload_controller"))
        if loads and loads[0].sent < ready:
            F("the spawner loads controllers before all the services of the manager that it uses are available")
        for c in loads:
            if c.req.name in self.in_files and c.req.name not in names(a, "names") and not c.param_set:
                F("the spawner loads '%s' of a file without having set its parameters" % c.req.name)
        # everything it loaded is gone
        for n, x in cm.ctrls.items():
            if x is None or x.owner != "tool":
                continue
            if x.touched >= begun:
                continue
            named = [c for c in calls if (c.in_hook or c.after_flag or c.sent >= begun) and
                     (c.kind == "unload_controller" and c.req.name == n or c.kind == "switch_controller" and n in c.req.stop_controllers or c.kind == "list_controllers")]
            lost = [c for c in named if c.outcome != "reply" or c.refused]
            if lost or [c for c in named if c.kind == "switch_controller" and [m for m in c.req.stop_controllers if m in cm.refuse_stop]]:
                continue
            F("'%s' (%s) is left behind when the spawner exits" % (n, x.state))
        # crashes of the spawner itself
        faulty = bool(self.hooks.faulted) or cm.crashed or "netsplit" in [l["op"] for l in self.plan.all("other")]
        bad_exc = [e for e in [self.exc] + ros.hook_errors if e is not None]
        for e in bad_exc:
            rosy = isinstance(e, (ros.rospy.ServiceException, ros.rospy.exceptions.ROSException, ros.rospy.exceptions.ROSInternalException))
            if not rosy or not (faulty or begun is not None and begun <= self.main_end and self.asked):
                F("the spawner crashes: %s: %s" % (type(e).__name__, str(e)[:120]))
        # giving up
        to = a.get("timeout", "30")
        limit = None if a.get("notimeout") or float(to) <= 0 else float(to)
        clock = 0 if a.get("simtime") is None else 10 ** 18 if a["simtime"] == "never" else int(a["simtime"]) * MS
        if not faulty and limit is not None and ready > (3 * limit + 2) * S and clock == 0:
            sim.count("ev_manager_not_found")
            if min(begun, self.main_end) > (3 * limit + 2) * S:
                F("the spawner does not give up although the manager is not available within the time-out")
        if not faulty and clock and not loads and not self.asked and self.main_end < clock:
            F("the spawner gives up although simulated time has not started")
        # progress
        if not faulty and not up.get("never"):
            ready = max([0] + [int(up.get(s, up.get("at", 0))) for s in SERVICES]) * MS
            to = a.get("timeout", "30")
            limit = None if a.get("notimeout") or float(to) <= 0 else float(to)
            if limit is None or ready < limit * S - S:
                t = ready
                if topic:
                    t = max(t, min(heard)) if heard else None
                    if heard and min(heard) < ready + S and not [1 for l in self.plan.all("msg") if l.get("latch") and l.get("topic", "/go") == ros.resolve(topic)]:
                        late = [h for h in heard if h >= ready + 2 * S]
                        t = min(late) if late else None
                    if [l for l in self.plan.all("msg") if l["data"] == "0"]:
                        late = [h for h in heard if h >= ready + 2 * S]
                        t = min(late) if late else None
                    lasts = [(int(l["t"]), l["data"]) for l in self.plan.all("msg")]
                    if t is not None and [1 for q, d in lasts if d == "0" and abs(q * MS - t) < S]:
                        t = None
                if t is not None:
                    slow = sum(int(l.get("ms", 1000)) for l in self.plan.all("fault") if l["kind"] == "slow") * MS
                    done = t + 3 * S + slow + len(self.wanted) * (2 * S + int(3 * self.nethi * MS)) + int(8 * self.nethi * MS)
                    if begun > done or not self.asked:
                        if [n for n in self.wanted if n not in [c.req.name for c in loads]]:
                            F("the spawner did not load all its controllers although it could (%s of %s)" % ([c.req.name for c in loads], self.wanted))
                        elif not a.get("stopped") and confirmed and not starts:
                            F("the spawner did not start the controllers it loaded")
                        sim.count("ev_progress_checked")
                        if not self.asked:
                            F("the spawner exits without being asked to")
        if not self.asked and loads and not faulty:
            F("the spawner exits without being asked to")
        sim.count("ev_loaded", len(confirmed))
        if any(c.in_hook for c in calls):
            sim.count("ev_takedown")


# ---------------------------------------------------------------------------------------------- C27: unspawner
class Unspawner(Run):
    def run(self):
        sim, plan = self.sim, self.plan
        a = plan.first("unspawner")
        self.named = names(a, "names")
        self.ros = ros = Ros(sim, self.repo, [a.get("argv0", "/opt/ros/lib/controller_manager/unspawner")] + self.named)
        self.cm = cm = self.make_cm(ros, "/controller_manager")
        if a.get("simtime") is not None:
            ros.sim_time = True
            ros.params["/use_sim_time"] = True
            ros.clock_at = int(a["simtime"]) * MS
        ros.call_hook = self.hooks = Hooks(self)
        cm.refuse_stop = set(n for l in plan.all("ctrl") if l.get("nostop") for n in [l["name"]])
        self.timers()
        sim.horizon = (max([0] + [int(l["t"]) for l in plan.all("sig") if "t" in l]) + 200000) * MS
        sim.hang_msg = lambda: "the unspawner does not exit although it was asked to shut down" if ros.shutdown_at is not None or sim.sig_pending else "the unspawner hangs"
        self.process(os.path.join(self.repo, "controller_manager/scripts/unspawner"))
        cm.drain()
        self.judge(a)

    def judge(self, a):
        sim, ros, cm = self.sim, self.ros, self.cm
        if sim.violation or self.exited is None:
            return
        F = lambda m: sim.fail("C27", m)
        sim.count("chk_C27")
        calls = self.hooks.calls
        begun = ros.shutdown_at
        named = set(self.named)
        stopped, maybe, restarts = OrderedDict(), set(), []
        seen = {}       # what the unspawner was told last
        for c in calls:
            if c.kind in ("load_controller", "unload_controller", "reload_controller_libraries"):
                F("the unspawner calls %s" % c.kind)
            if c.kind == "list_controllers" and c.outcome == "reply":
                seen = dict((x.name, x.state) for x in c.reply.controller)
            if c.kind != "switch_controller":
                continue
            if c.req.stop_controllers and c.req.start_controllers:
                F("the unspawner starts and stops controllers in one request")
            for n in c.req.stop_controllers:
                if n not in named:
                    F("the unspawner stops '%s', which it was not asked for" % n)
            if c.req.start_controllers:
                restarts.append(c)
                if begun is None or c.sent < begun:
                    F("the unspawner restarts controllers before it is shut down")
            for n, w in (c.effects or []):
                if w == "stopped":
                    stopped.setdefault(n, []).append(c)
            if c.outcome != "reply":
                maybe.update(c.req.stop_controllers)
            elif c.reply.ok:
                # it may have been stopped by others since it was listed
                maybe.update(n for n in c.req.stop_controllers if seen.get(n) == "running")
        for c in restarts:
            for n in c.req.start_controllers:
                if n not in stopped and n not in maybe:
                    F("the unspawner starts '%s', which it did not stop" % n)
        faulty = bool(self.hooks.faulted) or cm.crashed
        if not self.asked:
            F("the unspawner exits without being asked to%s" % (": %s" % type(self.exc).__name__ if self.exc else ""))
        elif self.exc is not None and not isinstance(self.exc, (ros.rospy.ServiceException, ros.rospy.exceptions.ROSException)):
            F("the unspawner crashes: %s: %s" % (type(self.exc).__name__, str(self.exc)[:100]))
        # restart on exit
        for n in stopped:
            x = cm.ctrls.get(n)
            req = [c for c in restarts if n in c.req.start_controllers]
            if x is None or x.state == "running" or cm.crashed:
                continue
            if begun is not None and x.touched >= begun:
                continue
            if x.touched > max(c.executed for c in stopped[n]):
                # someone else acted on it since it was stopped
                if req or x.state == "aborted":
                    continue
            lists_lost = [c for c in calls if c.kind == "list_controllers" and c.in_hook and c.outcome != "reply"]
            if not req:
                if not lists_lost:
                    F("the unspawner stopped '%s' and does not restart it when it is shut down" % n)
            elif all(c.outcome == "reply" and c.reply.ok for c in req):
                F("'%s', which the unspawner stopped, is left %s after it was shut down" % (n, x.state))
            elif not any(c.outcome != "reply" or c.refused for c in req) and not [h for h in cm.history if h[0] >= begun and h[3] == "other"]:
                want = [m for m in cm.ctrls if cm.ctrls[m].state == "running" or any(m in c.req.start_controllers for c in req)]
                res = [cm.ctrls[m].res for m in want if cm.ctrls[m].res != "-"]
                if len(set(res)) == len(res) and all(cm.avail.get(m, (1, 1, True))[2] for m in want):
                    F("'%s', which the unspawner stopped, is left %s after it was shut down, although it could be restarted" % (n, x.state))
        # kept stopped while it runs
        end = begun if begun is not None else self.exited
        slow = sum(int(l.get("ms", 1000)) for l in self.plan.all("fault") if l["kind"] == "slow") * MS
        bound = 3 * S + 1 * S + int(8 * self.nethi * MS) + slow
        if ros.sim_time:
            bound += 500 * MS
        jumps = [int(l["t"]) * MS for l in self.plan.all("other") if l["op"] == "clockjump" and int(l["ms"]) < 0]
        up = self.plan.first("up") or Line("up")
        t_up = max([0] + [int(up.get(s, up.get("at", 0))) for s in SERVICES]) * MS
        if ros.sim_time:
            t_up = max(t_up, ros.clock_at)
        trouble = [c.sent for c in self.hooks.faulted] + [c.sent for c in calls if c.refused] + [c.sent for c in calls if c.outcome is None]
        trouble += [int(l["t"]) * MS + d for l in self.plan.all("other") if l["op"] in ("netsplit", "crash") and "t" in l for d in (0, max(0, int(l.get("down", 1000))) * MS)]
        for n in named:
            since = None
            hist = [h for h in cm.history if h[1] == n and h[2] in ("started", "stopped", "gone", "unloaded")] + [(end, n, "end", "")]
            for t, _, what, by in hist:
                if what == "started":
                    since = t if since is None else since
                else:
                    if since is not None and not named & cm.refuse_stop and not cm.crashed:
                        t0, t1 = max(since, t_up + 2 * S), min(t, end)
                        # a failed call delays the stop to the next period
                        cuts = sorted([t0] + [q for q in trouble if t0 <= q <= t1])
                        cuts.append(t1)
                        for p, q in zip(cuts, cuts[1:]):
                            # clock jumps backwards may restart a period
                            extra = len([j for j in jumps if p - 4 * S <= j <= q]) * bound
                            if q - p > bound + extra:
                                F("'%s' keeps running for %.1f s although the unspawner should stop it" % (n, (q - p) / 1e9))
                                break
                        else:
                            sim.count("ev_stop_in_time")
                    since = None
        sim.count("ev_stopped", len(stopped))
        if restarts:
            sim.count("ev_restart")


# ---------------------------------------------------------------------------------------------- C28: command line tools
class Tools(Run):
    def run(self):
        sim, plan = self.sim, self.plan
        services = {}
        self.cm = None
        self.base = 0
        self.cmds = []
        sim.horizon = 600 * S
        sim.hang_msg = lambda: "a command hangs"
        cmds = plan.all("cmd")
        groups = {}
        for l in plan.all("group"):
            groups[l["name"]] = names(l, "ctrls")

        def new_ros(argv):
            ros = Ros(sim, self.repo, argv)
            ros.params["/controller_groups"] = groups
            if self.cm is None:
                self.ros = ros
                self.cm = self.make_cm(ros, "/controller_manager")
                self.cm.refuse_stop = set(l["name"] for l in plan.all("ctrl") if l.get("nostop"))
                services.update(ros.services)
            else:
                ros.services = services
            if not groups and plan.first("nogroups"):
                del ros.params["/controller_groups"]
            ros.master_up = True
            self.ros = ros
            return ros
        new_ros(["x"])
        self.timers()

        def body():
            for l in cmds:
                args = names(l, "args")
                via = l["via"]
                h = Hooks(self)
                if via == "api":
                    ros = new_ros(["tool"])
                elif via == "cli":
                    ros = new_ros(["controller_manager", l["name"]] + (["--restore"] if l.get("restore") else []) + args)
                else:
                    ros = new_ros(["controller_group", l["name"]] + args)
                ros.initialized = via == "api"
                ros.call_hook = h
                rec = dict(l=l, args=args, hooks=h, result=None, exc=None, groups=groups, ros=ros)
                self.cmds.append(rec)
                sim.ev("command %s %s %s" % (via, l["name"], args))
                try:
                    if via == "api":
                        m = ros.load("controller_manager")
                        m = ros._import("controller_manager.controller_manager_interface", None, None, ("*",))
                        fn = getattr(m, {"load": "load_controller", "unload": "unload_controller", "start": "start_controller", "stop": "stop_controller", "start_many": "start_controllers",
                                         "stop_many": "stop_controllers", "switch": "start_stop_controllers", "reload-libraries": "reload_libraries", "list": "list_controllers",
                                         "list-types": "list_controller_types"}[l["name"]])
                        if l["name"] in ("load", "unload", "start", "stop"):
                            rec["result"] = [fn(args[0])]
                        elif l["name"] in ("start_many", "stop_many"):
                            rec["result"] = [fn(args)]
                        elif l["name"] == "switch":
                            rec["result"] = [fn(start_controllers=args, stop_controllers=names(l, "stop"))]
                        elif l["name"] == "reload-libraries":
                            rec["result"] = [fn(l.get("force", "1") == "1", restore=bool(l.get("restore")))]
                        else:
                            rec["result"] = [fn()]
                    else:
                        ros.script(os.path.join(self.repo, "controller_manager/scripts", "controller_manager" if via == "cli" else "controller_group"))
                except Killed:
                    raise
                except SystemExit:
                    pass
                except BaseException as e:
                    rec["exc"] = e
                    rec["rosy"] = isinstance(e, (ros.rospy.ServiceException, ros.rospy.exceptions.ROSException, ros.rospy.exceptions.ROSInternalException))
                    sim.ev("uncaught %s: %s" % (type(e).__name__, str(e)[:100]))
                self.base += ros.ncalls
                sim.sleep(10 * MS)
        sim.run(body)
        if not sim.violation:
            for rec in self.cmds:
                self.judge(rec)

    def judge(self, rec):
        sim = self.sim
        F = lambda m: sim.fail("C28", "%s %s %s: %s" % (rec["l"]["via"], rec["l"]["name"], rec["args"], m))
        calls = [c for c in rec["hooks"].calls]
        cmd, args, via = rec["l"]["name"], rec["args"], rec["l"]["via"]
        bad = [c for c in calls if c.outcome != "reply"]
        acts = [c for c in calls if c.kind not in ("list_controllers", "list_controller_types")]
        sim.count("chk_C28")
        if rec["exc"] is not None and not (rec["rosy"] and bad):
            F("crashes: %s: %s" % (type(rec["exc"]).__name__, str(rec["exc"])[:100]))
            return

        def sw(start, stop, strict=True):
            return ("switch", tuple(start), tuple(stop), strict)

        def show(c):
            if c.kind == "load_controller":
                return ("load", c.req.name)
            if c.kind == "unload_controller":
                return ("unload", c.req.name)
            if c.kind == "switch_controller":
                return ("switch", tuple(c.req.start_controllers), tuple(c.req.stop_controllers), c.req.strictness == 2)
            return ("reload", bool(c.req.force_kill))
        got = [show(c) for c in acts]
        res = rec["result"]
        if via == "api" and res is not None and cmd not in ("list", "list-types", "reload-libraries"):
            ok = acts and acts[-1].outcome == "reply" and bool(acts[-1].reply.ok)
            if bool(res[0]) != bool(ok):
                F("reports %s but the manager replied %s" % (res[0], ok))
        text = " ".join(x[1] for x in rec["ros"].output if x[0] == "print").lower()
        if via == "api" and res is not None and cmd in ("load", "unload", "start", "stop") and acts and acts[-1].outcome == "reply":
            if bool(acts[-1].reply.ok) == any(w in text for w in ("error", "fail", "could not", "cannot", "unable")):
                F("prints '%s' although the manager replied %s" % (text, bool(acts[-1].reply.ok)))
        shown = " ".join(x[1] for x in rec["ros"].output if x[0] == "print").split()
        if cmd in ("list", "lc", "list-types", "lt") and via != "group" and not bad and rec["exc"] is None:
            k = "list_controllers" if cmd in ("list", "lc") else "list_controller_types"
            if k not in [c.kind for c in calls]:
                F("does not ask the manager")
            for c in calls:
                for t in c.reply.types if c.kind == "list_controller_types" else ():
                    if t not in [w.strip("'\",") for w in shown]:
                        F("does not show the type %s" % t)
        if cmd == "list" and via == "group" and rec["exc"] is None:
            for g, ns in rec["groups"].items():
                for w in [g] + list(ns):
                    if w not in [x.strip("'\",:[]") for x in shown]:
                        F("does not show %s of group %s" % (w, g))
        if cmd in ("list", "lc") and via != "group" and not bad and rec["exc"] is None:
            for c in calls:
                for x in c.reply.controller if c.kind == "list_controllers" else ():
                    if not [o for o in rec["ros"].output if o[0] == "print" and "'%s'" % x.name in o[1] and x.state in o[1]]:
                        F("does not show that '%s' is %s" % (x.name, x.state))
        if via == "api" and res is not None and cmd == "reload-libraries" and acts:
            r = [c for c in acts if c.kind == "reload_controller_libraries"]
            if r and bool(res[0]) and not (r[0].outcome == "reply" and r[0].reply.ok):
                F("reports that libraries were reloaded although they were not")
            if r and not bad and bool(res[0]) != bool(r[0].reply.ok):
                F("reports %s but the manager replied %s" % (res[0], r[0].reply.ok))
        if via in ("api", "cli") and cmd != "reload-libraries":
            if via == "api":
                exp = {"load": [("load", args[0])] if args else [], "unload": [("unload", args[0])] if args else [], "start": [sw(args[:1], [])], "stop": [sw([], args[:1])],
                       "start_many": [sw(args, [])], "stop_many": [sw([], args)], "switch": [sw(args, names(rec["l"], "stop"))], "list": [], "list-types": []}[cmd]
            else:
                k = {"lc": "list", "lt": "list-types", "sp": "spawn", "kl": "kill"}.get(cmd, cmd)
                exp = {"load": [("load", n) for n in args], "unload": [("unload", n) for n in args], "start": [sw([n], []) for n in args], "stop": [sw([], [n]) for n in args],
                       "spawn": [("load", n) for n in args] + [sw([n], []) for n in args], "kill": [sw([], [n]) for n in args] + [("unload", n) for n in args], "list": [], "list-types": []}[k]
            norm = lambda q: [(x[0], tuple(sorted(x[1])), tuple(sorted(x[2])), x[3]) if x[0] == "switch" else x for x in q]
            g, e = norm(got), norm(exp)
            if g != e and not (bad and g == e[:len(g)]):
                F("requests %s instead of %s" % (got, exp))
        elif cmd == "reload-libraries":
            lists = [c for c in calls if c.kind == "list_controllers" and c.outcome == "reply"]
            restore = bool(rec["l"].get("restore"))
            force = rec["l"].get("force", "1") == "1" or via == "cli"
            if not got:
                if not bad:
                    F("does not request anything")
                return
            if got[0] != ("reload", force):
                F("requests %s first instead of a reload" % (got[0],))
                return
            rest = got[1:]
            if not restore:
                if rest:
                    F("requests %s after the reload" % rest)
                return
            before = [c for c in lists if c.n < acts[0].n]
            if not before:
                F("does not look which controllers are loaded before it reloads")
                return
            orig = [x.name for x in before[-1].reply.controller]
            running = sorted(x.name for x in before[-1].reply.controller if x.state == "running")
            loaded = [x[1] for x in rest if x[0] == "load"]
            switched = [x for x in rest if x[0] == "switch"]
            other = [x for x in rest if x[0] not in ("load", "switch")]
            if other or len(loaded) != len(set(loaded)) or [n for n in loaded if n not in orig]:
                F("restore requests %s, the controllers were %s" % (rest, orig))
            for x in switched:
                if x[2] or sorted(x[1]) != running:
                    F("restore requests %s, the running controllers were %s" % (x, running))
            if not bad:
                if sorted(loaded) != sorted(orig):
                    F("restore loads %s, the controllers were %s" % (loaded, orig))
                if running and len(switched) != 1:
                    F("restore makes %d switches for %s" % (len(switched), running))
            if switched and rest and rest[-1][0] != "switch":
                F("restore starts controllers before all are loaded")
            # what the manager was left with, if nobody interfered
            if not bad and not self.plan.all("other") and not any(c.refused for c in calls) and acts[0].reply.ok and acts is not None and rec is self.cmds[-1]:
                left = dict((n, x.state == "running") for n, x in self.cm.ctrls.items())
                if left != dict((n, n in running) for n in orig) and not [l for l in self.plan.all("ctrl") if l["name"] in orig and (l.get("start") == "0" or l.get("load") == "0")]:
                    F("restore leaves %s, it was %s with %s running" % (sorted(left.items()), orig, running))
            if not bad and not self.plan.all("other") and not any(c.refused for c in calls if c.kind != "load_controller") and acts[0].reply.ok and rec is self.cmds[-1]:
                back = [c.req.name for c in acts if c.kind == "load_controller" and c.reply.ok and c.req.name in running]
                if all(self.cm.avail.get(n, (1, 1, True))[2] for n in back) and [n for n in back if self.cm.ctrls[n].state != "running"]:
                    F("restore does not restart all that it could load again (%s)" % back)
        else:
            self.judge_group(rec, F, calls, acts, got, bad, show)

    def judge_group(self, rec, F, calls, acts, got, bad, show):
        cmd, args, groups = rec["l"]["name"], rec["args"], rec["groups"]
        if cmd == "list":
            if got:
                F("requests %s" % got)
            return
        desired = set(groups.get(args[0], ()))
        others = set(n for g in groups.values() for n in g) - desired
        if not desired:
            if got:
                F("requests %s for a group without controllers" % got)
            return
        if cmd == "spawn":
            loads = [x[1] for x in got if x[0] == "load"]
            starts = [x for x in got if x[0] == "switch"]
            started = [n for x in starts for n in x[1]]
            if [x for x in got if x[0] not in ("load", "switch")] or any(x[2] or not x[3] for x in starts) or set(loads) - desired or set(started) - desired or len(set(loads)) != len(loads) or len(set(started)) != len(started):
                F("requests %s for %s" % (got, sorted(desired)))
            if not bad and (set(loads) != desired or set(started) != desired):
                F("requests %s for %s" % (got, sorted(desired)))
            if starts and got.index(starts[0]) < max(i for i, x in enumerate(got) if x[0] == "load"):
                F("starts controllers before all are loaded: %s" % got)
            return
        lists = [c for c in calls if c.kind == "list_controllers"]
        if not lists or lists[0].outcome != "reply":
            if got:
                F("requests %s without knowing the state of the controllers" % got)
            return
        state = dict((x.name, x.state) for x in lists[-1].reply.controller)
        to_load = set(n for n in desired if n not in state)
        to_start = set(n for n in desired if state.get(n) != "running")
        to_stop = set(n for n in others if state.get(n) == "running")
        loads = [c for c in acts if c.kind == "load_controller"]
        sws = [c for c in acts if c.kind == "switch_controller"]
        if [c for c in acts if c.kind not in ("load_controller", "switch_controller")] or set(c.req.name for c in loads) - to_load or len(set(c.req.name for c in loads)) != len(loads):
            F("requests %s, to be loaded are %s" % (got, sorted(to_load)))
        failed = [c for c in loads if c.outcome != "reply" or not c.reply.ok]
        if failed:
            if sws:
                F("switches although '%s' could not be loaded" % failed[0].req.name)
            return
        if len(sws) > 1:
            F("makes more than one switch: %s" % got)
        for c in sws:
            if set(c.req.start_controllers) != to_start or set(c.req.stop_controllers) != to_stop or c.req.strictness != 2 or len(c.req.start_controllers) != len(to_start) or len(c.req.stop_controllers) != len(to_stop):
                F("switches %s, to be started are %s and to be stopped %s" % (show(c), sorted(to_start), sorted(to_stop)))
            if set(c.req.name for c in loads) != to_load:
                F("switches before all controllers are loaded")
        if not sws and (to_start or to_stop) and not bad:
            F("does not switch, to be started are %s and to be stopped %s" % (sorted(to_start), sorted(to_stop)))


# ---------------------------------------------------------------------------------------------- C29: discovery
class Fake(object):
    """A service of something that is not a controller manager, or part of one."""

    def __init__(self, name, typ):
        self.name, self.type = name, typ
        self.reg, self.up = False, False

    def registered(self):
        return self.reg

    def reachable(self):
        return self.up


class Discovery(Run):
    def run(self):
        sim, plan = self.sim, self.plan
        a = plan.first("discovery")
        self.ros = ros = Ros(sim, self.repo, ["tool"])
        ros.initialized = True
        ros.call_hook = Hooks(self)
        self.cm = None
        self.managers = {}
        sim.horizon = 600 * S
        sim.hang_msg = lambda: "the lister hangs"
        self.churn = list(plan.all("churn"))
        self.query = 0
        self.windows = []     # (state snapshots) during the current call
        ros.rpc_hook = self.on_query
        m = []

        def body():
            ros.load("controller_manager_msgs")
            u = ros._import("controller_manager_msgs.utils", None, None, ("*",))
            root = a.get("root", "/")
            lister = u.ControllerManagerLister(root) if root != "/" else u.ControllerManagerLister()
            cl_ns = a.get("cl", "/cm")
            cl = None
            prev = result = None
            for l in [x for x in plan.lines if x.kind in ("churn", "ask")]:
                if l.kind == "churn":
                    if "q" not in l:
                        self.apply(l)
                    continue
                what = l["what"]
                self.query = 0
                self.pending = [x for x in self.churn if x.get("q") is not None and int(x["ask"]) == int(l["n"])]
                self.cur_call = l
                sim.ev("ask %s" % what)
                if what == "list":
                    self.snap = [self.snapshot()]
                    try:
                        got = lister()
                    except Killed:
                        raise
                    except Exception as e:
                        sim.fail("C29", "the lister raises %s: %s" % (type(e).__name__, str(e)[:100]))
                        return
                    self.snap.append(self.snapshot())
                    self.check_list(got, root, prev)
                    if prev is not None and result != prev:
                        sim.fail("C29", "a list returned earlier has changed from %s to %s" % (prev, result))
                    result, prev = got, list(got)
                elif what == "get":
                    self.snap = [self.snapshot()]
                    try:
                        got = u.get_controller_managers(root)
                    except Killed:
                        raise
                    except Exception as e:
                        sim.fail("C29", "get_controller_managers raises %s: %s" % (type(e).__name__, str(e)[:100]))
                        return
                    self.snap.append(self.snapshot())
                    self.check_list(got, root, [])
                else:
                    if cl is None:
                        try:
                            cl = u.ControllerLister(cl_ns)
                        except Killed:
                            raise
                        except Exception as e:
                            sim.fail("C29", "the controller lister raises %s" % type(e).__name__)
                            return
                    self.ctrl_snap = []
                    self.note_ctrls(cl_ns)
                    ros.call_hook.on_call = lambda: self.note_ctrls(cl_ns)
                    k0 = len(ros.call_hook.calls)
                    try:
                        got = cl()
                    except Killed:
                        raise
                    except Exception as e:
                        sim.fail("C29", "the controller lister raises %s: %s" % (type(e).__name__, str(e)[:100]))
                        return
                    self.note_ctrls(cl_ns)
                    self.check_ctrls(got, ros.call_hook.calls[k0:])
                sim.sleep(100 * MS)
        sim.run(body)
        if sim.main.exc is not None and not sim.violation:
            raise sim.main.exc

    def on_query(self, what):
        self.query += 1
        for x in list(self.pending):
            if int(x["q"]) == self.query:
                self.pending.remove(x)
                self.apply(x)
        if hasattr(self, "snap"):
            self.snap.append(self.snapshot())

    def apply(self, l):
        sim, ros = self.sim, self.ros
        op = l["op"]
        ns = l.get("ns", "/cm")
        if ns == "/":
            ns = ""
        sim.ev("churn %s %s" % (op, ns))
        sim.count("fault_churn_" + op)
        if op == "up":
            cm = self.managers.get(ns)
            if cm is None:
                cm = Manager(sim, ros, ns, ros.messages("msg"), ros.messages("srv"))
                self.managers[ns] = cm
            if not cm.up:
                cm.restart()
            for s, t in SERVICES.items():
                n = ns + "/" + s
                ros.services[n] = Service(cm, n, "controller_manager_msgs/" + t)
            cm.avail = {}
            for n in names(l, "ctrls"):
                cm.avail[n] = (True, "-", True)
                cm.load(n, "other")
        elif op == "crash" and ns in self.managers:
            self.managers[ns].crash(keep_registered=True)
        elif op == "down" and ns in self.managers:
            self.managers[ns].crash(keep_registered=False)
            for s in SERVICES:
                ros.services.pop(ns + "/" + s, None)
        elif op == "partial":         # one service is gone or of another type
            s = l["srv"]
            if l.get("how") == "type" and ns + "/" + s in ros.services:
                f = Fake(ns + "/" + s, "std_srvs/Empty")
                f.reg = f.up = True
                ros.services[ns + "/" + s] = f
            else:
                ros.services.pop(ns + "/" + s, None)
        elif op == "fake":            # a service with a name like the one of a controller manager
            n = l["srv"]
            f = Fake(n, l.get("type", "controller_manager_msgs/ListControllers"))
            f.reg, f.up = True, l.get("dead") is None
            if n not in ros.services:
                ros.services[n] = f
        elif op == "unfake":
            if isinstance(ros.services.get(l["srv"]), Fake):
                del ros.services[l["srv"]]
        elif op == "master":
            ros.master_up = l["to"] == "1"
        elif op == "ctrl" and ns in self.managers and self.managers[ns].up:
            cm = self.managers[ns]
            cm.avail[l["name"]] = (True, "-", True)
            cm.other(l["do"], l["name"])

    def snapshot(self):
        """The namespaces with the full interface, and those with at least a list service, at this moment."""
        ros = self.ros
        full, some = set(), set()
        for n in ros.services:
            if not n.endswith("/list_controllers"):
                continue
            ns = n[:-len("/list_controllers")]
            if ros.services[n].registered():
                some.add(ns or "/")
            if all(ns + "/" + s in ros.services and ros.services[ns + "/" + s].registered() and ros.services[ns + "/" + s].reachable() and
                   ros.services[ns + "/" + s].type == "controller_manager_msgs/" + t for s, t in SERVICES.items()):
                full.add(ns or "/")
        return full, some, ros.master_up

    def check_list(self, got, root, prev):
        sim = self.sim
        sim.count("chk_C29")
        F = lambda m: sim.fail("C29", m)
        got = list(got)
        if len(set(got)) != len(got):
            F("the list of controller managers contains duplicates: %s" % got)
        if got != sorted(got):
            F("the list of controller managers is not sorted: %s" % got)
        if not all(s[2] for s in self.snap):
            sim.count("ev_master_down_during_list")
        if not any(s[2] for s in self.snap):
            if got:
                F("controller managers are listed while the master cannot be reached: %s" % got)
            return
        inside = lambda n: root == "/" or (n + "/").startswith(root.rstrip("/") + "/")
        always = set.intersection(*[s[0] for s in self.snap])
        ever = set.union(*[s[0] for s in self.snap])
        kept = set.union(*[s[1] for s in self.snap])
        if all(s[2] for s in self.snap):
            miss = [n for n in always if inside(n) and n not in got]
            if miss:
                F("controller manager %s is missing in %s" % (miss[0], got))
            here = set.intersection(*[s[1] for s in self.snap])
            lost = [n for n in prev or [] if n in here and inside(n) and n not in got]
            if lost:
                F("%s, which was listed before and has its list_controllers service, is missing in %s" % (lost[0], got))
        for n in got:
            if n not in ever and not (n in (prev or []) and n in kept):
                F("%s is listed although it has no controller manager interface" % n)

    def note_ctrls(self, ns):
        cm = self.managers.get(ns)
        self.ctrl_snap.append(None if cm is None or not cm.up or not isinstance(self.ros.services.get(ns + "/list_controllers"), Service) else
                              (sorted((x.name, x.state) for x in cm.ctrls.values()), id(cm.conn), self.ros.master_up))

    def check_ctrls(self, got, calls):
        sim = self.sim
        sim.count("chk_C29")
        F = lambda m: sim.fail("C29", m)
        if any(c.fault for c in calls):
            sim.count("ev_fault_during_list")
            reply = [c for c in calls if c.outcome == "reply"]
            if not reply:
                if list(got):
                    F("controllers are listed although no manager replied")
                return
        have = sorted((x.name, x.state) for x in got)
        if any(c.fault for c in calls):
            if sum(1 for c in calls if c.fault) == 1 and self.ctrl_snap[0] == self.ctrl_snap[-1] and self.ctrl_snap[0] is not None and self.ctrl_snap[0][2] and have != self.ctrl_snap[0][0]:
                F("the controllers are %s but %s is reported" % (self.ctrl_snap[0][0], have))
            return
        if self.ctrl_snap[0] == self.ctrl_snap[-1]:
            s = self.ctrl_snap[0]
            if s is None or not s[2]:
                if s is None and have:
                    F("controllers %s are reported while the manager is down" % have)
            elif have != s[0]:
                F("the controllers are %s but %s is reported" % (s[0], have))
            sim.count("ev_controllers_checked")


# ---------------------------------------------------------------------------------------------- generation
POOL = ["a", "b", "c", "d", "e", "f"]


def gen_ctrls(r, plan, n, pre=0.3, bad=0.2):
    out = POOL[:n]
    for x in out:
        l = plan.add("ctrl", name=x)
        if r.random() < bad:
            l["load"] = "0"
        l["res"] = r.choice(["-", "-", "-", "r1", "r2"])
        if r.random() < 0.08:
            l["start"] = "0"
        if r.random() < pre and l.get("load") != "0":
            l["pre"] = r.choice(["running", "running", "stopped", "initialized"])
    return out


def gen_net(r, plan):
    plan.add("net", seed=r.randrange(1, 10 ** 9), hi=r.choice([1, 5, 20, 100, 400]), drop=r.choice([0, 0.5, 1]))
    plan.add("sched", seed=r.randrange(1, 10 ** 9), p=r.choice([0, 0.02, 0.1, 0.3]), pb=r.choice([0, 0.2, 0.5]))


def gen_faults(r, plan, ncalls, kinds=("unavailable", "lost_reply", "lost_request", "slow", "refuse", "crash_before", "crash_after"), n=None):
    for _ in range(n if n is not None else r.choice([0, 0, 1, 1, 2, 3])):
        l = plan.add("fault", call=r.randrange(1, ncalls + 1), kind=r.choice(kinds))
        if l["kind"] == "slow":
            l["ms"] = r.choice([50, 500, 3000, 12000])
        if l["kind"].startswith("crash"):
            l["down"] = r.choice([-1, 100, 2000])


def gen_sig(r, plan, ncalls, npts, tmax, last):
    """When the tool is shut down."""
    n = 1 if r.random() < 0.85 else 2
    for i in range(n):
        x = r.random()
        if x < 0.35:
            l = plan.add("sig", call=r.randrange(1, ncalls + 1), phase=r.choice(["before", "mid", "wait", "after"]))
        elif x < 0.65:
            l = plan.add("sig", pt=r.randrange(1, npts))
        else:
            l = plan.add("sig", t=r.randrange(1, tmax))
        if r.random() < 0.3 and "pt" not in l:
            l["how"] = "kill"
    plan.add("sig", t=last, last=1)     # it does not run forever


def gen_spawner(r):
    plan = Plan()
    gen_net(r, plan)
    pool = gen_ctrls(r, plan, r.randrange(2, 6), pre=0.2)
    want = [r.choice(pool) for _ in range(r.randrange(1, 5))]
    if r.random() < 0.8:
        want = list(OrderedDict.fromkeys(want))
    if r.random() < 0.1:
        want.append("z")
    a = plan.add("spawner")
    if r.random() < 0.15:
        k = r.randrange(0, len(want) + 1)
        plan.add("file", name="cfg.yaml", names=",".join(OrderedDict.fromkeys(want[k:] or [pool[0]])))
        want = want[:k] + ["cfg.yaml"]
    a["names"] = ",".join(want)
    if r.random() < 0.25:
        a["stopped"] = 1
    if r.random() < 0.25:
        a["ns"] = r.choice(["robot", "/robot", "robot/", "/a/b/"])
    if r.random() < 0.3:
        a["timeout"] = r.choice(["0", "-1", "1", "5", "30", "0.5"])
    if r.random() < 0.2:
        a["notimeout"] = 1
    if r.random() < 0.1:
        a["sdt"] = "5"
    topic = r.random() < 0.3
    tmax = 6000
    if topic:
        a["wait"] = r.choice(["/go", "go"])
        t = 0
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            t += r.randrange(1, 2500)
            plan.add("msg", t=t, data=r.choice("0111"), topic=r.choice(["/go"] * 7 + ["/other"]), **({"latch": 1} if r.random() < 0.3 else {}))
    x = r.random()
    if x < 0.2:
        plan.add("up", at=r.choice([100, 900, 4000, 28000, 40000]))
    elif x < 0.32:
        plan.add("up", **{r.choice(list(SERVICES)[2:5]): r.choice([500, 3000, 35000, 100000])})
    elif x < 0.38:
        plan.add("up", never=1)
    if r.random() < (0.3 if x < 0.38 else 0.08):
        a["simtime"] = r.choice(["never", "0", "500", "35000"])
    if r.random() < 0.5:
        gen_faults(r, plan, 10)
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        l = plan.add("other", op=r.choice(["start", "stop", "load", "unload", "abort"]), name=r.choice(pool))
        if r.random() < 0.5:
            l["t"] = r.randrange(1, 8000)
        else:
            l["call"] = r.randrange(1, 10)
            l["phase"] = r.choice(["before", "mid", "after"])
    if r.random() < 0.06:
        plan.add("other", op=r.choice(["crash", "netsplit"]), t=r.randrange(1, 5000), down=r.choice([100, 1000, 5000]))
    if r.random() < 0.06:
        l = plan.lines[[x.kind for x in plan.lines].index("ctrl")]
        l["nostop"] = 1
    if r.random() < 0.8:
        gen_sig(r, plan, 10, r.choice([30, 120, 300]), tmax, 20000)
    else:
        plan.add("sig", t=r.choice([15000, 45000]), last=1)
    return plan


def gen_unspawner(r):
    plan = Plan()
    gen_net(r, plan)
    pool = gen_ctrls(r, plan, r.randrange(2, 6), pre=0.85, bad=0.05)
    named = list(OrderedDict.fromkeys(r.choice(pool) for _ in range(r.randrange(1, 4))))
    if r.random() < 0.1:
        named.append("z")
    a = plan.add("unspawner", names=",".join(named))
    if r.random() < 0.1:
        a["argv0"] = r.choice(["./unspawner", "unspawner", pool[0]])
    tmax = r.choice([4000, 12000, 30000])
    if r.random() < 0.15:
        a["simtime"] = r.choice(["0", "0", "2000"])
    if r.random() < 0.12:
        plan.add("up", at=r.choice([100, 5000]))
    if r.random() < 0.55:
        gen_faults(r, plan, r.choice([3, 8, 14]), kinds=("unavailable", "lost_reply", "lost_request", "slow", "refuse", "unavailable", "lost_reply"))
    for _ in range(r.choice([0, 1, 2, 4, 6])):
        l = plan.add("other", op=r.choice(["start", "start", "start", "stop", "load", "unload", "abort"]), name=r.choice(pool))
        if r.random() < 0.6:
            l["t"] = r.randrange(1, tmax)
        else:
            l["call"] = r.randrange(1, 12)
            l["phase"] = r.choice(["before", "mid", "after"])
    if r.random() < 0.1:
        plan.add("other", op="clockjump", t=r.randrange(1, tmax), ms=r.choice([-3600000, -5000, -1500, 2000, 60000]))
    if r.random() < 0.08:
        plan.add("other", op=r.choice(["crash", "netsplit"]), t=r.randrange(1, tmax), down=r.choice([100, 1000, 8000]))
    if r.random() < 0.05:
        plan.lines[[x.kind for x in plan.lines].index("ctrl")]["nostop"] = 1
    if r.random() < 0.75:
        gen_sig(r, plan, 12, r.choice([40, 150]), tmax, tmax + 8000)
    else:
        plan.add("sig", t=tmax + r.randrange(0, 8000), last=1)
    return plan


def gen_tools(r):
    plan = Plan()
    gen_net(r, plan)
    pool = gen_ctrls(r, plan, r.randrange(1, 7), pre=0.5, bad=0.12)
    for i in range(r.choice([0, 1, 2, 3])):
        plan.add("group", name="g%d" % i, ctrls=",".join(OrderedDict.fromkeys(r.choice(pool + ["y"]) if r.random() < 0.06 else r.choice(pool) for _ in range(r.randrange(0, 5)))))
    if r.random() < 0.1:
        plan.add("nogroups")
    some = lambda k=4: ",".join(r.choice(pool) if r.random() < 0.95 else "z" for _ in range(r.randrange(1, k)))
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        x = r.random()
        if x < 0.35:
            n = r.choice(["load", "unload", "start", "stop", "start_many", "stop_many", "switch", "reload-libraries", "reload-libraries", "list", "list-types"])
            l = plan.add("cmd", via="api", name=n)
            if n in ("load", "unload", "start", "stop"):
                l["args"] = r.choice(pool)
            elif n in ("start_many", "stop_many", "switch"):
                l["args"] = some()
                if n == "switch":
                    l["stop"] = some()
            elif n == "reload-libraries":
                if r.random() < 0.75:
                    l["restore"] = 1
                l["force"] = r.choice("1110")
        elif x < 0.65:
            n = r.choice(["load", "unload", "start", "stop", "spawn", "sp", "kill", "kl", "list", "lc", "lt", "list-types", "reload-libraries", "reload-libraries"])
            l = plan.add("cmd", via="cli", name=n)
            if n == "reload-libraries":
                if r.random() < 0.75:
                    l["restore"] = 1
            elif n not in ("list", "lc", "lt", "list-types"):
                l["args"] = some()
        else:
            n = r.choice(["switch", "switch", "switch", "spawn", "list"])
            l = plan.add("cmd", via="group", name=n)
            if n != "list":
                l["args"] = "g%d" % r.randrange(0, 3)
    if r.random() < 0.4:
        gen_faults(r, plan, 14, kinds=("unavailable", "lost_reply", "lost_request", "slow", "refuse", "refuse", "crash_before", "crash_after"))
        for l in plan.all("fault"):
            if l["kind"].startswith("crash"):
                l["down"] = r.choice([100, 2000])
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        plan.add("other", op=r.choice(["start", "stop", "load", "unload", "abort"]), name=r.choice(pool), call=r.randrange(1, 14), phase=r.choice(["before", "mid", "after"]))
    if r.random() < 0.1:
        plan.add("up", at=r.choice([100, 3000]))
    if r.random() < 0.05:
        plan.lines[[x.kind for x in plan.lines].index("ctrl")]["nostop"] = 1
    return plan


def gen_discovery(r):
    plan = Plan()
    gen_net(r, plan)
    spaces = ["/cm", "/r1/cm", "/r2/cm", "/", "/r1", "/list_controllers", "/list_controllers_x/cm", "/r1/list_controllers/cm"]
    use = r.sample(spaces[:4], r.randrange(1, 4)) if r.random() < 0.75 else r.sample(spaces, r.randrange(1, 5))
    a = plan.add("discovery", cl=r.choice([n for n in use if n != "/"] or ["/cm"]))
    if r.random() < 0.15:
        a["root"] = r.choice(["/r1", "/r1/", "/cm"])
    n = 0
    slow = r.random() < 0.5

    def churn(q=None):
        ns = r.choice(use)
        x = r.random()
        kw = {}
        if q is not None:
            kw = dict(q=q, ask=n)
        if x < 0.38:
            plan.add("churn", op="up", ns=ns, ctrls=",".join(r.sample(POOL, r.randrange(0, 4))), **kw)
        elif x < 0.48:
            plan.add("churn", op="crash", ns=ns, **kw)
        elif x < 0.58:
            plan.add("churn", op="down", ns=ns, **kw)
        elif x < 0.66:
            plan.add("churn", op="partial", ns=ns, srv=r.choice(list(SERVICES)), how=r.choice(["gone", "type"]), **kw)
        elif x < 0.78:
            base = "" if ns == "/" else ns
            plan.add("churn", op="fake", srv=base + r.choice(["/list_controllers_x", "/list_controllers/x", "/list_controllers", "/my_list_controllers", "/x/list_controllers"]),
                     type=r.choice(["controller_manager_msgs/ListControllers", "std_srvs/Empty"]), **dict(kw, **({"dead": 1} if r.random() < 0.25 else {})))
        elif x < 0.82:
            f = [l for l in plan.all("churn") if l["op"] == "fake"]
            if f:
                plan.add("churn", op="unfake", srv=r.choice(f)["srv"], **kw)
        elif x < 0.88:
            plan.add("churn", op="master", to=r.choice("011"), **kw)
        else:
            plan.add("churn", op="ctrl", ns=ns, name=r.choice(POOL), do=r.choice(["load", "unload", "start", "stop"]), **kw)
    for _ in range(r.randrange(2, 14)):
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            churn()
        n += 1
        if r.random() < 0.25:
            churn(q=r.randrange(1, 12))
        plan.add("ask", n=n, what=r.choice(["list", "list", "get", "ctrls", "ctrls"]))
    if r.random() < 0.4:
        gen_faults(r, plan, 8, kinds=("unavailable", "lost_reply", "lost_request", "slow"))
    return plan


WORLDS = {"C26": (gen_spawner, Spawner), "C27": (gen_unspawner, Unspawner), "C28": (gen_tools, Tools), "C29": (gen_discovery, Discovery)}


def generate(prop, rng):
    return WORLDS[prop][0](rng)


def execute(prop, plan, sim):
    WORLDS[prop][1](plan, sim).run()


def droppable(l):
    return l.kind in ("fault", "other", "sig", "msg", "ctrl", "group", "cmd", "churn", "ask", "act", "up", "nogroups") and not l.get("last")


def simpler(l):
    """Simpler variants of a plan line."""
    out = []

    def without(k):
        if k in l:
            c = Line(l.kind, **l)
            del c[k]
            out.append(c)

    def setv(k, v):
        if k in l and l[k] != str(v):
            c = Line(l.kind, **l)
            c[k] = str(v)
            out.append(c)
    if l.kind == "net":
        setv("hi", 1)
        setv("drop", 0)
    if l.kind == "ctrl":
        for k in ("start", "load", "pre", "nostop"):
            without(k)
        setv("res", "-")
    if l.kind in ("spawner", "unspawner", "discovery"):
        for k in ("stopped", "ns", "timeout", "notimeout", "sdt", "wait", "simtime", "argv0", "root"):
            without(k)
    if l.kind in ("spawner", "unspawner", "cmd", "group", "file", "churn"):
        for k in ("names", "args", "ctrls", "stop"):
            v = [x for x in l.get(k, "").split(",") if x]
            if len(v) > 1:
                for i in range(len(v)):
                    setv(k, ",".join(v[:i] + v[i + 1:]))
    if l.kind == "gui":
        for k in ("restore", "last", "lastpick"):
            without(k)
        setv("latmax", 0)
        setv("serial", 1)
    if l.kind == "act":
        setv("hold", 0)
    if l.kind == "sig":
        without("how")
    return out
