"""Simulated controller managers behind the services: state, requests in arrival order, faults and crashes."""
from kernel import MS, S
from collections import OrderedDict

SERVICES = OrderedDict([("list_controllers", "ListControllers"), ("list_controller_types", "ListControllerTypes"), ("load_controller", "LoadController"),
                        ("unload_controller", "UnloadController"), ("switch_controller", "SwitchController"), ("reload_controller_libraries", "ReloadControllerLibraries")])


class Conn(object):
    def __init__(self):
        self.dead = False


class Service(object):
    def __init__(self, server, name, typ, at=0):
        self.server, self.name, self.type, self.at = server, name, typ, at

    def _now(self):
        return self.server.sim.now >= self.at

    def registered(self):
        return self._now() and self.server.registered

    def reachable(self):
        return self._now() and self.server.up


class Ctrl(object):
    def __init__(self, name, owner, res, by_call=None):
        self.name, self.owner, self.res, self.state, self.by_call = name, owner, res, "initialized", by_call
        self.touched = -1     # last time another client acted on it


class Manager(object):
    def __init__(self, sim, ros, ns, msgs, srvs):
        self.sim, self.ros, self.ns, self.msgs, self.srvs = sim, ros, ns, msgs, srvs
        self.up = True
        self.registered = True
        self.conn = Conn()
        self.ctrls = OrderedDict()
        self.avail = {}          # name -> (loadable, resource, startable)
        self.queue = []
        self.last_exec = 0
        self.history = []        # (time, name, event, by)
        self.requests = []       # calls in execution order
        self.refuse_stop = set()
        self.crashed = False

    # ---- life cycle
    def crash(self, keep_registered=True):
        if not self.up:
            return
        self.sim.count("fault_manager_crash")
        self.sim.ev("manager %s crashes" % self.ns)
        self.up = False
        self.crashed = True
        self.registered = keep_registered
        self.conn.dead = True
        for n in list(self.ctrls):
            self.note(n, "gone", "crash")
        self.ctrls.clear()
        for c in self.queue:
            c.broken = True
        self.queue = []

    def restart(self):
        if self.up:
            return
        self.sim.ev("manager %s restarts" % self.ns)
        self.up = True
        self.registered = True
        self.conn = Conn()

    def note(self, name, what, by):
        self.history.append((self.sim.now, name, what, by))
        self.sim.ev("%s %s by %s" % (name, what, by))

    # ---- requests
    def submit(self, c):
        c.exec_at = max(self.sim.now + c.latency[0], self.last_exec)
        self.last_exec = c.exec_at
        self.queue.append(c)
        self.sim.at(c.exec_at, lambda: self.process(c))

    def process(self, c):
        if c not in self.queue:
            return
        if c.fault == "crash_before":
            self.crash()
            return
        if c.fault == "lost_request" or (c.after_flag and c.drop):
            self.sim.count("fault_lost_request" if c.fault == "lost_request" else "fault_request_dropped_at_shutdown")
            self.sim.ev("request %d lost" % c.n)
            self.queue.remove(c)
            c.broken = True
            return
        self.execute(c)
        if c not in self.queue:
            return
        if c.fault == "crash_after":
            self.crash()
            return
        self.queue.remove(c)
        if c.fault == "lost_reply":
            self.sim.count("fault_lost_reply")
            c.broken = True
            return

        def reply():
            c.replied = True
        self.sim.at(self.sim.now + c.latency[1], reply)

    def drain(self):
        """What is still under way when the tool has exited is carried out or dropped."""
        for c in list(self.queue):
            self.sim.now = max(self.sim.now, c.exec_at)
            self.process(c)

    def execute(self, c):
        c.executed = self.sim.now
        c.effects = []
        self.requests.append(c)
        r = c.req
        rep = c.cls._response_class()
        k = c.kind
        self.sim.count("op_" + k)
        refuse = c.fault == "refuse"
        if refuse:
            self.sim.count("fault_refused")
            c.refused = True
        if k == "load_controller":
            rep.ok = False if refuse else self.load(r.name, "tool", c)
        elif k == "unload_controller":
            rep.ok = False if refuse else self.unload(r.name, "tool", c)
        elif k == "switch_controller":
            rep.ok = False if refuse else self.switch(list(r.start_controllers), list(r.stop_controllers), r.strictness == 2, "tool", c)
        elif k == "list_controllers":
            rep.controller = self.states()
        elif k == "list_controller_types":
            rep.types = ["t/A", "u/B"]
        elif k == "reload_controller_libraries":
            rep.ok = False if refuse else self.reload(r.force_kill, "tool", c)
        c.reply = rep
        self.sim.ev("exec %d %s -> %s" % (c.n, c.short(), c.reply_str()))

    def states(self):
        out = []
        for x in self.ctrls.values():
            m = self.msgs["ControllerState"]()
            m.name, m.state, m.type = x.name, x.state, "t/A"
            h = self.msgs["HardwareInterfaceResources"]()
            h.hardware_interface = "hardware_interface::EffortJointInterface"
            h.resources = [x.res]
            m.claimed_resources = [h]
            out.append(m)
        return out

    # ---- semantics of the controller manager
    def load(self, name, by, c=None):
        spec = self.avail.get(name)
        if name in self.ctrls or spec is None or not spec[0]:
            return False
        self.ctrls[name] = Ctrl(name, by, spec[1], c)
        self.note(name, "loaded", by)
        if c:
            c.effects.append((name, "loaded"))
        return True

    def unload(self, name, by, c=None):
        x = self.ctrls.get(name)
        if x is None or x.state == "running":
            return False
        del self.ctrls[name]
        self.note(name, "unloaded", by)
        if c:
            c.effects.append((name, "unloaded"))
        return True

    def switch(self, start, stop, strict, by, c=None):
        st, sp = [], []
        for n in stop:
            if n not in self.ctrls:
                if strict:
                    return False
                continue
            sp.append(n)
        for n in start:
            if n not in self.ctrls:
                if strict:
                    return False
                continue
            st.append(n)
        for n, x in self.ctrls.items():
            run = x.state == "running"
            if n in sp and not run:
                if strict:
                    return False
                sp = [m for m in sp if m != n]
            if n in st and run and n not in sp:
                if strict:
                    return False
                st = [m for m in st if m != n]
        used = set()
        for n, x in self.ctrls.items():
            if (x.state == "running" and n not in sp) or n in st:
                if x.res != "-" and x.res in used:
                    return False
                used.add(x.res)
        if any(n in self.refuse_stop for n in sp):
            return False
        if any(not self.avail.get(n, (1, 1, True))[2] for n in st):
            return False
        for n in sp:
            if self.ctrls[n].state == "running":
                self.ctrls[n].state = "stopped"
                self.note(n, "stopped", by)
                if c:
                    c.effects.append((n, "stopped"))
        for n in st:
            if self.ctrls[n].state != "running":
                self.ctrls[n].state = "running"
                self.note(n, "started", by)
                if c:
                    c.effects.append((n, "started"))
        return True

    def reload(self, force, by, c=None):
        if self.ctrls and not force:
            return False
        if not self.switch([], [n for n in self.ctrls if self.ctrls[n].state == "running"], True, by, c):
            return False
        for n in list(self.ctrls):
            self.unload(n, by, c)
        return True

    def other(self, op, name):
        """Another client of the manager."""
        if not self.up:
            return
        self.sim.count("ev_other_" + op)
        if op == "load":
            self.load(name, "other")
        elif op == "unload":
            self.unload(name, "other")
        elif op == "start":
            self.switch([name], [], True, "other")
        elif op == "stop":
            self.switch([], [name], True, "other")
        elif op == "abort" and name in self.ctrls and self.ctrls[name].state == "running":
            self.ctrls[name].state = "aborted"
            self.note(name, "stopped", "other")
        if name in self.ctrls:
            self.ctrls[name].touched = self.sim.now
