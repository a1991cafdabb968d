"""A small synchronous rospy with one controller manager, for demonstrations on the Python tools."""
import os, sys, types, threading, runpy

REPO = os.getcwd()
class Obj(object):
    def __init__(self, **kw): self.__dict__.update(kw)

def module(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    sys.modules[name] = m
    if "." in name: setattr(sys.modules[name.rsplit(".", 1)[0]], name.rsplit(".", 1)[1], m)
    return m

class ROSException(Exception): pass
class ServiceException(ROSException): pass
class ROSServiceIOException(Exception): pass

FIELDS = {"LoadController": ["name"], "UnloadController": ["name"], "ListControllers": [], "ListControllerTypes": [], "ReloadControllerLibraries": ["force_kill"],
          "SwitchController": ["start_controllers", "stop_controllers", "strictness", "start_asap", "timeout"]}
DEFAULT = {"start_controllers": [], "stop_controllers": [], "strictness": 0, "start_asap": False, "timeout": 0.0, "name": "", "force_kill": False}
def request_class(srv):
    def init(self, *a, **k):
        for f in FIELDS[srv]: setattr(self, f, list(DEFAULT[f]) if isinstance(DEFAULT[f], list) else DEFAULT[f])
        if len(a) > len(FIELDS[srv]) or (a and len(a) != len(FIELDS[srv])): raise TypeError("wrong arguments")
        for f, v in zip(FIELDS[srv], a): setattr(self, f, v)
        for f, v in k.items():
            if f not in FIELDS[srv]: raise TypeError(f)
            setattr(self, f, v)
    return type(srv + "Request", (object,), {"__init__": init, "STRICT": 2, "BEST_EFFORT": 1})

class Manager(object):
    """A controller manager: states by name; good = names that can be loaded; log of requests."""
    def __init__(self, states=None, good=None):
        self.states = dict(states or {}); self.good = good; self.log = []; self.alive = True; self.on_call = None; self.wiped_by_reload = True
    def call(self, srv, r):
        if not self.alive: raise ServiceException("down")
        if self.on_call: self.on_call(srv, r)
        return getattr(self, srv)(r)
    def LoadController(self, r):
        ok = r.name not in self.states and (self.good is None or r.name in self.good)
        self.log.append(("load", r.name, ok))
        if ok: self.states[r.name] = "initialized"
        return Obj(ok=ok)
    def UnloadController(self, r):
        ok = self.states.get(r.name) not in (None, "running")
        self.log.append(("unload", r.name, ok))
        if ok: del self.states[r.name]
        return Obj(ok=ok)
    def SwitchController(self, r):
        start, stop = list(r.start_controllers), list(r.stop_controllers)
        bad = any(self.states.get(c) != "running" for c in stop) or any(c not in self.states or (self.states[c] == "running" and c not in stop) for c in start)
        ok = not (bad and r.strictness == 2)
        self.log.append(("switch", sorted(start), sorted(stop), r.strictness, ok))
        if ok:
            for c in stop:
                if self.states.get(c) == "running": self.states[c] = "stopped"
            for c in start:
                if c in self.states: self.states[c] = "running"
        return Obj(ok=ok)
    def ListControllers(self, r):
        return Obj(controller=[Obj(name=n, type="t", state=s, claimed_resources=[]) for n, s in sorted(self.states.items())])
    def ReloadControllerLibraries(self, r):
        ok = bool(r.force_kill) or not self.states
        self.log.append(("reload", ok))
        if ok: self.states.clear()
        return Obj(ok=ok)

class Ros(object):
    def __init__(self, manager, params=None):
        self.cm = manager; self.params = params or {}; self.hooks = []; self.down = False; self.timers = []; self.subs = []; self.argv = ["tool"]; self.now = 0.0
        self.services = {}
        self.spin = lambda: None
        self.logs = []
        srv = {}
        for s in FIELDS:
            srv[s] = type(s, (object,), {"_name": s}); srv[s + "Request"] = request_class(s)
        ros = self
        class ServiceProxy(object):
            def __init__(self, name, cls, persistent=False): self.name, self.cls = name, cls._name
            def wait_for_service(self, timeout=None): pass
            def call(self, *a, **k):
                r = a[0] if len(a) == 1 and type(a[0]) is srv[self.cls + "Request"] else srv[self.cls + "Request"](*a, **k)
                return ros.cm.call(self.cls, r)
            __call__ = call
        class Timer(object):
            def __init__(self, period, cb, oneshot=False, reset=False): self.period, self.cb, self.on, self.oneshot = period, cb, True, oneshot; ros.timers.append(self)
            def shutdown(self): self.on = False
        class Duration(float):
            def to_sec(self): return float(self)
        say = lambda *a, **k: ros.logs.append(str(a[0]) if a else "")
        module("rospy", ROSException=ROSException, ServiceException=ServiceException, ServiceProxy=ServiceProxy, Timer=Timer, Duration=Duration, Time=Duration, myargv=lambda argv=None: list(ros.argv),
               init_node=lambda *a, **k: None, on_shutdown=ros.hooks.append, is_shutdown=lambda: ros.down, spin=lambda: ros.spin(), wait_for_service=lambda *a, **k: None,
               get_param=lambda n, d=None: ros.params.get(n.lstrip("/"), d), get_rostime=lambda: Duration(ros.now), Subscriber=lambda topic, cls, cb, **k: ros.subs.append((topic, cb)),
               loginfo=say, logout=say, logwarn=say, logerr=say, logdebug=say)
        module("rospy.exceptions", ROSException=ROSException)
        module("rosparam", set_param=lambda *a, **k: None)
        module("rosservice", ROSServiceIOException=ROSServiceIOException, get_service_list=lambda node=None, namespace=None, include_nodes=False: sorted(ros.services), get_service_type=lambda n: ros.services.get(n))
        module("std_msgs"); module("std_msgs.msg", Bool=object)
        module("controller_manager_msgs"); m = module("controller_manager_msgs.srv", **srv)
        m.__all__ = list(srv)
        sys.path.insert(0, REPO + "/controller_manager/src")
    def fire(self):
        for t in list(self.timers):
            if t.on: t.cb(Obj())
    def shutdown(self):
        for h in self.hooks: h()
        self.down = True
    def run(self, tool, *args):
        self.argv = [tool] + list(args)
        sys.argv = list(self.argv)
        runpy.run_path(REPO + "/controller_manager/scripts/" + tool, run_name="__main__")
    def utils(self):
        return Obj(**runpy.run_path(REPO + "/controller_manager_msgs/src/controller_manager_msgs/utils.py"))

def check(c, what):
    if not c:
        print("FAIL: " + what); sys.stdout.flush(); os._exit(1)
