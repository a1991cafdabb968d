"""Simulated rospy, rosparam, rosservice, messages, threading and time for the code under test."""
import builtins, os, re, sys, types
import time as _time
from kernel import MS, S, Killed

_msg_cache = {}


def _parse(path):
    """Fields and constants of the sections of a .msg/.srv file."""
    secs = [([], {})]
    for line in open(path):
        line = line.split("#")[0].strip()
        if not line:
            continue
        if line == "---":
            secs.append(([], {}))
            continue
        m = re.match(r"(\S+)\s+(\w+)\s*=\s*(\S+)$", line)
        if m:
            secs[-1][1][m.group(2)] = int(m.group(3))
            continue
        t, n = line.split()
        secs[-1][0].append((t, n))
    return secs


def _default(t):
    if t.endswith("]"):
        return []
    if t == "string":
        return ""
    if t == "bool":
        return False
    if t.startswith("float"):
        return 0.0
    if re.match(r"u?int", t):
        return 0
    return None


def make_message(name, fields, consts):
    def init(self, *args, **kw):
        if args and kw:
            raise TypeError("Message constructor may only use args or keywords, not both")
        if args and len(args) != len(fields):
            raise TypeError("Invalid number of arguments, args should be %s args are %s" % (str([n for _, n in fields]), str(args)))
        for k in kw:
            if k not in dict((n, t) for t, n in fields):
                raise AttributeError("%s is not an attribute of %s" % (k, name))
        for i, (t, n) in enumerate(fields):
            v = args[i] if args else kw.get(n)
            setattr(self, n, _default(t) if v is None else v)

    def rep(self):
        return "%s(%s)" % (name, ", ".join("%s=%r" % (n, getattr(self, n)) for _, n in fields))
    d = {"__init__": init, "__repr__": rep, "__str__": rep, "__slots__": [n for _, n in fields], "_fields": fields, "_type": name}
    d.update(consts)
    return type(name, (object,), d)


def serialize(msg):
    """What arrives at the other side; raises for values that cannot be serialised."""
    out = type(msg)()
    for t, n in msg._fields:
        v = getattr(msg, n)
        try:
            if t == "string[]":
                len(v)
                r = []
                for x in v:
                    if not isinstance(x, str):
                        raise ValueError("field %s must be a list of strings" % n)
                    r.append(x)
                v = r
            elif t == "string":
                if not isinstance(v, str):
                    raise ValueError("field %s must be a string" % n)
            elif t == "bool":
                v = bool(v)
            elif t.startswith("float") and not t.endswith("]"):
                v = float(v)
            elif re.match(r"u?int\d+$", t):
                if v != int(v):
                    raise ValueError("field %s must be an integer" % n)
                v = int(v)
        except (TypeError, ValueError) as e:
            raise ValueError(str(e))
        setattr(out, n, v)
    return out


class Ros(object):
    """One node (the process under test) with the simulated master, parameters and services around it."""

    def __init__(self, sim, repo, argv):
        self.sim, self.repo, self.argv = sim, repo, argv
        self.shutdown_flag = False
        self.in_shutdown = False
        self.shutdown_at = None       # when the shutdown was requested
        self.hooks = []
        self.initialized = False
        self.params = {}
        self.services = {}            # name -> Service
        self.published = []           # (topic, callback)
        self.sim_time = False
        self.clock_at = None          # virtual time of the first clock message
        self.clock_off = 0
        self.wall_off = 0
        self.shutdown_lock = None
        self.output = []
        self.master_up = True
        self.rpc_hook = None          # called for each master or service-header query: may raise
        self.ncalls = 0
        self.param_hook = None        # with it the parameter server is unreachable while the master is
        self.call_hook = None         # workload: called around service calls
        self.mods = {}
        self.targets = sim.targets
        self.threads = []
        self._build()

    # ---- messages
    def messages(self, kind):
        key = (self.repo, kind)
        if key in _msg_cache:
            return _msg_cache[key]
        out = {}
        d = os.path.join(self.repo, "controller_manager_msgs", kind)
        for f in sorted(os.listdir(d)):
            n, ext = os.path.splitext(f)
            if ext != "." + kind:
                continue
            secs = _parse(os.path.join(d, f))
            if kind == "msg":
                out[n] = make_message(n, *secs[0])
            else:
                out[n + "Request"] = make_message(n + "Request", *secs[0])
                out[n + "Response"] = make_message(n + "Response", *secs[1])
                out[n] = type(n, (object,), {"_type": "controller_manager_msgs/" + n, "_request_class": out[n + "Request"], "_response_class": out[n + "Response"]})
        _msg_cache[key] = out
        return out

    # ---- time
    def wall(self):
        return 1700000000 * S + self.sim.now + self.wall_off

    def rostime(self):
        if not self.sim_time:
            return self.wall()
        if self.clock_at is None or self.sim.now < self.clock_at:
            return 0
        return 100 * S + ((self.sim.now - self.clock_at) // (20 * MS)) * 20 * MS + self.clock_off

    def rossleep(self, ns):
        R = self.rospy
        sim = self.sim
        if ns < 0:
            return
        if not self.sim_time:
            sim.sleep(ns)
            return
        while self.rostime() == 0 and not self.shutdown_flag:
            sim.wait(lambda: self.rostime() != 0 or self.shutdown_flag, sim.now + 300 * MS)
        t0 = self.rostime()
        while self.rostime() < t0 + ns and self.rostime() >= t0 and not self.shutdown_flag:
            sim.wait(None, sim.now + 20 * MS)
        if self.rostime() < t0:
            raise R.exceptions.ROSTimeMovedBackwardsException(t0 - self.rostime())
        if self.shutdown_flag:
            raise R.exceptions.ROSInterruptException("ROS shutdown request")

    # ---- shutdown
    def signal_shutdown(self, reason):
        sim = self.sim
        if self.shutdown_flag or self.in_shutdown:
            return
        self.in_shutdown = True
        self.shutdown_at = sim.now
        sim.ev("shutdown: %s" % reason)
        for h in list(self.hooks):
            try:
                h()
            except Killed:
                raise
            except BaseException as e:
                sim.ev("shutdown hook raised %s" % type(e).__name__)
                self.hook_errors.append(e)
        self.hooks = []
        self.shutdown_flag = True
        sim.ev("shutdown flag set")
        sim.sleep(100 * MS)

    def resolve(self, name, ns=""):
        return "/" + "/".join(x for x in name.split("/") if x)

    # ---- modules
    def _build(self):
        sim, ros = self.sim, self
        self.hook_errors = []
        R = types.ModuleType("rospy")
        X = types.ModuleType("rospy.exceptions")
        self.rospy = R

        class ROSException(Exception):
            pass

        class ROSSerializationException(ROSException):
            pass

        class ROSInternalException(Exception):
            pass

        class ROSInitException(ROSException):
            pass

        class ROSInterruptException(ROSException, KeyboardInterrupt):
            pass

        class ROSTimeMovedBackwardsException(ROSInterruptException):
            def __init__(self, t=0):
                self.time = t
                super(ROSTimeMovedBackwardsException, self).__init__("ROS time moved backwards")

        class TransportException(ROSInternalException):
            pass

        class ServiceException(Exception):
            pass
        for c in (ROSException, ROSSerializationException, ROSInternalException, ROSInitException, ROSInterruptException, ROSTimeMovedBackwardsException, TransportException):
            setattr(X, c.__name__, c)
            setattr(R, c.__name__, c)
        R.exceptions = X
        R.ServiceException = ServiceException
        svc = types.ModuleType("rospy.service")
        svc.ServiceException = ServiceException
        R.service = svc

        class Duration(object):
            def __init__(self, secs=0, nsecs=0):
                self.ns = int(round(secs * 1e9)) + int(nsecs)

            @classmethod
            def from_sec(cls, s):
                return cls(s)

            def to_sec(self):
                return self.ns / 1e9

            def to_nsec(self):
                return self.ns

            def __add__(self, o):
                r = type(o)()
                r.ns = self.ns + o.ns
                return r

            def __sub__(self, o):
                r = Duration()
                r.ns = self.ns - o.ns
                return r

            def __neg__(self):
                r = Duration()
                r.ns = -self.ns
                return r

            def __mul__(self, k):
                r = Duration()
                r.ns = int(self.ns * k)
                return r

            def __eq__(self, o):
                return isinstance(o, Duration) and self.ns == o.ns

            def __hash__(self):
                return hash(self.ns)

            def __lt__(self, o):
                return self.ns < o.ns

            def __le__(self, o):
                return self.ns <= o.ns

            def __gt__(self, o):
                return self.ns > o.ns

            def __ge__(self, o):
                return self.ns >= o.ns

            def __bool__(self):
                return self.ns != 0
            secs = property(lambda s: s.ns // S)
            nsecs = property(lambda s: s.ns % S)

        class Time(object):
            def __init__(self, secs=0, nsecs=0):
                self.ns = int(round(secs * 1e9)) + int(nsecs)

            @staticmethod
            def now():
                r = Time()
                r.ns = ros.rostime()
                return r

            @classmethod
            def from_sec(cls, s):
                return cls(s)

            def to_sec(self):
                return self.ns / 1e9

            def to_nsec(self):
                return self.ns

            def is_zero(self):
                return self.ns == 0

            def __add__(self, o):
                r = Time()
                r.ns = self.ns + o.ns
                return r

            def __sub__(self, o):
                r = Duration() if isinstance(o, Time) else Time()
                r.ns = self.ns - o.ns
                return r

            def __eq__(self, o):
                return isinstance(o, Time) and self.ns == o.ns

            def __hash__(self):
                return hash(self.ns)

            def __lt__(self, o):
                return self.ns < o.ns

            def __le__(self, o):
                return self.ns <= o.ns

            def __gt__(self, o):
                return self.ns > o.ns

            def __ge__(self, o):
                return self.ns >= o.ns

            def __bool__(self):
                return self.ns != 0
            secs = property(lambda s: s.ns // S)
            nsecs = property(lambda s: s.ns % S)
        R.Time, R.Duration = Time, Duration
        rt = types.ModuleType("rospy.rostime")
        rt.Time, rt.Duration = Time, Duration
        rt.wallsleep = lambda s: sim.sleep(int(s * 1e9))
        rt.is_wallclock = lambda: not ros.sim_time
        rt.is_rostime_initialized = lambda: ros.initialized
        rt.get_rostime = lambda: get_rostime()
        rt.get_time = lambda: get_rostime().to_sec()
        rt.sleep = lambda d: rsleep(d)
        R.rostime = rt

        def get_rostime():
            if not ros.initialized:
                raise ROSInitException("time is not initialized. Have you called init_node()?")
            return Time.now()
        R.get_rostime = get_rostime
        R.get_time = lambda: get_rostime().to_sec()

        def rsleep(d):
            ros.rossleep(d.ns if isinstance(d, Duration) else int(d * 1e9))
        R.sleep = rsleep

        class Rate(object):
            def __init__(self, hz, reset=False):
                self.last_time = ros.rostime()
                self.sleep_dur = int(1e9 / hz)
                self._reset = reset

            def _remaining(self, cur):
                if self.last_time > cur:
                    self.last_time = cur
                return self.sleep_dur - (cur - self.last_time)

            def remaining(self):
                return Duration(0, self._remaining(ros.rostime()))

            def sleep(self):
                cur = ros.rostime()
                try:
                    ros.rossleep(self._remaining(cur))
                except ROSTimeMovedBackwardsException:
                    if not self._reset:
                        raise
                    self.last_time = ros.rostime()
                    return
                self.last_time += self.sleep_dur
                if cur - self.last_time > self.sleep_dur * 2:
                    self.last_time = cur
        R.Rate = Rate
        rt.Rate = Rate

        class TimerEvent(object):
            def __init__(self, *a):
                self.last_expected, self.last_real, self.current_expected, self.current_real, self.last_duration = a

        class Timer(object):
            def __init__(self, period, callback, oneshot=False, reset=False):
                self._period, self._callback, self._oneshot, self._reset = period, callback, oneshot, reset
                self._shutdown = False
                self.daemon = True
                self.fiber = sim.spawn("timer", self.run)
                sim.point()

            def shutdown(self):
                self._shutdown = True

            def join(self, timeout=None):
                sim.wait(lambda: self.fiber.done, None if timeout is None else sim.now + int(timeout * 1e9))

            def is_alive(self):
                return not self.fiber.done

            def run(self):
                try:
                    r = Rate(1.0 / self._period.to_sec(), reset=self._reset)
                    while not ros.shutdown_flag and not self._shutdown:
                        try:
                            r.sleep()
                        except ROSTimeMovedBackwardsException:
                            if not self._reset:
                                raise
                        except ROSInterruptException:
                            if ros.shutdown_flag:
                                break
                            raise
                        if self._shutdown:
                            break
                        n = Time.now()
                        self._callback(TimerEvent(None, None, n, n, None))
                        if self._oneshot:
                            break
                except Killed:
                    raise
                except BaseException as e:
                    sim.ev("timer thread died: %s" % type(e).__name__)
        R.Timer = Timer
        R.TimerEvent = TimerEvent
        rt.Timer, rt.TimerEvent = Timer, TimerEvent
        tmod = types.ModuleType("rospy.timer")
        tmod.Timer, tmod.TimerEvent, tmod.Rate, tmod.sleep = Timer, TimerEvent, Rate, rsleep
        R.timer = tmod

        def init_node(name, argv=None, anonymous=False, log_level=None, disable_rostime=False, disable_rosout=False, disable_signals=False, xmlrpc_port=0, tcpros_port=0):
            sim.point()
            ros.initialized = True
            if not disable_signals:
                sim.sig_handler = lambda: ros.signal_shutdown("signal")
        R.init_node = init_node
        R.myargv = lambda argv=None: list(ros.argv if argv is None else argv)

        def logger(level):
            def log(msg, *args, **kw):
                ros.output.append((level, str(msg) % args if args else str(msg)))
            return log
        for lv in ("debug", "info", "warn", "err", "fatal"):
            setattr(R, "log" + lv, logger(lv))
            setattr(R, "log%s_once" % lv, logger(lv))
            setattr(R, "log%s_throttle" % lv, lambda p, msg, *a, **k: None)
        R.logout = logger("info")
        R.logerror = R.logerr
        R.logwarning = R.logwarn
        R.is_shutdown = lambda: ros.shutdown_flag
        R.signal_shutdown = ros.signal_shutdown
        core = types.ModuleType("rospy.core")
        core.is_shutdown = R.is_shutdown
        core.is_shutdown_requested = lambda: ros.in_shutdown or ros.shutdown_flag
        core.is_initialized = lambda: ros.initialized
        core.signal_shutdown = ros.signal_shutdown
        R.core = core

        def on_shutdown(h):
            if not callable(h):
                raise TypeError("shutdown hook [%s] must be a function" % h)
            if ros.shutdown_flag:
                h()
                return
            ros.hooks.append(h)
        R.on_shutdown = on_shutdown

        def spin():
            if not ros.initialized:
                raise ROSInitException("client code must call rospy.init_node() first")
            try:
                while not ros.shutdown_flag:
                    sim.wait(None, sim.now + 500 * MS)
            except KeyboardInterrupt:
                ros.signal_shutdown("keyboard interrupt")
        R.spin = spin
        R.get_name = R.get_caller_id = lambda: "/tool"
        R.get_namespace = lambda: "/"
        R.resolve_name = ros.resolve

        def get_param(name, default=ros):
            ros.master("get_param")
            v = ros.params.get(ros.resolve(name))
            if v is None:
                if default is ros:
                    raise KeyError(name)
                return default
            return v
        R.get_param = get_param

        def has_param(name):
            ros.master("has_param")
            return ros.resolve(name) in ros.params
        R.has_param = has_param

        def set_param(name, v):
            ros.master("set_param")
            ros.params[ros.resolve(name)] = v
        R.set_param = set_param

        def delete_param(name):
            ros.master("delete_param")
            del ros.params[ros.resolve(name)]
        R.delete_param = delete_param
        R.search_param = lambda name: ros.resolve(name) if has_param(name) else None
        R.get_param_names = lambda: sorted(ros.params)
        R.get_published_topics = lambda ns="/": []

        class Subscriber(object):
            def __init__(self, name, data_class, callback=None, callback_args=None, queue_size=None, buff_size=0, tcp_nodelay=False):
                self.name, self.cb, self.args = ros.resolve(name), callback, callback_args
                ros.published.append(self)
                if ros.latched.get(self.name) is not None:
                    ros.publish(self.name, ros.latched[self.name], only=self)

            def unregister(self):
                if self in ros.published:
                    ros.published.remove(self)
        R.Subscriber = Subscriber
        ros.latched = {}

        def wait_for_message(topic, topic_type, timeout=None):
            got = []
            sub = Subscriber(topic, topic_type, got.append)
            try:
                end = None if timeout is None else sim.now + int(timeout * 1e9)
                while not got and not ros.shutdown_flag:
                    if not sim.wait(lambda: got or ros.shutdown_flag, end) and end is not None and sim.now >= end:
                        raise ROSException("timeout exceeded while waiting for message on topic %s" % topic)
            finally:
                sub.unregister()
            if not got:
                raise ROSInterruptException("rospy shutdown")
            return got[0]
        R.wait_for_message = wait_for_message

        class Publisher(object):
            def __init__(self, *a, **k):
                pass

            def publish(self, *a, **k):
                pass
        R.Publisher = Publisher

        def contact(name):
            s = ros.services.get(name)
            return s is not None and s.reachable() and ros.master_up

        def wait_for_service(name, timeout=None):
            if timeout == 0:
                raise ValueError("timeout must be non-zero")
            name = ros.resolve(name)
            sim.point()
            t1 = None if timeout is None else sim.now + int(timeout * 1e9)
            while not ros.shutdown_flag and (t1 is None or sim.now < t1):
                if contact(name):
                    return
                sim.wait(None, sim.now + 300 * MS)
            if ros.shutdown_flag:
                raise ROSInterruptException("rospy shutdown")
            raise ROSException("timeout exceeded while waiting for service %s" % name)
        R.wait_for_service = wait_for_service

        class ServiceProxy(object):
            def __init__(self, name, service_class, persistent=False, headers=None):
                self.resolved_name = ros.resolve(name)
                self.service_class = service_class
                self.request_class = service_class._request_class
                self.persistent = persistent
                self.conn = None
                self.broken = False

            def wait_for_service(self, timeout=None):
                wait_for_service(self.resolved_name, timeout)

            def __call__(self, *args, **kw):
                return self.call(*args, **kw)

            def call(self, *args, **kw):
                if len(args) == 1 and isinstance(args[0], self.request_class) and not kw:
                    req = args[0]
                else:
                    req = self.request_class(*args, **kw)
                return ros.call(self, req)

            def close(self):
                self.conn = None
                self.broken = False
        R.ServiceProxy = ServiceProxy
        RS = types.ModuleType("rosservice")

        class ROSServiceException(Exception):
            pass

        class ROSServiceIOException(ROSServiceException):
            pass
        RS.ROSServiceException, RS.ROSServiceIOException = ROSServiceException, ROSServiceIOException
        self.rosservice = RS

        def get_service_list(node=None, namespace=None, include_nodes=False):
            ros.rpc("list")
            if not ros.master_up:
                raise ROSServiceIOException("Unable to communicate with master!")
            out = []
            for n in sorted(ros.services):
                if ros.services[n].registered() and (not namespace or namespace == "/" or n == namespace or n.startswith(namespace.rstrip("/") + "/")):
                    out.append(n)
            return out
        RS.get_service_list = get_service_list

        def get_service_type(name):
            ros.rpc("type")
            if not ros.master_up:
                raise ROSServiceIOException("Unable to communicate with master!")
            s = ros.services.get(name)
            if s is None or not s.registered():
                return None
            if not s.reachable():
                raise ROSServiceIOException("Unable to communicate with service [%s]" % name)
            return s.type
        RS.get_service_type = get_service_type
        RP = types.ModuleType("rosparam")

        class RosParamException(Exception):
            pass
        RP.RosParamException = RosParamException

        class RosParamIOException(RosParamException):
            pass
        RP.RosParamIOException = RosParamIOException
        import yaml

        def rp_set(param, value, verbose=False):
            ros.master("set_param")
            v = yaml.safe_load(value)
            ros.set_tree(param, v)
        RP.set_param = rp_set
        RP.set_param_raw = lambda param, v, verbose=False: ros.set_tree(param, v)

        def rp_load(path, default_namespace=None, verbose=False):
            with open(path) as f:
                return [(yaml.safe_load(f.read()), default_namespace or "/")]
        RP.load_file = rp_load
        RP.upload_params = lambda ns, v, verbose=False: ros.set_tree(ns, v)

        def rp_list(ns):
            try:
                ros.master("list_params")
            except ConnectionRefusedError:
                raise RosParamIOException("Unable to communicate with master!")
            ns = ros.resolve(ns)
            ns = ns if ns.endswith("/") else ns + "/"
            return sorted(p for p in ros.params if p.startswith(ns))
        RP.list_params = rp_list
        RP.get_param = get_param

        # threading and time as seen by the code under test
        TH = types.ModuleType("threading")

        class Lock(object):
            reentrant = False

            def __init__(self):
                self.owner, self.n = None, 0

            def acquire(self, blocking=True, timeout=-1):
                sim.point()
                me = sim.cur
                if self.reentrant and self.owner is me:
                    self.n += 1
                    return True
                if self.owner is not None:
                    if not blocking:
                        return False
                    if not sim.wait(lambda: self.owner is None, None if timeout is None or timeout < 0 else sim.now + int(timeout * 1e9)):
                        return False
                self.owner, self.n = me, 1
                return True

            def release(self):
                if self.owner is None:
                    raise RuntimeError("release unlocked lock")
                self.n -= 1
                if self.n == 0:
                    self.owner = None

            def locked(self):
                return self.owner is not None

            def __enter__(self):
                self.acquire()
                return self

            def __exit__(self, *a):
                if not sim.killing:
                    self.release()

        class RLock(Lock):
            reentrant = True

        class Event(object):
            def __init__(self):
                self.f = False

            def set(self):
                self.f = True

            def clear(self):
                self.f = False

            def is_set(self):
                return self.f
            isSet = is_set

            def wait(self, timeout=None):
                sim.wait(lambda: self.f, None if timeout is None else sim.now + int(timeout * 1e9))
                return self.f

        class Condition(object):
            def __init__(self, lock=None):
                self.lock = lock or RLock()
                self.gen, self.tickets = 0, 0
                self.acquire, self.release = self.lock.acquire, self.lock.release

            def __enter__(self):
                self.lock.acquire()
                return self

            def __exit__(self, *a):
                if not sim.killing:
                    self.lock.release()

            def wait(self, timeout=None):
                n = self.lock.n
                self.lock.n, self.lock.owner = 0, None
                g = self.gen
                r = sim.wait(lambda: self.gen != g, None if timeout is None else sim.now + int(timeout * 1e9))
                sim.wait(lambda: self.lock.owner is None)
                self.lock.n, self.lock.owner = n, sim.cur
                return r

            def wait_for(self, pred, timeout=None):
                end = None if timeout is None else sim.now + int(timeout * 1e9)
                while not pred():
                    if end is not None and sim.now >= end:
                        return pred()
                    self.wait(None if end is None else (end - sim.now) / 1e9)
                return True

            def notify(self, n=1):
                self.gen += 1

            def notify_all(self):
                self.gen += 1
            notifyAll = notify_all

        class Thread(object):
            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
                self.target, self.args, self.kwargs = target, args, kwargs or {}
                self.daemon = bool(daemon)
                self.name = name or "thread"
                self.fiber = None

            def run(self):
                if self.target:
                    self.target(*self.args, **self.kwargs)

            def setDaemon(self, d):
                self.daemon = d

            def start(self):
                def body():
                    try:
                        self.run()
                    except Killed:
                        raise
                    except BaseException as e:
                        sim.ev("thread died: %s" % type(e).__name__)
                self.fiber = sim.spawn("thread", body)
                ros.threads.append(self)
                sim.point()

            def join(self, timeout=None):
                sim.wait(lambda: self.fiber.done, None if timeout is None else sim.now + int(timeout * 1e9))

            def is_alive(self):
                return self.fiber is not None and not self.fiber.done
            isAlive = is_alive

        class PTimer(Thread):
            def __init__(self, interval, function, args=None, kwargs=None):
                Thread.__init__(self, target=function, args=args or (), kwargs=kwargs)
                self.interval, self.ended = interval, False

            def cancel(self):
                self.ended = True

            def run(self):
                sim.wait(lambda: self.ended, sim.now + int(self.interval * 1e9))
                if not self.ended:
                    self.target(*self.args, **self.kwargs)
        class Semaphore(object):
            def __init__(self, value=1):
                self.v = value

            def acquire(self, blocking=True, timeout=None):
                sim.point()
                if not self.v:
                    if not blocking or not sim.wait(lambda: self.v, None if timeout is None else sim.now + int(timeout * 1e9)):
                        return False
                self.v -= 1
                return True

            def release(self, n=1):
                self.v += n

            def __enter__(self):
                self.acquire()
                return self

            def __exit__(self, *a):
                if not sim.killing:
                    self.release()
        TH.Semaphore = TH.BoundedSemaphore = Semaphore

        class Local(object):
            def __init__(self):
                object.__setattr__(self, "d", {})

            def __getattr__(self, k):
                try:
                    return self.d[sim.cur][k]
                except KeyError:
                    raise AttributeError(k)

            def __setattr__(self, k, v):
                self.d.setdefault(sim.cur, {})[k] = v
        TH.local = Local
        TH.active_count = TH.activeCount = lambda: sum(1 for f in sim.fibers if not f.done)
        TH.enumerate = lambda: [f for f in sim.fibers if not f.done]
        TH.TIMEOUT_MAX = 1e9
        QM = types.ModuleType("queue")

        class Empty(Exception):
            pass

        class Full(Exception):
            pass

        class Queue(object):
            lifo = False

            def __init__(self, maxsize=0):
                self.q, self.maxsize, self.unfinished = [], maxsize, 0

            def qsize(self):
                return len(self.q)

            def empty(self):
                return not self.q

            def full(self):
                return 0 < self.maxsize <= len(self.q)

            def put(self, x, block=True, timeout=None):
                sim.point()
                if self.full() and (not block or not sim.wait(lambda: not self.full(), None if timeout is None else sim.now + int(timeout * 1e9))):
                    raise Full()
                self.q.append(x)
                self.unfinished += 1

            def get(self, block=True, timeout=None):
                sim.point()
                if not self.q and (not block or not sim.wait(lambda: self.q, None if timeout is None else sim.now + int(timeout * 1e9))):
                    raise Empty()
                return self.q.pop(-1 if self.lifo else 0)

            def put_nowait(self, x):
                self.put(x, False)

            def get_nowait(self):
                return self.get(False)

            def task_done(self):
                self.unfinished -= 1

            def join(self):
                sim.wait(lambda: self.unfinished <= 0)

        class LifoQueue(Queue):
            lifo = True
        QM.Queue = QM.SimpleQueue = Queue
        QM.LifoQueue, QM.Empty, QM.Full = LifoQueue, Empty, Full
        TH.Lock, TH.RLock, TH.Event, TH.Condition, TH.Thread, TH.Timer = Lock, RLock, Event, Condition, Thread, PTimer
        TH.current_thread = TH.currentThread = lambda: sim.cur
        TH.get_ident = lambda: sim.cur.idx
        TH.main_thread = lambda: sim.main
        TM = types.ModuleType("time")
        TM.__dict__.update((k, v) for k, v in _time.__dict__.items() if not k.startswith("__"))
        TM.time_ns = lambda: ros.wall()
        TM.monotonic_ns = TM.perf_counter_ns = lambda: sim.now
        TM.time = lambda: ros.wall() / 1e9
        TM.monotonic = TM.perf_counter = lambda: sim.now / 1e9
        TM.sleep = lambda s: sim.sleep(int(s * 1e9))
        SM = types.ModuleType("std_msgs")
        SMM = types.ModuleType("std_msgs.msg")
        SMM.Bool = make_message("Bool", [("bool", "data")], {})
        SMM.String = make_message("String", [("string", "data")], {})
        SMM.Float64 = make_message("Float64", [("float64", "data")], {})
        SMM.__all__ = ["Bool", "String", "Float64"]
        SM.msg = SMM
        M = self.mods
        M.update({"rospy": R, "rospy.exceptions": X, "rospy.service": svc, "rospy.core": core, "rospy.rostime": rt, "rospy.timer": tmod, "queue": QM, "Queue": QM, "rosservice": RS, "rosparam": RP, "threading": TH, "time": TM, "std_msgs": SM, "std_msgs.msg": SMM})
        for kind in ("msg", "srv"):
            m = types.ModuleType("controller_manager_msgs." + kind)
            m.__dict__.update(self.messages(kind))
            m.__all__ = list(self.messages(kind))
            M["controller_manager_msgs." + kind] = m
        bi = types.ModuleType("builtins")
        bi.__dict__.update(builtins.__dict__)
        bi.__import__ = self._import
        bi.print = lambda *a, **k: self.output.append(("print", " ".join(str(x) for x in a)))
        self.builtins = bi

    # ---- imports of the code under test
    ROOTS = {"controller_manager": "controller_manager/src", "controller_manager_msgs": "controller_manager_msgs/src", "rqt_controller_manager": "rqt_controller_manager/src"}

    def load(self, full):
        """A module of the code under test (or a simulated one), or None."""
        if full in self.mods:
            return self.mods[full]
        top = full.split(".")[0]
        if top not in self.ROOTS:
            return None
        base = os.path.join(self.repo, self.ROOTS[top], *full.split("."))
        for path, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if os.path.exists(path):
                m = types.ModuleType(full)
                m.__file__ = path
                m.__package__ = full if pkg else full.rpartition(".")[0]
                if pkg:
                    m.__path__ = [base]
                m.__builtins__ = self.builtins
                self.mods[full] = m
                if "." in full:
                    parent = self.load(full.rpartition(".")[0])
                    setattr(parent, full.rpartition(".")[2], m)
                self.execute(path, m.__dict__)
                return m
        return None

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        top = name.split(".")[0]
        if top in self.ROOTS or name in self.mods or top in self.mods:
            parts = name.split(".")
            for i in range(1, len(parts) + 1):
                m = self.load(".".join(parts[:i]))
                if m is None:
                    raise ImportError("no module named %s" % ".".join(parts[:i]))
                if i > 1:
                    setattr(self.mods[".".join(parts[:i - 1])], parts[i - 1], m)
            if not fromlist:
                return self.mods[parts[0]]
            for f in fromlist:
                if f != "*" and not hasattr(m, f):
                    sub = self.load(name + "." + f)
                    if sub is not None:
                        setattr(m, f, sub)
            return m
        return builtins.__import__(name, globals, locals, fromlist, 0)

    _code = {}

    def execute(self, path, ns):
        """Runs a file of the code under test."""
        if path not in self._code:
            self._code[path] = compile(open(path).read(), path, "exec")
            self.targets.add(path)
        self.targets.add(path)
        exec(self._code[path], ns)

    def script(self, path):
        ns = {"__name__": "__main__", "__file__": path, "__builtins__": self.builtins, "__package__": None}
        old = sys.argv
        sys.argv = list(self.argv)
        try:
            self.execute(path, ns)
        finally:
            sys.argv = old
        return ns

    # ---- master and services
    def master(self, what):
        self.sim.point()
        if self.param_hook:
            self.param_hook(what)
            if not self.master_up:
                self.sim.count("fault_parameter_server_unreachable")
                raise ConnectionRefusedError(111, "Connection refused")

    def rpc(self, what):
        self.sim.point()
        if self.rpc_hook:
            self.rpc_hook(what)

    def set_tree(self, prefix, v):
        if isinstance(v, dict):
            for k, x in v.items():
                self.set_tree(prefix.rstrip("/") + "/" + str(k), x)
        else:
            self.params[self.resolve(prefix)] = v

    def publish(self, topic, msg, only=None):
        for s in list(self.published):
            if s.name == topic and (only is None or s is only):
                def body(s=s):
                    try:
                        s.cb(msg) if s.args is None else s.cb(msg, s.args)
                    except Killed:
                        raise
                    except BaseException as e:
                        self.sim.ev("subscriber callback raised %s" % type(e).__name__)
                self.sim.spawn("subscriber", body)

    def call(self, proxy, req):
        """A service call: request and reply travel through the simulated network."""
        sim, R = self.sim, self.rospy
        sim.point()
        try:
            req = serialize(req)
        except ValueError as e:
            raise R.exceptions.ROSSerializationException(str(e))
        self.ncalls += 1
        c = Call(self.ncalls, proxy.resolved_name, proxy.service_class, req, sim.now, self.in_shutdown, self.shutdown_flag, sim.cur.name)
        self.call_hook.before(c)
        s = self.services.get(proxy.resolved_name)
        if proxy.persistent and proxy.conn is not None:
            if proxy.conn.dead or proxy.broken:
                # the transport stays closed, it is up to the user to make a new proxy
                c.outcome = "unavailable"
                self.call_hook.failed(c)
                raise R.exceptions.TransportException("TCPROS transport was not successfully initialized")
        elif not self.master_up or s is None or not s.reachable() or c.fault == "unavailable" or not hasattr(s, "server"):
            # (a service of another type is refused when the connection is set up)
            if c.fault == "unavailable":
                sim.count("fault_call_refused")
            c.outcome = "unavailable"
            sim.ev("call %d %s unavailable" % (c.n, c.short()))
            self.call_hook.failed(c)
            raise R.ServiceException("service [%s] unavailable" % c.name)
        server = s.server
        if proxy.persistent:
            proxy.conn = server.conn
        sim.ev("call %d %s" % (c.n, c.short()))
        server.submit(c)
        if self.shutdown_flag:
            c.outcome = "no reply"
            self.call_hook.failed(c)
            raise R.ServiceException("service [%s] returned no response" % c.name)
        limit = None
        sim.wait(lambda: c.replied or c.broken)
        if self.shutdown_flag or c.broken:
            # the reply is not read any more once the node is shutting down
            c.outcome = "no reply"
            proxy.broken = True
            sim.ev("call %d no reply" % c.n)
            self.call_hook.failed(c)
            raise R.ServiceException("service [%s] returned no response" % c.name)
        c.outcome = "reply"
        c.delivered = sim.now
        sim.ev("reply %d %s" % (c.n, c.reply_str()))
        self.call_hook.after(c)
        return c.reply


class Call(object):
    def __init__(self, n, name, cls, req, t, hook, flag, thread):
        self.n, self.name, self.cls, self.req, self.sent, self.in_hook, self.after_flag, self.thread = n, name, cls, req, t, hook, flag, thread
        self.kind = name.rsplit("/", 1)[1]
        self.fault = None
        self.latency = (1 * MS, 1 * MS)
        self.executed = None
        self.reply = None
        self.replied = self.broken = False
        self.outcome = None
        self.delivered = None
        self.refused = False   # by an injected refusal of the server
        self.effects = None

    def short(self):
        r = self.req
        return "%s(%s)" % (self.kind, ", ".join("%s" % (getattr(r, n),) for _, n in r._fields))

    def reply_str(self):
        r = self.reply
        return str(r.ok) if hasattr(r, "ok") else str(r)[:150]
