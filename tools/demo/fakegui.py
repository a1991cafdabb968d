"""A small synchronous Qt and rospy for demonstrations on the graphical tool: no event loop, timers fire when told to."""
import os, sys, types, importlib.util
REPO = os.getcwd()

def module(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    sys.modules[name] = m
    if "." in name: setattr(sys.modules[name.rsplit(".", 1)[0]], name.rsplit(".", 1)[1], m)
    return m

def check(c, what):
    if not c:
        print("FAIL: " + what); sys.stdout.flush(); os._exit(1)

class Any(object):
    """Accepts everything."""
    def __init__(self, *a, **k): self.args = a
    def __getattr__(self, n):
        if n.startswith("_"): raise AttributeError(n)
        return lambda *a, **k: None

class Signal(object):
    def __init__(self, *a): self.fns, self.blocked = [], lambda: False
    def __getitem__(self, k): return self
    def connect(self, f): self.fns.append(f)
    def emit(self, *a):
        if not self.blocked():
            for f in list(self.fns): f(*a)

class Combo(Any):
    def __init__(self):
        self.items, self.cur, self.block = [], -1, False
        class S(Signal):
            def __getitem__(s, k): return self.strs if k is str else s
        self.currentIndexChanged, self.strs = S(), Signal()
        self.currentTextChanged = self.strs
        self.strs.blocked = self.currentIndexChanged.blocked = lambda: self.block
    def count(self): return len(self.items)
    def itemText(self, i): return self.items[i] if 0 <= i < len(self.items) else ""
    def currentText(self): return self.itemText(self.cur)
    def currentIndex(self): return self.cur
    def findText(self, t): return self.items.index(t) if t in self.items else -1
    def signalsBlocked(self): return self.block
    def blockSignals(self, b): old, self.block = self.block, b; return old
    def changed(self, old):
        if old != (self.cur, self.currentText()):
            self.currentIndexChanged.emit(self.cur); self.strs.emit(self.currentText())
    def setCurrentIndex(self, i):
        old = (self.cur, self.currentText()); self.cur = i if 0 <= i < len(self.items) else -1; self.changed(old)
    def clear(self):
        old = (self.cur, self.currentText()); self.items, self.cur = [], -1; self.changed(old)
    def insertItems(self, at, l):
        old = (self.cur, self.currentText()); e = not self.items; self.items[at:at] = list(l)
        if e and l: self.cur = 0
        elif self.cur >= at: self.cur += len(l)
        self.changed(old)
    def addItems(self, l): self.insertItems(len(self.items), l)
    def insertItem(self, at, s): self.insertItems(at, [s])
    def addItem(self, s): self.insertItems(len(self.items), [s])

class Index(object):
    def __init__(self, r=-1, c=-1): self.r, self.c = r, c
    def isValid(self): return self.r >= 0
    def row(self): return self.r
    def column(self): return self.c
    def parent(self): return Index()

class Label(Any):
    def __init__(self): self.t = ""
    def setText(self, t): self.t = t
    def text(self): return self.t

class View(Any):
    def __init__(self):
        self.m = None; self.header = Any()
        self.customContextMenuRequested, self.doubleClicked = Signal(), Signal()
        self.header.customContextMenuRequested = Signal()
    def horizontalHeader(self): return self.header
    def setModel(self, m): self.m = m
    def model(self): return self.m
    def rowAt(self, y): return y if self.m is not None and y < self.m.rowCount(Index()) else -1
    def mapToGlobal(self, p): return p

class Point(object):
    def __init__(self, y): self._y = y
    def x(self): return 0
    def y(self): return self._y

class Item(Any):
    def __init__(self, text=""): self.t, self.rows = text, []
    def text(self): return self.t
    def appendRow(self, i): self.rows.append(i)

class Timer(Any):
    all = []
    def __init__(self, *a): self.timeout, self.on = Signal(), False; Timer.all.append(self)
    def start(self, *a): self.on = True
    def stop(self): self.on = False

class Action(Any):
    def __init__(self, t): self.t, self.triggered = t, Signal()
    def text(self): return self.t

class Menu(Any):
    pick = None     # (menu) -> text of the action to choose, or None
    def __init__(self, *a): self.acts = []
    def addAction(self, *a):
        self.acts.append(Action([x for x in a if isinstance(x, str)][0])); return self.acts[-1]
    def actions(self): return list(self.acts)
    def exec_(self, *a):
        t = Menu.pick(self)
        for x in self.acts:
            if x.t == t: return x
        return None

class Qt(object):
    CustomContextMenu, Horizontal, Vertical, DisplayRole, DecorationRole, FontRole, TextAlignmentRole, AlignCenter = 3, 1, 2, 0, 1, 6, 7, 132
class Font(Any):
    Bold = 75
class Header(Any):
    Interactive, ResizeToContents = 0, 3
class Model(object):
    def __init__(self, *a): pass
    def index(self, r, c, *a): return Index(r, c)
class Plugin(object):
    def __init__(self, *a): pass
    def setObjectName(self, n): pass

class Msg(object):
    _f = {}
    def __init__(self, **k):
        for f, v in self._f.items(): setattr(self, f, list(v) if isinstance(v, list) else v)
        for f, v in k.items():
            if f not in self._f: raise AttributeError(f)
            setattr(self, f, v)
    def __eq__(self, o): return type(self) is type(o) and all(getattr(self, f) == getattr(o, f) for f in self._f)
    def __ne__(self, o): return not self == o
class ControllerState(Msg): _f = dict(name="", state="", type="", claimed_resources=[])
class Resources(Msg): _f = dict(hardware_interface="", resources=[])
class NameReq(Msg): _f = dict(name="")
class SwitchReq(Msg):
    _f = dict(start_controllers=[], stop_controllers=[], strictness=0, start_asap=False, timeout=0.0); STRICT = 2; BEST_EFFORT = 1

class World(object):
    """managers: {namespace: [ControllerState]}; params: {full name: type}; log: requests made."""
    def __init__(self, managers, params=None):
        self.managers, self.params, self.log = managers, params or {}, []
        w = self
        class Proxy(object):
            def __init__(self, name, cls, persistent=False): self.ns, self.srv = name.rsplit("/", 1)[0] or "/", name.rsplit("/", 1)[1]; self.cls = cls
            def call(self, r=None, **k):
                r = r if r is not None else self.cls.req(**k)
                w.log.append((self.ns, self.srv, r)); return None
            __call__ = call
        class ServiceException(Exception): pass
        class ROSException(Exception): pass
        class Transport(Exception): pass
        class Lister(object):
            def __init__(self, ns="/"): self.ns = ns
            def __call__(self):
                return [ControllerState(**c.__dict__) for c in w.managers.get(self.ns, [])]
        say = lambda *a, **k: None
        module("rospy", ServiceProxy=Proxy, ServiceException=ServiceException, ROSException=ROSException, get_param=lambda n: w.params[n], has_param=lambda n: n in w.params, loginfo=say, logwarn=say, logerr=say, logdebug=say)
        module("rospy.exceptions", TransportException=Transport, ROSException=ROSException)
        class RosPack(object):
            def get_path(self, n): return REPO + "/" + n
        module("rosparam", RosParamIOException=type("RosParamIOException", (Exception,), {}))
        module("rospkg", RosPack=RosPack)
        def load_ui(path, wid):
            if "info" in path: wid.ctrl_name, wid.ctrl_type, wid.resource_tree = Label(), Label(), View(); w.info = wid
            else: wid.cm_combo, wid.table_view = Combo(), View(); w.widget = wid
        class Widget(Any): pass
        module("python_qt_binding", loadUi=load_ui)
        module("python_qt_binding.QtCore", QAbstractTableModel=Model, QModelIndex=Index, Qt=Qt, QTimer=Timer, QVariant=lambda x=None: x, Signal=Signal)
        module("python_qt_binding.QtWidgets", QWidget=Widget, QFormLayout=Any, QHeaderView=Header, QMenu=Menu, QStyledItemDelegate=Any)
        module("python_qt_binding.QtGui", QCursor=type("QCursor", (), {"pos": staticmethod(lambda: None)}), QFont=Font, QIcon=Any, QStandardItem=Item, QStandardItemModel=Item)
        module("qt_gui"); module("qt_gui.plugin", Plugin=Plugin)
        names = lambda ns: sorted(p[len(ns.rstrip("/")) + 1:].split("/")[0] for p in w.params if p.startswith(ns.rstrip("/") + "/") and p.endswith("/type") and p[len(ns.rstrip("/")) + 1:].count("/") == 1)
        module("controller_manager_msgs"); module("controller_manager_msgs.msg", ControllerState=ControllerState)
        S = lambda n, r: type(n, (), {"req": r})
        srv = dict(LoadController=S("L", NameReq), LoadControllerRequest=NameReq, UnloadController=S("U", NameReq), UnloadControllerRequest=NameReq, SwitchController=S("S", SwitchReq), SwitchControllerRequest=SwitchReq)
        module("controller_manager_msgs.srv", __all__=list(srv), **srv)
        module("controller_manager_msgs.utils", ControllerLister=Lister, ControllerManagerLister=lambda *a: (lambda: sorted(w.managers)), get_rosparam_controller_names=names)
        d = REPO + "/rqt_controller_manager/src/rqt_controller_manager"
        p = module("rqt_controller_manager"); p.__path__ = [d]
        from rqt_controller_manager.controller_manager import ControllerManager
        w.store = {}
        self.plugin = ControllerManager(self)
        self.combo, self.table = self.widget.cm_combo, self.widget.table_view
    def serial_number(self): return 1
    def add_widget(self, x): pass
    def tick(self):
        for t in Timer.all:
            if t.on: t.timeout.emit()
    def select(self, ns): self.combo.setCurrentIndex(self.combo.items.index(ns))
    def rows(self):
        m = self.table.model()
        return [] if m is None else [(m.data(Index(i, 0), Qt.DisplayRole), m.data(Index(i, 1), Qt.DisplayRole)) for i in range(m.rowCount(Index()))]
    def menu(self, name, text):
        Menu.pick = lambda m: text(m) if callable(text) else text
        y = [r[0] for r in self.rows()].index(name)
        self.table.customContextMenuRequested.emit(Point(y))
    def details(self, name):
        y = [r[0] for r in self.rows()].index(name)
        self.table.doubleClicked.emit(Index(y, 0))
        root = self.info.resource_tree.model().rows[0]
        return self.info.ctrl_name.text(), self.info.ctrl_type.text(), [(h.text(), [r.text() for r in h.rows]) for h in root.rows]
