"""A small Qt for the graphical tool: widgets with their state and signals, timers and nested event loops on virtual time.
What the tool does not need answers every call with None; methods that Qt 5 no longer has do not exist."""
import os, types
import xml.etree.ElementTree as ET
from kernel import MS, Killed


class Loop(object):
    """The event loop: timers of the tool and the actions of the user, one after the other."""

    def __init__(self, sim):
        self.sim = sim
        self.timers = []
        self.user = []            # [(time, fn)] in order
        self.crash = None
        self.ui = {}
        self.frames = []
        self.on_frame = None
        self.menu = None          # the user's way to answer a menu: menu -> action or None

    def slot(self, fn, args, label):
        """Calls code of the tool from the event loop; an exception there ends the program."""
        f = dict(label=label, calls=[], t=self.sim.now)
        self.frames.append(f)
        ok = False
        try:
            r = fn(*args)
            ok = True
        except Killed:
            raise
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            where = [x.name for x in tb]
            self.crashed("%s in %s: %s" % (type(e).__name__, where[-1] if where else "?", str(e)[:80]))
            return None
        finally:
            self.frames.pop()
        if ok and self.on_frame:
            self.on_frame(f)
        return r

    def crashed(self, what):
        self.crash = what
        self.sim.ev("crash: " + what)
        self.sim.fail(self.sim.prop, "an exception ends the program: " + what)
        self.sim.abort()

    def fire(self, end):
        """Waits for the next timer (or the user, if given) and serves it; False when the end is reached."""
        sim = self.sim
        due = [(t.due, i, t) for i, t in enumerate(self.timers) if t.active]
        nxt = min(due)[0] if due else None
        w = end if nxt is None else min(end, nxt)
        if sim.now < w:
            sim.wait(None, w)
        if nxt is not None and nxt <= sim.now and nxt <= end:
            t = min(due)[2]
            t.due = max(t.due + t.ms * MS, sim.now)
            if t.single:
                t.active = False
            sim.ev("timer")
            t.timeout.emit()
            return True
        return sim.now < end

    def run(self, end):
        while self.fire(end) and not self.crash:
            pass


def build(ros, loop, repo):
    """Registers the modules with the simulated import system; returns the toolkit's classes."""
    sim = ros.sim

    class Bound(object):
        def __init__(self, owner, overloads=None, index=0):
            self.owner, self.fns, self.index = owner, [], index
            self.overloads = overloads or {}

        def __getitem__(self, k):
            return self.overloads.get(k, self)

        def connect(self, fn, *a, **k):
            self.fns.append(fn)

        def disconnect(self, fn=None):
            self.fns = [] if fn is None else [f for f in self.fns if f != fn]

        def emit(self, *args):
            if self.owner is not None and getattr(self.owner, "_blocked", False):
                return
            for fn in list(self.fns):
                if isinstance(fn, Bound):
                    fn.emit(*args)
                    continue
                n = len(args)
                k = getattr(getattr(fn, "__func__", fn), "__code__", None)
                if k is not None and not k.co_flags & 4:      # fewer arguments are passed to a slot that takes fewer
                    n = min(n, k.co_argcount - (1 if hasattr(fn, "__self__") else 0))
                loop.slot(fn, args[:n], "slot")
        __call__ = emit

    class Signal(object):
        def __init__(self, *types, **k):
            self.types = types

        def __set_name__(self, owner, name):
            self.name = "_sig_" + name

        def __get__(self, obj, cls=None):
            if obj is None:
                return self
            if self.name not in obj.__dict__:
                obj.__dict__[self.name] = Bound(obj)
            return obj.__dict__[self.name]

    class QObject(object):
        destroyed = Signal()

        def __init__(self, parent=None, *a, **k):
            self._parent = parent
            self._blocked = False
            self._name = ""

        def setObjectName(self, n):
            self._name = n

        def objectName(self):
            return self._name

        def blockSignals(self, b):
            old, self._blocked = self._blocked, bool(b)
            return old

        def signalsBlocked(self):
            return self._blocked

        def parent(self, *a):
            return self._parent

        def deleteLater(self):
            pass

        def tr(self, s):
            return s

    class Loose(QObject):
        """A widget: what is not modelled is accepted."""
        GONE = ()

        def __getattr__(self, n):
            if n.startswith("_") or n in type(self).GONE:
                raise AttributeError("'%s' object has no attribute '%s'" % (type(self).__name__, n))
            return lambda *a, **k: None

    class QPoint(object):
        def __init__(self, x=0, y=0):
            self._x, self._y = x, y

        def x(self):
            return self._x

        def y(self):
            return self._y

    class QModelIndex(object):
        def __init__(self, row=-1, col=-1, parent=None, model=None):
            self._r, self._c, self._p, self._m = row, col, parent, model

        def isValid(self):
            return self._r >= 0 and self._c >= 0

        def row(self):
            return self._r

        def column(self):
            return self._c

        def model(self):
            return self._m

        def parent(self):
            return self._p or QModelIndex()

        def data(self, role=0):
            return self._m.data(self, role) if self._m else None

        def sibling(self, r, c):
            return QModelIndex(r, c, self._p, self._m)

    class Qt(object):
        DefaultContextMenu, CustomContextMenu, NoContextMenu = 1, 3, 0
        Horizontal, Vertical = 1, 2
        DisplayRole, DecorationRole, EditRole, ToolTipRole, FontRole, TextAlignmentRole, BackgroundRole, ForegroundRole, UserRole = 0, 1, 2, 3, 6, 7, 8, 9, 256
        AlignLeft, AlignRight, AlignHCenter, AlignTop, AlignBottom, AlignVCenter, AlignCenter = 1, 2, 4, 32, 64, 128, 132
        ItemIsSelectable, ItemIsEnabled = 1, 32
        AscendingOrder, DescendingOrder = 0, 1

    class QAbstractItemModel(QObject):
        dataChanged, layoutChanged, modelReset, layoutAboutToBeChanged = Signal(), Signal(), Signal(), Signal()

        def index(self, r, c, parent=None):
            return QModelIndex(r, c, parent, self)

        createIndex = index

        def flags(self, i):
            return 33

        def headerData(self, *a):
            return None

        def beginResetModel(self):
            pass

        def endResetModel(self):
            pass

        def beginInsertRows(self, *a):
            pass

        def endInsertRows(self):
            pass

        def beginRemoveRows(self, *a):
            pass

        def endRemoveRows(self):
            pass

    class QTimer(QObject):
        timeout = Signal()

        def __init__(self, parent=None):
            QObject.__init__(self, parent)
            self.ms, self.active, self.single, self.due = 0, False, False, 0
            loop.timers.append(self)

        def setInterval(self, ms):
            if not isinstance(ms, int):
                raise TypeError("setInterval(self, int): argument 1 has unexpected type '%s'" % type(ms).__name__)
            self.ms = ms

        def interval(self):
            return self.ms

        def setSingleShot(self, b):
            self.single = bool(b)

        def start(self, ms=None):
            if ms is not None:
                self.setInterval(ms)
            self.active, self.due = True, sim.now + self.ms * MS

        def stop(self):
            self.active = False

        def isActive(self):
            return self.active

        @staticmethod
        def singleShot(ms, fn):
            t = QTimer()
            t.single = True
            t.timeout.connect(fn)
            t.start(ms)

    class QVariant(object):
        def __new__(cls, v=None):
            return v

    class QWidget(Loose):
        def __init__(self, parent=None, *a, **k):
            Loose.__init__(self, parent)
            self._title, self._visible = "", False

        def setWindowTitle(self, s):
            self._title = s

        def windowTitle(self):
            return self._title

        def show(self):
            self._visible = True

        def hide(self):
            self._visible = False

        def close(self):
            self._visible = False

        def isVisible(self):
            return self._visible

        def mapToGlobal(self, p):
            return p

    class QLabel(QWidget):
        def setText(self, s):
            if not isinstance(s, str):
                raise TypeError("setText(self, str): argument 1 has unexpected type '%s'" % type(s).__name__)
            self._text = s

        def text(self):
            return getattr(self, "_text", "")

    class QHeaderView(QWidget):
        Interactive, Stretch, Fixed, ResizeToContents = 0, 1, 2, 3
        GONE = ("resizeMode", "setResizeMode", "setMovable", "isMovable", "setClickable", "isClickable")
        customContextMenuRequested = Signal()
        sectionClicked = Signal()

        def __init__(self, *a):
            QWidget.__init__(self)
            self._mode = {}
            self._all = 0

        def setSectionResizeMode(self, *a):
            if len(a) == 1:
                self._all, self._mode = a[0], {}
            else:
                self._mode[a[0]] = a[1]

        def sectionResizeMode(self, i):
            return self._mode.get(i, self._all)

    class QAbstractItemView(QWidget):
        customContextMenuRequested, doubleClicked, clicked, activated, pressed = Signal(), Signal(), Signal(), Signal(), Signal()

        def __init__(self, *a):
            QWidget.__init__(self)
            self._model = self._delegate = None

        def setModel(self, m):
            self._model = m

        def model(self):
            return self._model

        def setItemDelegate(self, d):
            self._delegate = d

        def itemDelegate(self, *a):
            return self._delegate

    class QTableView(QAbstractItemView):
        ROW = 20

        def __init__(self, *a):
            QAbstractItemView.__init__(self)
            self._header = QHeaderView()

        def horizontalHeader(self):
            return self._header

        def verticalHeader(self):
            return QHeaderView()

        def rowAt(self, y):
            r = y // self.ROW
            return r if self._model is not None and 0 <= r < self._model.rowCount(QModelIndex()) else -1

        def columnAt(self, x):
            return 0

        def indexAt(self, p):
            r = self.rowAt(p.y())
            return QModelIndex(r, 0, None, self._model) if r >= 0 else QModelIndex()

    class QTreeView(QAbstractItemView):
        pass

    class QComboBox(QWidget):
        def __init__(self, *a):
            QWidget.__init__(self)
            self._items, self._cur = [], -1
            s, i = Bound(self), Bound(self)
            i.overloads = {str: s, int: i, "QString": s}
            self.currentIndexChanged, self._str, self.currentTextChanged = i, s, Bound(self)
            self.activated = Bound(self)

        def _changed(self, old, oldtext):
            if self._cur != old or self.currentText() != oldtext:
                t = self.currentText()
                self.currentIndexChanged.emit(self._cur)
                self._str.emit(t)
                self.currentTextChanged.emit(t)

        def count(self):
            return len(self._items)

        def itemText(self, i):
            return self._items[i] if 0 <= i < len(self._items) else ""

        def currentIndex(self):
            return self._cur

        def currentText(self):
            return self.itemText(self._cur)

        def findText(self, s, *a):
            return self._items.index(s) if s in self._items else -1

        def setCurrentIndex(self, i):
            o, t = self._cur, self.currentText()
            self._cur = i if 0 <= i < len(self._items) else -1
            self._changed(o, t)

        def setCurrentText(self, s):
            if s in self._items:
                self.setCurrentIndex(self._items.index(s))

        def clear(self):
            o, t = self._cur, self.currentText()
            self._items, self._cur = [], -1
            self._changed(o, t)

        def insertItems(self, at, l):
            for s in l:
                if not isinstance(s, str):
                    raise TypeError("insertItems(self, int, Iterable[str]): argument 2 has unexpected type")
            o, t = self._cur, self.currentText()
            empty = not self._items
            at = min(max(at, 0), len(self._items))
            self._items[at:at] = list(l)
            if empty and self._items:
                self._cur = 0
            elif self._cur >= at:
                self._cur += len(l)
            self._changed(o, t)

        def insertItem(self, at, s):
            self.insertItems(at, [s])

        def addItems(self, l):
            self.insertItems(len(self._items), l)

        def addItem(self, s, *a):
            self.insertItems(len(self._items), [s])

        def removeItem(self, i):
            if not 0 <= i < len(self._items):
                return
            o, t = self._cur, self.currentText()
            del self._items[i]
            if self._cur > i or self._cur >= len(self._items):
                self._cur -= 1
            self._changed(o, t)

    class QAction(Loose):
        triggered = Signal()

        def __init__(self, text="", enabled=True):
            Loose.__init__(self)
            self._text, self._enabled = text, enabled

        def text(self):
            return self._text

        def setEnabled(self, b):
            self._enabled = bool(b)

        def isEnabled(self):
            return self._enabled

    class QMenu(QWidget):
        def __init__(self, *a):
            QWidget.__init__(self)
            self._actions = []

        def addAction(self, *a):
            if len(a) == 1 and isinstance(a[0], QAction):
                self._actions.append(a[0])
                return a[0]
            a = QAction([x for x in a if isinstance(x, str)][0])
            self._actions.append(a)
            return a

        def actions(self):
            return list(self._actions)

        def isEmpty(self):
            return not self._actions

        def exec_(self, *a):
            if not self._actions:
                return None
            x = loop.menu(self)
            if x is not None:
                x.triggered.emit(False)
            return x
        exec = popup = exec_

    class QFont(Loose):
        Light, Normal, Bold = 25, 50, 75

    class QIcon(Loose):
        def __init__(self, path=""):
            Loose.__init__(self)
            self.path = path

    class QCursor(object):
        @staticmethod
        def pos():
            return QPoint(3, 4)

    class QStandardItem(Loose):
        def __init__(self, text=""):
            Loose.__init__(self)
            if not isinstance(text, str):
                raise TypeError("QStandardItem(str): argument 1 has unexpected type '%s'" % type(text).__name__)
            self._text, self._rows = text, []

        def text(self):
            return self._text

        def setText(self, s):
            self._text = s

        def appendRow(self, i):
            self._rows.append(i[0] if isinstance(i, (list, tuple)) else i)

        def appendRows(self, l):
            self._rows.extend(l)

        def rowCount(self):
            return len(self._rows)

        def child(self, i, c=0):
            return self._rows[i]

    class QStandardItemModel(QStandardItem):
        def __init__(self, *a):
            QStandardItem.__init__(self)

        def item(self, i, c=0):
            return self._rows[i]

        def invisibleRootItem(self):
            return self

    class QStyledItemDelegate(Loose):
        def paint(self, painter, option, index):
            pass

    class Plugin(QObject):
        pass

    class QFormLayout(Loose):
        pass

    classes = dict((c.__name__, c) for c in (QWidget, QLabel, QTableView, QTreeView, QComboBox))

    def loadUi(path, widget, *a):
        root = ET.parse(path).getroot()
        loop.ui[os.path.basename(path)] = widget
        top = root.find("widget")
        for w in root.iter("widget"):
            if w is not top:
                setattr(widget, w.get("name"), classes.get(w.get("class"), QWidget)())
        for p in top.findall("property"):
            if p.get("name") == "windowTitle":
                widget.setWindowTitle(p.find("string").text)
        return widget

    class RosPack(object):
        def get_path(self, n):
            return os.path.join(repo, n)

    class QSignalBlocker(object):
        def __init__(self, o):
            self._o, self._old = o, o.blockSignals(True)

        def unblock(self):
            self._o.blockSignals(self._old)

        def reblock(self):
            self._o.blockSignals(True)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.unblock()

        def __del__(self):
            self.unblock()

    def module(name, **k):
        m = types.ModuleType(name)
        m.__dict__.update(k)

        def other(n):
            if not n.startswith("Q") or n == "QString":
                raise AttributeError("module '%s' has no attribute '%s'" % (name, n))
            c = type(n, (Loose,), {})
            setattr(m, n, c)
            return c
        if name.startswith("python_qt_binding.Qt"):
            m.__getattr__ = other
        ros.mods[name] = m
        return m
    core = module("python_qt_binding.QtCore", QObject=QObject, QAbstractTableModel=QAbstractItemModel, QAbstractItemModel=QAbstractItemModel, QModelIndex=QModelIndex, Qt=Qt, QTimer=QTimer,
                  QVariant=QVariant, Signal=Signal, Slot=lambda *a, **k: (lambda f: f), QPoint=QPoint, QSignalBlocker=QSignalBlocker)
    wid = module("python_qt_binding.QtWidgets", QWidget=QWidget, QFormLayout=QFormLayout, QHeaderView=QHeaderView, QMenu=QMenu, QStyledItemDelegate=QStyledItemDelegate, QAction=QAction, QLabel=QLabel,
                 QTableView=QTableView, QTreeView=QTreeView, QComboBox=QComboBox, QMessageBox=Loose)
    gui = module("python_qt_binding.QtGui", QCursor=QCursor, QFont=QFont, QIcon=QIcon, QStandardItem=QStandardItem, QStandardItemModel=QStandardItemModel)
    module("python_qt_binding", loadUi=loadUi, QtCore=core, QtWidgets=wid, QtGui=gui)
    module("qt_gui.plugin", Plugin=Plugin)
    module("qt_gui", plugin=ros.mods["qt_gui.plugin"])
    module("rqt_gui_py.plugin", Plugin=Plugin)
    module("rqt_gui_py", plugin=ros.mods["rqt_gui_py.plugin"])
    module("rospkg", RosPack=RosPack)
    return types.SimpleNamespace(**dict((k, v) for k, v in locals().items() if k[0] in "QL" or k == "Qt"))
