"""C31: the graphical controller manager on a simulated Qt, a user, and controller managers that come, go and fail."""
import random, sys
from kernel import MS, S, Killed
from fakeros import Ros
from model import Manager, Service, SERVICES
from plan import Line, Plan
import fakeqt
from tools_world import Discovery, Hooks, POOL, gen_faults, gen_net, names

# what the actions of the context menu ask for
ACTIONS = {"Stop": ["stop"], "Stop and Unload": ["stop", "unload"], "Start": ["start"], "Start again": ["start"], "Unload": ["unload"], "Load": ["load"], "Load and Start": ["load", "start"]}
OFFER = {"running": [["stop"], ["stop", "unload"]], "stopped": [["start"], ["unload"]], "initialized": [["start"], ["unload"]], "aborted": [["start"], ["unload"]], "uninitialized": [["load"], ["load", "start"]]}
ICON = {"running": "led_green", "stopped": "led_red", "initialized": "led_red", "uninitialized": "led_off"}


class GuiHooks(Hooks):
    def before(self, c):
        w = self.w
        c.frame = w.loop.frames[-1] if w.loop.frames else None
        if c.frame is not None:
            c.frame["calls"].append(c)
        ns = c.name.rsplit("/", 1)[0] or "/"
        c.ns = ns
        if w.stopped:
            w.F("a request (%s) is made after the plugin was shut down" % c.kind)
        if c.kind == "list_controllers" and ns != w.combo.currentText():
            w.F("the controllers of %s are listed while %r is selected" % (ns, w.combo.currentText()))
        w.edge()
        if w.calm:
            self.calls.append(c)
            c.drop = False
        else:
            Hooks.before(self, c)
        s = w.ros.services.get(c.name)
        c.could = isinstance(s, Service) and s.reachable() and w.ros.master_up and c.fault != "unavailable"

    def failed(self, c):
        self.w.edge()
        if c.outcome == "unavailable" and c.could and c.kind != "list_controllers":
            self.w.F("a request to %s does not reach the controller manager, which is up" % c.kind)
        self.faulted.append(c)
        w = self.w
        if w.restart_after is not None and c.fault in ("crash_before", "crash_after"):
            t, w.restart_after = w.restart_after, None
            cm = w.managers.get("" if c.ns == "/" else c.ns)
            if cm:
                w.sim.at(w.sim.now + t, lambda: (cm.restart(), w.edge()))
        if not w.calm:
            self.act(c.n, "after")

    def after(self, c):
        self.w.edge()
        if c.kind == "list_controllers":
            c.listed = list(c.reply.controller)
        if self.w.calm:
            return
        self.act(c.n, "after")


class Gui(Discovery):
    def run(self):
        sim, plan = self.sim, self.plan
        a = plan.first("gui")
        self.ros = ros = Ros(sim, self.repo, ["tool"])
        ros.initialized = True
        ros.call_hook = GuiHooks(self)
        self.cm = None
        self.managers = {}
        sim.horizon = 3000 * S
        sim.hang_msg = lambda: "the graphical tool hangs"
        self.loop = loop = fakeqt.Loop(sim)
        self.Q = fakeqt.build(ros, loop, self.repo)
        self.stopped = False
        self.sel = ""
        self.lost = False
        self.F = lambda m: sim.fail("C31", m)
        self.pending = []
        self.query = 0
        self.views = []          # what the world looked like at each change
        self.listed = None
        self.nparam = 0
        self.expected = []       # loaded controllers as last listed
        plat = random.Random(int(a.get("lat", 1)))
        latmax = int(a.get("latmax", 0))
        self.calm = False

        def param(what):
            self.nparam += 1
            for l in plan.all("other"):
                if l.get("q") and int(l["q"]) == self.nparam and not self.calm:
                    self.apply(Line("churn", **dict((k, v) for k, v in l.items() if k != "q")))
            if latmax and not self.calm:
                sim.sleep(int(plat.uniform(0, latmax) * MS))
            self.view()
        ros.param_hook = param

        def rpc(what):
            if latmax and not self.calm:
                sim.sleep(int(plat.uniform(0, latmax) * MS))
            self.edge()
        ros.rpc_hook = rpc
        loop.menu = self.menu
        loop.on_frame = self.on_frame

        def body():
            for l in plan.all("churn"):
                if "t" not in l:
                    self.apply(l)
                else:
                    sim.at(int(l["t"]) * MS, lambda l=l: (self.apply(l), self.edge()))
            ros.load("rqt_controller_manager")
            m = ros._import("rqt_controller_manager.controller_manager", None, None, ("*",))
            self.context = self
            self.plugin = loop.slot(m.ControllerManager, (self,), "start")
            w = self.plugin._widget if hasattr(self.plugin, "_widget") else self.widget
            w = self.widget or w
            self.combo, self.table = w.cm_combo, w.table_view
            self.combo.currentIndexChanged.connect(lambda i: sim.ev("selection %r" % self.combo.currentText()))
            if a.get("restore"):
                self.store = {"cm_ns": a["restore"]}
                self.restoring = a["restore"]
                loop.slot(self.plugin.restore_settings, (self, self), "restore")
                self.restoring = None
                if self.sel:
                    sim.count("ev_restored")
            self.check()
            for l in plan.all("act"):
                loop.run(sim.now + int(l["after"]) * MS)
                self.user(l)
                if loop.crash or sim.violation:
                    return
            # afterwards nothing fails any more
            loop.run(max(sim.now, int(a.get("until", 0)) * MS))
            self.calm = True
            ros.master_up = True
            self.edge()
            loop.run(sim.now + 4500 * MS)
            self.final()
            if a.get("last"):
                l = Line("act", do="menu", row=a["last"], pick=a.get("lastpick", "0"), hold=100)
                self.user(l)
                loop.run(sim.now + 2500 * MS)
                self.final()
            self.store = {}
            loop.slot(self.plugin.save_settings, (self, self), "save")
            if (self.store.get("cm_ns") or "") != self.combo.currentText():
                self.F("the selected controller manager is %r but %r is saved" % (self.combo.currentText(), self.store.get("cm_ns")))
            loop.slot(self.plugin.shutdown_plugin, (), "shutdown")
            self.stopped = True
            loop.run(sim.now + 3 * S)
        sim.run(body)
        if sim.main.exc is not None and not sim.violation:
            raise sim.main.exc

    # ---- what the plugin is given by the framework
    widget = restoring = None

    def serial_number(self):
        return int(self.plan.first("gui").get("serial", 1))

    def add_widget(self, w):
        self.widget = w
        self.combo, self.table = w.cm_combo, w.table_view

    def set_value(self, k, v):
        self.store[k] = v

    def value(self, k, default=None):
        return self.store.get(k, default)

    # ---- the world
    def make_claims(self, cm):
        def states():
            out = []
            for x in cm.ctrls.values():
                m = cm.msgs["ControllerState"]()
                if not hasattr(x, "inst"):
                    cm.inst = x.inst = getattr(cm, "inst", 0) + 1
                m.name, m.state, m.type = x.name, x.state, "t/" + x.name.upper() + "+" * (x.inst % 2)
                r = random.Random("%s%s%d" % (x.name, cm.ns, x.inst))
                for k in range(r.randrange(0, 3)):
                    h = cm.msgs["HardwareInterfaceResources"]()
                    h.hardware_interface = "hardware_interface::I%d" % k
                    h.resources = ["j%d" % i for i in range(r.randrange(0, 3))]
                    m.claimed_resources.append(h)
                out.append(m)
            return out
        cm.states = states

    def apply(self, l):
        op = l["op"]
        if op == "param":
            self.sim.ev("parameter %s=%s" % (l["name"], l.get("val")))
            v = l.get("val")
            if v is None:
                self.ros.params.pop(l["name"], None)
            else:
                self.ros.params[l["name"]] = int(v) if v.isdigit() else v
            self.view()
            return
        if op == "ctrl" and l.get("do") == "wait":
            cm = self.managers.get("" if l.get("ns") == "/" else l.get("ns"))
            if cm and cm.up and l["name"] in cm.ctrls and cm.ctrls[l["name"]].state != "running":
                cm.ctrls[l["name"]].state = "waiting"
            return
        if op == "ctrl" and l.get("do") == "again":     # loaded again, to look the same but for its details
            cm = self.managers.get("" if l.get("ns") == "/" else l.get("ns"))
            if cm and cm.up and l["name"] in cm.ctrls:
                st, k = cm.ctrls[l["name"]].state, list(cm.ctrls)
                if st == "running":
                    cm.other("stop", l["name"])
                cm.other("unload", l["name"])
                if l["name"] not in cm.ctrls:
                    cm.load(l["name"], "other")
                    if st == "running":
                        cm.other("start", l["name"])
                    elif l["name"] in cm.ctrls:
                        cm.ctrls[l["name"]].state = st
                    for n in k:
                        if n in cm.ctrls:
                            cm.ctrls.move_to_end(n)
                self.sim.count("ev_loaded_again")
            self.edge()
            return
        Discovery.apply(self, l)
        ns = "" if l.get("ns") == "/" else l.get("ns", "/cm")
        if op == "up" and ns in self.managers:
            cm = self.managers[ns]
            self.make_claims(cm)
            for n in POOL:
                if n not in cm.avail:
                    cm.avail[n] = ((hash_(ns + n) % 5) != 0, "-", (hash_(n + ns) % 6) != 0)
            for n in names(l, "run"):
                cm.other("start", n)
        self.edge()

    def other(self, l):
        """Something that happens at a call of the tool."""
        if self.calm:
            return
        self.apply(Line("churn", **dict((k, v) for k, v in l.items() if k not in ("call", "phase"))))

    def edge(self):
        """Called whenever the set of controller managers may have changed."""
        if self.sel:
            full, some, up = self.snapshot()
            if self.sel not in full or not up:
                self.lost = True
        self.view()

    def view(self):
        p = {}
        ns = (self.sel.rsplit("/", 1)[0] or "/") if self.sel else None
        if ns is not None:
            pre = ns if ns.endswith("/") else ns + "/"
            for k, v in self.ros.params.items():
                if k.startswith(pre):
                    s = k[len(pre):].split("/")
                    if len(s) == 2 and s[1] == "type":
                        p[s[0]] = v
        self.views.append((self.sim.now, p, self.ros.master_up, self.sel))

    # ---- the user
    def rows(self):
        m = self.table.model()
        if m is None:
            return []
        tr = sys.gettrace()
        sys.settrace(None)     # drawing happens at once
        try:
            return self.draw(m)
        finally:
            sys.settrace(tr)

    def draw(self, m):
        Q = self.Q
        out = []
        try:
            n = m.rowCount(Q.QModelIndex())
            for c in range(m.columnCount(Q.QModelIndex())):
                for o in (Q.Qt.Horizontal, Q.Qt.Vertical):
                    for r in (0, 1, 6, 7):
                        m.headerData(c, o, r)
            if m.columnCount(Q.QModelIndex()) < 2:
                self.F("the table has %d columns" % m.columnCount(Q.QModelIndex()))
            for i in range(n):
                d = [[m.data(m.index(i, c), r) for r in (Q.Qt.DisplayRole, Q.Qt.DecorationRole, Q.Qt.FontRole, Q.Qt.TextAlignmentRole, Q.Qt.ToolTipRole)] for c in range(2)]
                out.append((d[0][0], d[1][0]))
                want = ICON.get(d[1][0])
                icon = getattr(d[0][1], "path", "")
                if (want and want not in icon) or (not want and "green" in icon):
                    self.F("controller %s, which is %s, is shown with icon %s" % (d[0][0], d[1][0], icon.rsplit("/", 1)[-1]))
        except Killed:
            raise
        except Exception as e:
            self.loop.crashed("%s while the table is drawn: %s" % (type(e).__name__, str(e)[:80]))
        return out

    def user(self, l):
        sim, loop = self.sim, self.loop
        sim.ev("user %s" % l)
        sim.count("ev_user_" + l["do"])
        do = l["do"]
        if do == "select":
            n = self.combo.count()
            if not n:
                return
            i = int(l["i"]) % n
            # the user can only choose what is offered at this moment
            self.sel, self.lost = self.combo.itemText(i), False
            self.edge()
            self.combo.setCurrentIndex(i)
            self.edge()
            self.check()
            if self.sel and self.sel != self.listed and self.rows():
                self.F("%s is selected but the controllers of %s are shown" % (self.sel, self.listed))
        elif do == "menu":
            rows = self.rows()
            y = int(l["row"]) % (len(rows) + 1)
            self.click = dict(ns=self.combo.currentText(), row=rows[y] if y < len(rows) else None, line=l, label=None, opened=False, kept=True)
            self.frame_calls = None
            self.in_menu = self.click
            self.table.customContextMenuRequested.emit(self.Q.QPoint(5, y * 20 + 7))
            self.in_menu = None
        elif do == "info":
            rows = self.rows()
            if not rows:
                return
            y = int(l["row"]) % len(rows)
            self.want = self.detail(rows[y])
            self.table.doubleClicked.emit(self.Q.QModelIndex(y, 0, None, self.table.model()))
            self.popup(rows[y])
        elif do == "header":
            h = self.table.horizontalHeader()
            before = h.sectionResizeMode(0)
            self.in_menu = dict(header=True, line=l)
            h.customContextMenuRequested.emit(self.Q.QPoint(5, 5))
            if self.in_menu.get("label") and h.sectionResizeMode(0) == before:
                self.F("the choice of the header menu has no effect")
            self.in_menu = None

    in_menu = None

    def menu(self, m):
        """A menu is open: the program goes on while the user thinks."""
        sim, loop = self.sim, self.loop
        c = self.in_menu
        l = c["line"]
        acts = m.actions()
        c["opened"] = True
        c["offer"] = [x.text() for x in acts if x.isEnabled()]
        f, self.in_menu = loop.frames[-1], None
        loop.run(sim.now + int(l.get("hold", 0)) * MS)
        self.in_menu = c
        if l.get("pick") == "none":
            return None
        x = acts[int(l["pick"]) % len(acts)]
        c["label"] = x.text()
        c["kept"] = self.sel != "" and self.combo.currentText() == c.get("ns") and self.sel == c.get("ns")
        sim.ev("user picks %s" % x.text())
        sim.count("ev_pick_" + x.text().replace(" ", "_"))
        return x

    def detail(self, row):
        for m in self.expected:
            if m.name == row[0]:
                return m
        return None

    def popup(self, row):
        p = self.loop.ui.get("controller_info.ui")
        if p is None or self.loop.crash:
            return
        self.sim.count("ev_info")
        if not p.isVisible():
            self.F("no information on the controller is shown")
        if p.ctrl_name.text() != row[0]:
            self.F("the information of controller %s is shown for %s" % (p.ctrl_name.text(), row[0]))
        m = p.resource_tree.model()
        tree = []
        font = self.Q.QFont
        d = p.resource_tree.itemDelegate()

        def walk(item, idx, depth):
            for i in range(item.rowCount()):
                c = item.child(i)
                x = self.Q.QModelIndex(i, 0, idx, m)
                if d is not None:
                    o = type("Option", (), {})()
                    o.font = font()
                    try:
                        d.paint(None, o, x)
                    except Exception as e:
                        self.loop.crashed("%s while the resources are drawn" % type(e).__name__)
                tree.append((depth, c.text()))
                walk(c, x, depth + 1)
        walk(m, None, 0)
        w = self.want
        types = set([w.type] if w is not None else [str(v[1][row[0]]) for v in self.views if row[0] in v[1]])
        if p.ctrl_type.text() not in types:
            self.F("type %s is shown for controller %s" % (p.ctrl_type.text(), row[0]))
        exp = []
        for h in (w.claimed_resources if w is not None else []):
            exp.append((1, h.hardware_interface))
            exp += [(2, r) for r in h.resources]
        if [x for x in tree if x[0]] != exp:
            self.F("the resources of controller %s are shown as %s but are %s" % (row[0], [x[1] for x in tree if x[0]], [x[1] for x in exp]))

    # ---- oracles
    def on_frame(self, f):
        """Some code of the tool has finished."""
        sim = self.sim
        lists = [c for c in f["calls"] if c.kind == "list_controllers"]
        acts = [c for c in f["calls"] if c.kind not in ("list_controllers", "list_controller_types")]
        c = self.in_menu
        if c is not None and not c.get("header") and not self.loop.frames:
            self.judge_menu(c, acts)
        elif acts:
            self.F("%s is called though the user did not ask for it" % acts[0].short())
        self.check()
        if not hasattr(self, "combo"):
            return
        rows = self.rows()
        old = getattr(self, "shown", [])
        self.shown = rows
        if lists:
            sim.count("chk_C31")
            last = lists[-1]
            if last.outcome != "reply":
                sim.count("ev_list_failed")
            if self.combo.currentText() == last.ns:
                self.listed = last.ns
                self.expected = last.listed if last.outcome == "reply" else []
                self.check_rows(rows, f["t"])
        elif rows != old and self.combo.currentText():
            self.F("the controllers shown change from %s to %s without being listed" % (old, rows))

    def check_rows(self, rows, since):
        exp = [(m.name, m.state) for m in self.expected]
        loaded = rows[:len(exp)]
        rest = rows[len(exp):]
        if loaded != exp or any(s != "uninitialized" for _, s in rest):
            self.F("the controllers are %s but %s is shown" % (exp, rows))
            return
        vs = [v for v in self.views if v[3] == self.sel]
        vs = [v for v in vs if v[0] < since][-1:] + [v for v in vs if v[0] >= since]
        rn = [n for n, _ in rest]
        if len(set(rn)) != len(rn) or any(n in [e[0] for e in exp] for n in rn):
            self.F("a controller is shown twice: %s" % rows)
        ever = set(n for v in vs for n in v[1])
        always = set.intersection(*[set(v[1]) for v in vs]) if vs else set()
        if all(v[2] for v in vs):
            bad = [n for n in rn if n not in ever]
            if bad:
                self.F("controller %s is shown without a configuration" % bad[0])
            miss = [n for n in always if n not in rn and n not in [e[0] for e in exp]]
            if miss:
                self.F("controller %s, which has a configuration, is not shown in %s" % (miss[0], rows))
        else:
            self.sim.count("ev_parameters_unreachable")
            if any(not any(n in v[1] for v in self.views) for n in rn):
                self.F("a controller is shown without a configuration: %s" % rows)
        self.views = self.views[-50:]

    def check(self):
        """The selection is the user's."""
        if not hasattr(self, "combo") or self.loop.crash:
            return
        cur = self.combo.currentText()
        if cur and cur == self.restoring and not self.sel:
            self.sel, self.lost = cur, False
            self.edge()
        if cur != self.sel:
            if cur == "" and self.lost:
                self.sim.count("ev_selection_lost")
                self.sel = ""
            else:
                self.F("%r is selected although the user chose %r" % (cur, self.sel))
                self.sel = cur
        items = [self.combo.itemText(i) for i in range(self.combo.count())]
        if len(set(items)) != len(items):
            self.F("the controller managers offered contain duplicates: %s" % items)

    def judge_menu(self, c, acts):
        sim = self.sim
        sim.count("chk_C31")
        if c["row"] is None:
            if c["opened"] or acts:
                self.F("a menu opens where no controller is")
            return
        name, state = c["row"]
        if state in OFFER:
            got = [ACTIONS.get(x, [x]) for x in c.get("offer", [])]
            if sorted(got) != sorted(OFFER[state]):
                self.F("for controller %s, which is %s, %s is offered" % (name, state, c.get("offer", "nothing")))
        want = []
        for k in ACTIONS.get(c["label"], []):
            want.append({"stop": ("switch_controller", [], [name], 2), "start": ("switch_controller", [name], [], 2), "load": ("load_controller", name), "unload": ("unload_controller", name)}[k])
        got = []
        for a in acts:
            r = a.req
            got.append((a.kind, list(r.start_controllers), list(r.stop_controllers), r.strictness) if a.kind == "switch_controller" else (a.kind, getattr(r, "name", None)))
        for a in acts:
            if a.ns != c["ns"]:
                self.F("%s is called at %s although %s was selected" % (a.short(), a.ns, c["ns"]))
        if got != want[:len(got)]:
            self.F("%s of %s makes the calls %s" % (c["label"], name, [a.short() for a in acts]))
        elif len(got) < len(want):
            failed = acts and (acts[-1].outcome != "reply" or not getattr(acts[-1].reply, "ok", True))
            if not failed and c["kept"]:
                self.F("%s of %s makes only the calls %s" % (c["label"], name, [a.short() for a in acts]))
        if got:
            sim.count("ev_action")

    def final(self):
        """Nothing fails any more: what is shown is the truth."""
        if self.loop.crash or self.sim.violation:
            return
        self.sim.count("ev_final")
        full, some, up = self.snapshot()
        items = [self.combo.itemText(i) for i in range(self.combo.count())]
        if not full <= set(items) <= some:
            self.F("the controller managers are %s but %s is offered" % (sorted(full), items))
        if self.sel and self.combo.currentText() != self.sel:
            self.check()
        if self.sel and self.sel not in some:
            self.F("%s is selected although it is gone" % self.sel)
        rows = self.rows()
        if not self.sel:
            if rows:
                self.F("controllers %s are shown although no controller manager is selected" % rows)
            return
        cm = self.managers.get("" if self.sel == "/" else self.sel)
        s = self.ros.services.get(("" if self.sel == "/" else self.sel) + "/list_controllers")
        self.view()
        self.expected = cm.states() if isinstance(s, Service) and cm.up else []
        self.views = self.views[-1:]
        self.check_rows(rows, self.sim.now)


def hash_(s):
    h = 0
    for c in s:
        h = (h * 131 + ord(c)) % 1000003
    return h


def gen_gui(r):
    plan = Plan()
    gen_net(r, plan)
    plan.first("net")["hi"] = r.choice([1, 5, 20, 100])
    spaces = ["/cm", "/r1/cm", "/r2/cm", "/", "/r1/sub/cm"]
    use = r.sample(spaces, r.randrange(1, 4))
    calm = r.random() < 0.25
    a = plan.add("gui", lat=r.randrange(1, 10 ** 6), latmax=r.choice([0, 0, 2, 50, 300]), serial=r.choice([1, 1, 2]))
    if r.random() < 0.4:
        a["restore"] = r.choice(use + ["/gone"])
    n = r.randrange(3, 16)
    T = 1500 * n

    def nsp(ns):
        p = ns.rsplit("/", 1)[0]
        return p + "/"

    def param(kind="churn", **kw):
        ns = r.choice(use)
        x = r.choice(POOL + ["g", "h"])
        if r.random() < 0.3:
            plan.add(kind, op="param", name=nsp(ns) + x + "/type", **kw)
        else:
            plan.add(kind, op="param", name=nsp(ns) + x + r.choice(["/type"] * 8 + ["/sub/type", "/typex"]), val=r.choice(["t/A", "t/B", "t/C", "t/D", "7"]), **kw)

    def churn(kind="churn", **kw):
        ns = r.choice(use)
        x = r.random()
        if x < 0.22:
            plan.add(kind, op="up", ns=ns, ctrls=",".join(r.sample(POOL, r.randrange(0, 4))), **kw)
        elif x < 0.34:
            plan.add(kind, op="crash", ns=ns, **kw)
        elif x < 0.46:
            plan.add(kind, op="down", ns=ns, **kw)
            if r.random() < 0.5 and "t" in kw:
                plan.add(kind, op="up", ns=ns, ctrls=",".join(r.sample(POOL, r.randrange(0, 4))), t=int(kw["t"]) + r.choice([1, 100, 400, 900, 2500]))
        elif x < 0.5:
            plan.add(kind, op="partial", ns=ns, srv=r.choice(list(SERVICES)), how=r.choice(["gone", "type"]), **kw)
        elif x < 0.6:
            plan.add(kind, op="master", to=r.choice("01"), **kw)
        elif x < 0.75 and kind == "churn":
            param(**kw)
        else:
            plan.add(kind, op="ctrl", ns=ns, name=r.choice(POOL), do=r.choice(["load", "unload", "start", "start", "stop", "abort", "wait", "again", "again"]), **kw)
            if r.random() < 0.2 and kind == "churn":     # one manager in place of another
                plan.add(kind, op="down", ns=ns, **kw)
                plan.add(kind, op="up", ns=r.choice(use + ["/r3/cm"]), ctrls=",".join(r.sample(POOL, r.randrange(0, 4))), t=int(kw["t"]) + r.choice([1, 100, 400, 900]))
    for ns in use:
        if r.random() < 0.85:
            c = r.sample(POOL, r.randrange(0, 5))
            plan.add("churn", op="up", ns=ns, ctrls=",".join(c), run=",".join(x for x in c if r.random() < 0.4))
            for x in c:
                if r.random() < 0.3:
                    plan.add("churn", op="ctrl", ns=ns, name=x, do=r.choice(["abort", "wait", "stop"]))
    for _ in range(r.randrange(0, 8)):
        param()
    if not calm:
        for _ in range(r.choice([0, 1, 2, 4, 8])):
            churn(t=r.randrange(1, T))
        for _ in range(r.choice([0, 0, 1, 2])):
            churn(kind="other", call=r.randrange(1, 40), phase=r.choice(["before", "mid", "after"]))
        for _ in range(r.choice([0, 0, 0, 2, 5])):
            param(kind="other", q=r.randrange(1, 60))
    first = True
    for _ in range(n):
        l = plan.add("act", after=r.choice([0, 100, 1100, 1100, 1100, 2300]))
        x = r.random()
        if first and not a.get("restore") or x < 0.2:
            l["do"] = "select"
            l["i"] = r.randrange(0, 5)
            l["after"] = 1100 if first else l["after"]
        elif x < 0.75:
            l["do"], l["row"], l["pick"], l["hold"] = "menu", r.randrange(0, 12), r.choice(["none", "0", "0", "0", "1", "1", "1"]), r.choice([0, 300, 1500, 3500])
        elif x < 0.92:
            l["do"], l["row"] = "info", r.randrange(0, 12)
        else:
            l["do"], l["pick"], l["hold"] = "header", r.choice(["none", "0"]), r.choice([0, 1500])
        first = False
    if r.random() < 0.5:
        a["last"] = r.randrange(0, 12)
        a["lastpick"] = r.randrange(0, 2)
    if not calm and r.random() < 0.6:
        gen_faults(r, plan, 30, kinds=("unavailable", "lost_reply", "lost_request", "slow", "refuse", "crash_before", "crash_after"), n=r.choice([1, 2, 4]))
    a["until"] = T + 2500
    return plan
