#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from worlds import PROPS, WORLDS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
    "N30": "A pure function of geometry and values: no scheduling, time, I/O, faults or parties for a simulator to control (C24 simulates the stateful use of these maps in control cycles).",
    "N32": "Pure functions over a list of messages: no scheduling, time, I/O or faults involved.",
}
NOTE = {
    "transmissions": "Seeded search over robots, descriptions and faults through the real parser, loader, plugins, handles and maps; each control cycle is judged against independently computed maps of the most recent actuator data and joint commands. Assurance is statistical: robots of up to 12 actuators and 4 transmissions; class loading and the hardware are simulated.",
    "tools": "Seeded search over executions of the unmodified Python tools, with scheduling, signals, time, services and the parameter server under a simulator, against an executable model of the controller manager; the requests each tool makes and the state it leaves are judged afterwards. Assurance is statistical: up to 6 controllers, one tool at a time; rospy and the manager are stubs.",
    "gui": "Seeded search over executions of the unmodified rqt plugin on a simulated Qt event loop, with user, timers, services and parameter server under a simulator, against executable models of the controller managers; what is shown, offered and requested is judged after every slot. Assurance is statistical: up to 3 managers and 8 controllers each; Qt, rospy and the managers are stubs.",
    "hardware": "Seeded search over histories of registrations and lookups of all kinds of handles of the real hardware interface layer on robots of nested parts, with allocation failures and a realtime loop using the handles meanwhile, against a map-based model and the data of the robot itself. Assurance is statistical: up to 6 managers, 12 interfaces and some 80 operations a run; custom handle types are represented by two.",
    "limits": "Seeded search over closed control loops through the real limit handles (all six kinds, several joints per interface) with a simulated plant, a lossy encoder bus, stalls, e-stop resets and non-finite values; each enforced command is judged against bounds derived from the specification. Assurance is statistical; specifications and periods are valid ones.",
    "combined": "Seeded search over bring-up faults, part layouts, interleavings and switch histories of the real combined robot below the real controller manager. Assurance is statistical: 1-4 parts (flat or with one level of nested managers), 2-5 controllers, 1-2 clients; parts, controllers, ROS and plugin loading are simulated.",
    "cm": "Seeded search over interleavings, faults and request histories of the real controller manager; every run is judged cycle by cycle and, afterwards, against a sequential reference model. Assurance is statistical: it covers the seeds run, with small numbers of clients (1-3), controllers (2-5) and calls (up to 34); ROS, plugin loading and the hardware are simulated stubs.",
}
checks = [dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
               technique=PROPS[p].get("technique", "deterministic simulation with seeded scheduling and fault injection"), level="exploration", level_note=PROPS[p].get("note", NOTE.get(PROPS[p]["world"], "")))
          for p in ids if p in PROPS]
na = [dict(property=p, reason=NA.get(p, "check under construction")) for p in ids if p not in PROPS]
json.dump(dict(version=1, setup_cmd="python3 check.py build", checks=checks, not_applicable=na,
               notes="No hooks were needed in /repo: threads, locks, clocks, sleeps, heap and every memory access are controlled through compiler instrumentation and symbol interposition, ROS through stub headers."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
