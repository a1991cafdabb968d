"""The simulated worlds and the budgets of the checks."""
CM = "controller_manager"
ASSUME_CM = ["The scheduler interleaves at memory accesses, atomics, locks, sleeps and clock reads of instrumented code under sequential consistency; unsynchronised accesses are reported by a vector-clock race detector instead of being executed under weak memory.",
             "ROS (roscpp, pluginlib, parameter server, time) is a stub with the same interface."]
WORLDS = {
    "cm": dict(lang="cpp", repo_dirs=["controller_manager", "controller_manager_msgs/msg", "controller_manager_msgs/srv", "controller_interface", "hardware_interface"],
               includes=["controller_manager/include", "controller_interface/include", "hardware_interface/include"],
               sources=["stubs/simros.cpp", "worlds/cm_world.cpp"], repo_sources=["controller_manager/src/controller_manager.cpp"],
               real=["controller_manager.cpp/.h", "controller_loader.h", "controller_interface/*.h", "hardware_interface/*.h", "message definitions (generated from .msg/.srv)"],
               stub=["roscpp (node handles, services, parameters, time, console)", "pluginlib class loader", "threads, mutexes, clocks, sleeps and heap of the process (simulated)", "controllers and robot hardware (workload)"],
               assume=ASSUME_CM),
    "combined": dict(lang="cpp", repo_dirs=["combined_robot_hw", "controller_manager", "controller_manager_msgs/msg", "controller_manager_msgs/srv", "controller_interface", "hardware_interface"],
               includes=["combined_robot_hw/include", "controller_manager/include", "controller_interface/include", "hardware_interface/include"],
               sources=["stubs/simros.cpp", "worlds/combined_world.cpp"], repo_sources=["combined_robot_hw/src/combined_robot_hw.cpp", "controller_manager/src/controller_manager.cpp"],
               real=["combined_robot_hw.cpp/.h", "controller_manager.cpp/.h", "controller_interface/*.h", "hardware_interface/*.h (InterfaceManager, ResourceManager, RobotHW)"],
               stub=["roscpp", "pluginlib class loader", "threads, mutexes, clocks, sleeps and heap (simulated)", "robot parts and controllers (workload)"],
               assume=ASSUME_CM),
    "limits": dict(lang="cpp", repo_dirs=["joint_limits_interface/include", "hardware_interface"],
               includes=["joint_limits_interface/include", "hardware_interface/include"],
               sources=["stubs/simros.cpp", "worlds/limits_world.cpp"], repo_sources=[],
               real=["joint_limits_interface.h", "joint_limits.h", "joint_limits_rosparam.h", "joint_limits_urdf.h", "hardware_interface/*.h (handles, ResourceManager)"],
               stub=["joint plant, encoder bus, operator, controllers (workload)", "clock and scheduling of the control loop (simulated)", "roscpp (node handles, parameter server, time, console)", "URDF joint (data type)"],
               assume=["Limit specifications are valid (minimum not above maximum, limits not negative) and periods are positive, as the interface requires."]),
    "transmissions": dict(lang="cpp", repo_dirs=["transmission_interface", "hardware_interface"],
               includes=["transmission_interface/include", "hardware_interface/include"], ldflags=["-Wl,-z,muldefs"], libs=["-ltinyxml"],
               sources=["stubs/simros.cpp", "worlds/transmissions_world.cpp"],
               repo_sources=["transmission_interface/src/*.cpp"],
               real=["transmission_interface/src/*.cpp (loader, parser, all type and interface plugins)", "transmission_interface.h, simple/differential/four_bar_linkage_transmission.h", "hardware_interface/*.h (RobotHW, InterfaceManager, handles)", "tinyxml", "ros_control_plugins.xml"],
               stub=["pluginlib class loader (classes as declared in the plugin XML)", "roscpp console and time", "actuators and encoder bus, controllers (workload)", "clock and scheduling of the control loop (simulated)"],
               assume=["Joints belong to one transmission each, and actuators that take commands too; transmissions of the same name are identical."]),
    "hardware": dict(lang="cpp", repo_dirs=["hardware_interface"],
               includes=["hardware_interface/include"],
               sources=["stubs/simros.cpp", "worlds/hardware_world.cpp"], repo_sources=[],
               real=["hardware_interface/*.h and internal/*.h (all handle kinds and interfaces, ResourceManager, HardwareResourceManager, InterfaceManager, RobotHW)"],
               stub=["robot data, parts that register, clients that look up, realtime loop (workload)", "threads, mutexes, clocks, sleeps and heap (simulated)", "roscpp console"],
               assume=["Registrations and lookups are made one at a time, as under the lock of the controller manager; a part belongs to one robot; the realtime loop uses handles it was given."]),
    "tools": dict(lang="py", script="py/pysim.py",
               real=["controller_manager/scripts/spawner, unspawner, controller_manager, controller_group", "controller_manager/src/controller_manager/controller_manager_interface.py", "controller_manager_msgs/src/controller_manager_msgs/utils.py", "message definitions (read from .msg/.srv)"],
               stub=["rospy, rosparam, rosservice, std_msgs (with rospy's shutdown, service, timer and subscriber behaviour)", "threading, time (fibers and virtual time; signals delivered between any two lines of the tools)", "controller manager behind the services (executable model), master, network, other clients"],
               assume=["The manager serves requests one at a time, in the order in which they arrive.", "A service client which is shut down neither waits for nor reads the reply of a request under way, which may or may not be served, as in rospy."]),
}
_cm_rule = ("A run has 1-3 clients issuing 3-34 load/unload/switch/list/lookup/reload calls over 2-5 generated controllers against a realtime loop, with parameter, plugin, constructor, init, allocation, hardware, clock, stall and shutdown faults.")
PROPS = {}
for i in range(1, 18):
    PROPS["C%02d" % i] = dict(world="cm", rule=_cm_rule, quick=(120000, 150), thorough=(10**9, 1500))
_comb_rule = "A run brings up a robot of 1-4 generated parts (flat or with nested managers, joints and interfaces spread over them) with bring-up faults, and runs 1-2 clients switching 2-5 controllers spanning parts, with refusing, throwing, slow and failing parts, allocation failures and stalls."
for i in range(18, 21):
    PROPS["C%02d" % i] = dict(world="combined", rule=_comb_rule, quick=(120000, 150), thorough=(10**9, 1500))
_lim_rule = "A run drives 1-4 joints behind limit handles of mixed kinds through 20-120 control cycles with generated limits, command profiles and plant behaviour, with lost, stale, delayed and jumping feedback, e-stop resets, mode changes, stalls and early cycles, non-finite commands and changed limits."
for i in range(21, 24):
    PROPS["C%02d" % i] = dict(world="limits", rule=_lim_rule, quick=(240000, 60), thorough=(10**9, 900))
PROPS["C30"] = dict(world="limits", rule="A run reads the limits of 1-3 joints from a parameter server and URDF joints in either order, 1-3 times, with incomplete, wrong-typed and complete specifications, other nodes changing them in the middle, failing calls and outages, and then drives the joints behind the resulting limit handles.", quick=(90000, 60), thorough=(10**9, 900))
_tr_rule = "A run builds a robot of 0-12 actuators and 0-4 simple, differential and four-bar transmissions, loaded in 1-4 steps by 1-2 loaders from descriptions with mistakes, damage, missing hardware and failing plugins, or set up directly with mismatched data, and runs 1-40 control cycles both ways with lost, delayed, reordered and invalid actuator data."
for i in range(24, 26):
    PROPS["C%02d" % i] = dict(world="transmissions", rule=_tr_rule, quick=((32000 if i == 24 else 100000), 60), thorough=(10**9, 900))
_py_rule = {
    26: "A run executes the spawner with generated arguments, controllers and files against a manager with late, missing, failing, slow, crashing and refusing services, other clients, topic messages and clocks, and shuts it down by signals at any line or from another thread.",
    27: "A run executes the unspawner against a manager whose controllers others start, stop, load and unload, with failing, slow and lost calls, crashes, clock jumps and shutdown by signals at any line or from another thread.",
    28: "A run executes 1-5 API calls, controller_manager and controller_group commands over generated controllers and groups, with failing, lost, slow and refused calls, restarts and other clients acting between and during the calls.",
    29: "A run queries controller managers and controllers 2-13 times while managers come up, go away, crash and restart and partial interfaces, look-alikes and master outages come and go, also in the middle of a query, with failing and slow calls.",
}
for i in range(26, 30):
    PROPS["C%02d" % i] = dict(world="tools", rule=_py_rule[i], quick=(24000, 60), thorough=(10**9, 900))
_tools = WORLDS["tools"]
WORLDS["gui"] = dict(_tools, real=["rqt_controller_manager/src/rqt_controller_manager/controller_manager.py, update_combo.py", "controller_manager_msgs/src/controller_manager_msgs/utils.py", "message definitions (read from .msg/.srv)"],
               stub=["Qt (widgets, signals, timers, menus, models, event loop with virtual time), rqt and rospkg", "rospy, rosparam, rosservice", "controller managers behind the services (executable model), master, parameter server, network, other clients", "the user (workload)"],
               assume=["The manager serves requests one at a time, in the order in which they arrive.", "Qt calls slots one at a time on the thread of the event loop; an open menu runs a nested event loop; exceptions that leave a slot end the program, as in PyQt5."])
PROPS["C31"] = dict(world="gui", rule="A run has a user select managers, open menus and choose actions after thinking, look at details and headers, restore and save settings (3-17 actions) while 1-3 managers come up, go away, crash and restart, other clients change controllers and configurations, and calls, parameter server and master fail or are slow; afterwards everything settles.", quick=(9000, 70), thorough=(10**9, 900))
PROPS["C32"] = dict(world="hardware", rule="A run has 1-2 clients make 3-40 registrations of handles (19 kinds of interfaces, with and without optional or missing data), interfaces and nested managers, and lookups, listings and releases of claims, on a robot of 1-6 nested managers and 1-12 interfaces, with failing allocations, while a realtime loop uses the handles looked up so far.", quick=(100000, 90), thorough=(10**9, 900))
