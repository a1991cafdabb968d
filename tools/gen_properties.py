#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
CM="controller_manager/src/controller_manager.cpp"; CMH="controller_manager/include/controller_manager/controller_manager.h"
CB="controller_interface/include/controller_interface/controller_base.h"; CT="controller_interface/include/controller_interface/controller.h"
MI="controller_interface/include/controller_interface/multi_interface_controller.h"; RH="hardware_interface/include/hardware_interface/robot_hw.h"
IM="hardware_interface/include/hardware_interface/internal/interface_manager.h"; HRM="hardware_interface/include/hardware_interface/internal/hardware_resource_manager.h"
HI="hardware_interface/include/hardware_interface/hardware_interface.h"; RI="controller_interface/include/controller_interface/internal/robothw_interfaces.h"
CL="controller_manager/include/controller_manager/controller_loader.h"; CRH="combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h"; CRC="combined_robot_hw/src/combined_robot_hw.cpp"
JL="joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h"
TI="transmission_interface/include/transmission_interface/"; TS="transmission_interface/src/"
SC="controller_manager/scripts/"; CMI="controller_manager/src/controller_manager/controller_manager_interface.py"; RQ="rqt_controller_manager/src/rqt_controller_manager/controller_manager.py"
UT="controller_manager_msgs/src/controller_manager_msgs/utils.py"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","Each control cycle updates exactly the running controllers, once each",
 "In every cycle of the controller manager's realtime update, every controller that was running when the cycle began has its update callback invoked exactly once, with that cycle's time and period, and no other controller has its update callback invoked. This holds whatever loads, unloads, switches or listings are in progress in other threads.",
 ["schedules","histories"],"all interleavings of the realtime cycle with concurrent load/unload/switch/list/reload calls, all cycle times and periods",
 "The rostests exercise a handful of sequential calls against one freely running loop (and cannot even run here without ROS); no test controls where inside a cycle a concurrent service call lands.",
 [CM,CB],[("ControllerManager::update iterates the list snapshot",CM),("ControllerBase::updateRequest gates on the running state",CB)],["controller update() callbacks inside update()"])
p("C02","Controller callbacks follow a legal lifecycle",
 "Every controller instance sees a legal callback history: starting only after successful initialisation and only while not running, update only between a starting and the next stopping, stopping only while running, waiting and aborting only while not running; a running controller is never destroyed. All of these callbacks are made from the realtime update, with the current cycle's time, and never after the instance's destruction.",
 ["schedules","histories","fault_sequences"],"all histories of load/unload/switch/reload requests (including duplicate, repeated and contradictory requests), hardware switch outcomes, resets and interleavings",
 "Unit tests check state flags after single hand-picked calls; the callback order over arbitrary request histories and interleavings is not observed by any test.",
 [CB,CM],[("ControllerBase::{start,stop,wait,abort,update}Request state machine",CB),("stopControllers/startControllers/startControllersAsap",CM)],["controller callbacks and destructors"])
p("C03","No two running controllers hold the same exclusive resource",
 "At no instant, in any cycle, are two controllers running that claimed the same resource, unless the robot's own conflict policy permits it. A switch request whose resulting set of running controllers would be in conflict is refused, and one whose resulting set is free of conflict is not refused on that ground (resources held only by controllers being stopped in the same request do not count).",
 ["schedules","histories","inputs"],"all sets of controllers claiming arbitrary joints through one or several interfaces, all switch histories and concurrent callers",
 "Tests cover two or three fixed controllers on fixed joints, sequentially; conflict freedom must hold for all claim sets and request histories.",
 [RH,CM,HRM],[("RobotHW::checkForConflict",RH),("info_list computation in switchController",CM)],["starting/stopping callbacks vs. claims"])
p("C04","Switching is all-or-nothing and happens in one control cycle",
 "A switch request that is refused causes no controller callback, no hardware switch and no change of any controller's state. An accepted switch stops all running controllers requested to stop in one realtime cycle and (unless the hardware delays or fails the switch) starts all requested controllers in that same cycle after every stop, and it touches no controller that was not requested.",
 ["schedules","histories","fault_sequences"],"all switch requests (valid and invalid) at all points of all histories, concurrent with other callers, with allocation failures and hardware exceptions inside the request",
 "Tests look at final states only; they do not observe that stops and starts share a cycle or that a refused request has no transient effect under concurrency or faults.",
 [CM],[("switchController builds request lists, publishes one flag",CM),("manageSwitch executes the request in the realtime thread",CM)],["controller callbacks per cycle"])
p("C05","Strict and best-effort switch requests are validated as documented",
 "A STRICT request is refused if it names an unknown controller, asks to stop a controller that is not running, or asks to start one that is already running and not being stopped; BEST_EFFORT (also the default for strictness 0) ignores exactly those entries and carries out the rest. Under either strictness a request that asks to both stop and start the same running controller, or that the conflict check or the hardware refuses, is refused, and every other request is accepted.",
 ["inputs","histories","fault_sequences"],"all request lists over loaded, unknown, running, stopped, waiting and aborted controllers, with duplicates, for all strictness values and all prior histories",
 "Tests try about ten fixed requests from fixed states.",
 [CM],[("validation in switchController",CM)],["switch reply; controllers stopped/started"])
p("C06","The hardware switch handshake is followed exactly",
 "For every switch the robot hardware's prepareSwitch is consulted exactly once, outside the realtime loop and before anything changes, with exactly the controllers that will be stopped and started; if it refuses or throws, nothing else happens. doSwitch is then called exactly once, in the realtime loop, with the same lists, before any controller of that switch is stopped or started, and it is never called for a refused, withdrawn or already executed request.",
 ["schedules","histories","fault_sequences"],"all switch histories with refusing, throwing, slow and failing hardware, concurrent callers and stalled realtime loops",
 "The single hwi_switch rostest uses one cooperative caller; refusal, exceptions, time-outs and concurrent callers are not covered.",
 [CM,RH],[("prepareSwitch call in switchController; doSwitch in manageSwitch guarded by started flag",CM)],["RobotHW::prepareSwitch/doSwitch calls"])
p("C07","Pending starts wait, start or abort according to hardware and time-out",
 "While the hardware reports a switch as ongoing, no controller of that switch starts: each is told it is waiting in every cycle; once the hardware reports done they all start in that cycle, and on a hardware error or once the requested time-out has elapsed (never, if zero) they are all aborted. With start_asap the same rule applies to each controller individually using its own hardware result, and the switch is complete exactly when every requested controller is running or aborted.",
 ["schedules","fault_sequences","inputs"],"all per-cycle hardware result sequences, time-outs, clocks that stall or run at other rates, and both start_asap settings",
 "No existing test makes the hardware report ONGOING or ERROR over several cycles with time-outs under a controlled clock.",
 [CM,RH],[("startControllers and startControllersAsap",CM)],["waiting/starting/aborting callbacks per cycle"])
p("C08","A switch reply tells the truth, and a failed switch has no later effect",
 "A switch request returns true only if the switch has been carried out: every requested stop has happened and every requested start has started, or was aborted because of the hardware or the time-out, or was an entry that best effort ignores. If it returns false, because it was refused, timed out or the node is shutting down, then nothing of that request takes effect after the reply, whatever happens later.",
 ["schedules","fault_sequences","histories"],"all interleavings of several callers with a realtime loop that may be stalled or stopped, wall-clock and ROS-clock jumps, hardware that never finishes, and shutdown at any instant",
 "Needs a realtime loop stalled past the time-out or a second caller in a window of microseconds; no test reaches it.",
 [CM],[("wait loop at the end of switchController",CM)],["switch reply vs. later callbacks"])
p("C09","The realtime loop never races with or outlives controller list changes",
 "No interleaving of the realtime update with load, unload, switch, list or reload calls lets the realtime update use a controller list or controller that another thread is modifying or has destroyed: every access the two sides make to shared state is ordered by synchronisation. This includes the first cycle after start-up and shutdown while a call is in progress.",
 ["schedules","crash_points"],"all interleavings at the granularity of single memory accesses, including realtime loop start-up and node shutdown at any point",
 "Data races need a preemption at one particular instruction; the tests never control the schedule.",
 [CM,CMH],[("double-buffered list with index hand-over",CM)],["memory accesses of update() and of the service calls"],
 [("controllers_lists_","double buffer of controllers",CMH),("current_controllers_list_/used_by_realtime_","hand-over indices",CMH)])
p("C10","The realtime update never blocks, sleeps or allocates",
 "Whatever other threads do or wherever they are stalled, the controller manager's realtime update, outside the callbacks of user code, acquires no lock, does not sleep or wait, and neither allocates nor frees heap memory; in particular it completes even when every non-realtime caller is frozen. Controllers are never destroyed from the realtime thread.",
 ["schedules","fault_sequences"],"all points at which callers may be frozen and all histories of requests",
 "Tests run the loop freely and cannot see a lock acquisition or an allocation, nor freeze a caller inside a critical section.",
 [CM,CB],[("update/manageSwitch use only published state",CM)],["lock, sleep and allocation calls made by the realtime thread"])
p("C11","Loading a controller is all-or-nothing",
 "A load request returns true exactly when the name was not yet loaded, its type parameter exists, some loader declares and constructs the type, and its initialisation succeeds; the controller is then loaded and initialised but not running. In every other case, including plugin, initialisation and allocation failures of any kind, the loaded set and every other controller's state are unchanged, the failed instance is destroyed, and a later load of that name can still succeed; a name is never loaded twice.",
 ["fault_sequences","schedules","histories"],"all sequences of loads with injected parameter, plugin, constructor, initialisation and memory faults, concurrent with other calls and the realtime loop",
 "Tests cover four failure kinds once each; the state after failures and retries and under concurrency is not covered.",
 [CM,CL,CT,MI],[("loadController",CM),("Controller::initRequest, MultiInterfaceController::initRequest",CT)],["load reply, listings, instance lifetimes"])
p("C12","Unloading removes exactly the named idle controller and then destroys it",
 "An unload request returns true exactly when the named controller is loaded and not running; it then removes that controller and no other, and the instance is destroyed exactly once, outside the realtime thread, after the realtime loop has stopped using it and before the reply. A refused unload changes nothing, and no instance is ever destroyed otherwise while it is loaded.",
 ["schedules","histories"],"all histories of load/switch/unload requests with concurrent callers and any realtime stall",
 "Tests check two sequential cases; lifetime relative to a stalled realtime loop is not observable in them.",
 [CM],[("unloadController",CM)],["unload reply, destructor events"])
p("C13","Concurrent service calls are linearizable and listings are exact snapshots",
 "Whatever clients call concurrently, the replies of load, unload, switch, list and lookup are those of some sequential order of the calls consistent with real time. A listing shows each loaded controller exactly once with its name, type and state (initialized, running, stopped, waiting or aborted), and never a half-done switch, load or unload. The listing of controller types shows exactly the types the registered loaders declare, each with its loader.",
 ["schedules","histories","fault_sequences"],"all concurrent histories of a few clients over the service and direct API against a sequential model",
 "Tests call services one after another from one client.",
 [CM],[("services_lock_ and controllers_lock_",CM),("listControllersSrv",CM)],["service replies"])
p("C14","Library reload only happens with no controllers left",
 "A reload request with controllers loaded and without force_kill fails and changes nothing. Otherwise every controller is stopped, unloaded and destroyed before any plugin library is reloaded, every registered loader is reloaded exactly once, and the reply is ok only then; if a controller cannot be stopped or unloaded, no library is reloaded and the reply is not ok.",
 ["histories","schedules","fault_sequences"],"all prior histories, forced and unforced reloads concurrent with other service calls, unstoppable hardware",
 "Only one happy-path rostest exists; instance lifetimes relative to the reload are not observed.",
 [CM,CL],[("reloadControllerLibrariesSrv",CM),("ControllerLoader::reload",CL)],["reload reply, destructor and loader events"])
p("C15","Calls complete once unobstructed, time-outs bind, and shutdown releases callers",
 "No combination of concurrent calls deadlocks: once the realtime loop runs and the hardware finishes its switches, every pending call returns within a bounded time, and every service call gets its answer, also when what it asks for is refused. A switch with a non-zero time-out returns within that time-out plus a small constant of elapsed time even if the realtime loop or the ROS clock is stopped and whatever steps the wall clock makes; one with a zero time-out is never given up for taking long; and after node shutdown every pending call returns promptly even if the realtime loop no longer runs.",
 ["schedules","fault_sequences","crash_points"],"all interleavings, realtime stalls, clock steps, and shutdown at any instant of any call",
 "Deadlocks, clock steps and shutdown inside a call cannot be provoked by the tests.",
 [CM],[("wait loops on ros::ok(), list hand-over and switch completion",CM)],["call return times in simulated time"])
p("C16","A controller is charged with exactly the resources it claimed",
 "The resources reported in listings, given to the hardware and used for conflict checks for a controller are exactly those for which its own initialisation obtained claiming handles, per interface, no more and no fewer; read-only handles claim nothing. A controller that names the interfaces it uses is given exactly those of them that the robot has. Claims made by controllers whose initialisation failed or threw never appear in another controller.",
 ["fault_sequences","histories"],"all sequences of successful and failing initialisations over single-interface and multi-interface controllers with optional and missing interfaces",
 "Tests check claims of a few fixed controllers without preceding failed initialisations.",
 [CT,MI,RI,HRM,HI],[("clearClaims/getClaims around init",CT),("populateClaimedResources",RI)],["ListControllers claimed_resources; ControllerInfo lists"])
p("C17","A reset restarts exactly the running controllers in that cycle",
 "A realtime cycle with the reset flag stops and immediately restarts every running controller once, before updating it, and no other controller; a cycle without the flag restarts none. To every other thread the restarted controllers appear running throughout, so a concurrent unload, switch or listing behaves as if no reset were happening.",
 ["schedules","fault_sequences"],"reset pulses in any cycle, concurrent with any service call at any instruction of the cycle",
 "No test passes the reset flag while another thread inspects or unloads controllers.",
 [CM,CB],[("reset branch of ControllerManager::update",CM)],["stopping/starting/update callbacks; listings and unload replies"])
p("C18","A combined robot shows each part only its own share of a switch",
 "When controllers are switched on a combined robot, every part's prepareSwitch and doSwitch receive exactly the controllers that use at least one resource of that part (or whose claim list is empty), with only that part's interfaces and resources and unchanged names and types; when a part is asked whether a single controller's switch is finished, it too gets only its own share. If any part refuses or throws in prepareSwitch the switch is refused and no part's doSwitch is called; otherwise each part's doSwitch is called exactly once.",
 ["histories","fault_sequences","configurations"],"all partitions of joints and interfaces over parts, all controllers spanning parts, all switch histories with refusing parts",
 "The rostests use one fixed set of four parts and check a few handle values.",
 [CRC,CRH,IM],[("filterControllerList, prepareSwitch, doSwitch",CRC)],["prepareSwitch/doSwitch calls on each part"])
p("C19","A combined robot comes up completely or not at all and drives all its parts",
 "Bringing up a combined robot succeeds exactly when every listed part has a type, can be constructed and initialises successfully; any fault makes it report failure without initialising later parts. After success each read and write reaches every part exactly once, in the configured order and with the same time and period, and every interface and joint of every part is reachable through the combined robot and addresses that part's own data; the same goes for what is registered with the robot itself, whenever that happens.",
 ["fault_sequences","configurations","histories"],"all part lists and all injected parameter, plugin, constructor and init faults; all subsequent control cycles",
 "Tests check one good configuration and a handful of bad parameters.",
 [CRC,IM,"hardware_interface/include/hardware_interface/internal/resource_manager.h"],[("CombinedRobotHW::init/loadRobotHW/read/write",CRC),("InterfaceManager::get combines interfaces",IM)],["part callbacks, handles obtained from the combined robot"])
p("C20","A combined robot's switch is finished only when all its parts have finished",
 "While any part of a combined robot that takes part in a switch still reports the switch as ongoing, controllers that wait for it do not start, and if such a part reports an error they are aborted; they start only when every such part reports done. With start_asap the same holds per controller for the parts whose resources it uses.",
 ["fault_sequences","schedules","configurations"],"all per-part sequences of switch results over cycles, both start_asap settings",
 "No test has a combined robot whose parts need time to switch.",
 [CRC,CRH,RH,CM],[("RobotHW::switchResult queried by startControllers",CM)],["starting/waiting/aborting callbacks vs. part results"])
p("C21","Position commands never leave position limits nor exceed the velocity limit",
 "After limits are enforced, a position command lies within the joint's position limits for any feedback, and it differs from the previous enforced command (or, right after start-up or reset, from the measured position, if that lies within limits) by at most the velocity limit times the cycle period. Commands already within all limits are passed through unchanged, and soft limits only ever tighten these bounds in proportion to the distance from them.",
 ["histories","inputs","fault_sequences"],"all command and feedback histories (including infinite commands and lost feedback), jittering periods, resets and e-stops, all limit specifications",
 "Tests check a few fixed commands from fixed positions; the handle is stateful over the whole history.",
 [JL],[("PositionJointSaturationHandle, PositionJointSoftLimitsHandle",JL)],["joint command after enforceLimits"])
p("C22","Velocity commands never exceed velocity, acceleration and soft position limits",
 "After limits are enforced, a velocity command never exceeds the velocity limit for any feedback, and differs from the previous enforced command (zero at start-up) by at most the acceleration limit times the cycle period (saturation) or from the measured velocity by at most that amount as far as the other limits permit (soft limits). With soft limits it is further bounded in proportion to the distance from the soft position limits, and commands within all limits are passed through unchanged.",
 ["histories","inputs","fault_sequences"],"all command and feedback histories, jittering periods, lost feedback, all limit specifications",
 "Tests check a few fixed commands.",
 [JL],[("VelocityJointSaturationHandle, VelocityJointSoftLimitsHandle",JL)],["joint command after enforceLimits"])
p("C23","Effort commands never exceed limits nor push further outside them",
 "After limits are enforced, an effort command never exceeds the effort limit for any feedback, and (saturation) while the joint is beyond a position limit or faster than the velocity limit the command never drives it further beyond. With soft limits it is bounded by the velocity error with respect to the soft velocity bounds, and commands within all limits are passed through unchanged.",
 ["histories","inputs","fault_sequences"],"all command and feedback histories including lost feedback, all limit specifications, several joints at once",
 "The soft-limit effort handle is documented as untested; the others see a few fixed values.",
 [JL],[("EffortJointSaturationHandle, EffortJointSoftLimitsHandle",JL)],["joint command after enforceLimits"])
p("C24","Transmissions carry state and commands consistently in every control cycle",
 "In every control cycle, after propagation the joint state is the transmission's map of the actuator data most recently received (position, velocity and effort, and absolute position and torque sensor data where both sides have them), and the actuator command is the inverse map of the joint command, so an actuator that executes its command reproduces exactly the commanded joint values. Propagation of one transmission never alters data of joints or actuators that do not belong to it, and transmissions with missing or mismatched data are rejected when they are registered, not discovered in the loop.",
 ["histories","configurations","fault_sequences"],"all robots built from simple, differential and four-bar transmissions, all command histories, lost/stale/delayed actuator feedback",
 "Unit tests check single transmissions in isolation on sampled values, not shared propagation cycles over a whole robot with faults.",
 [TI+"transmission_interface.h",TI+"simple_transmission.h",TI+"differential_transmission.h",TI+"four_bar_linkage_transmission.h"],
 [("TransmissionHandle and propagate() interfaces",TI+"transmission_interface.h")],["joint and actuator data after propagate"])
p("C25","Transmission loading reports all faults, never crashes or half-loads silently",
 "Loading a robot's transmissions from its description succeeds exactly when every transmission is well formed, its type's plugin loads, and for each of them at least one requested joint interface can be provided by the plugins and the actuators the hardware exposes (a requested interface that cannot be provided is skipped with a warning). After a successful load the robot exposes each joint of every transmission with each provided interface, joints and actuators are connected according to their roles, joint values follow the actuators and actuator commands follow the joints. Reading a description yields exactly its well-formed transmissions with their types, joints, actuators, roles and interfaces, and the plugin of a type makes of each of them the transmission it describes, or none. Any parameter, plugin or hardware fault makes the load report failure, and the transmission concerned is not connected. No description, however damaged, crashes the loader or throws out of it, and nothing is reported loaded with a joint missing.",
 ["fault_sequences","configurations","inputs"],"all injected plugin failures, missing interfaces/actuators/attributes and damaged descriptions at any point of the load",
 "Tests load a handful of fixed URDFs; plugin failures part-way are not tested.",
 [TI+"transmission_interface_loader.h",TS+"transmission_interface_loader.cpp",TS+"transmission_parser.cpp",TS+"joint_state_interface_provider.cpp"],
 [("TransmissionInterfaceLoader::load",TS+"transmission_interface_loader.cpp")],["return value; joint handles and propagated values"])
p("C26","The spawner starts exactly what it loaded and takes it all down on exit",
 "Once the manager is available and the topic it waits for, if any, is true, the spawner tries to load each controller given by name or YAML file, starts exactly those it managed to load, in one strict switch (none with --stopped), and keeps running until it is shut down; it never touches other controllers. When it is shut down at any point, also in the middle of a request, every controller it loaded (a request whose reply it never got counts) is stopped and unloaded before it exits, unless the manager failed to serve the requests to do so; the failure of one request does not keep the others from being made. While the manager is not completely available or the topic is not true it loads nothing; it gives up when the manager is not found within the time-out (not before simulated time has started), and exits whenever asked to. Controllers of a YAML file are loaded only with their parameters set.",
 ["fault_sequences","crash_points","schedules"],"shutdown at any point, failing and lost service calls, controllers that do not load, late or absent managers, topics and clocks",
 "One rostest runs the happy path.",
 [SC+"spawner"],[("main and shutdown hook",SC+"spawner")],["service calls received by the manager; manager state after exit"])
p("C27","The unspawner keeps its targets stopped while it runs and restores them on exit",
 "While the unspawner runs and the manager serves its requests, any named controller that runs is stopped within one polling period (3 s of ROS time) and no other controller is touched. When it is shut down at any point, also in the middle of a request, it restarts the controllers it stopped (those of a stop request whose reply it never got may be restarted too) and no others, and none that it stopped is left stopped if its requests are served. Failing requests and clock jumps neither end it nor make it forget what it stopped.",
 ["fault_sequences","crash_points","schedules"],"controllers (re)started by others at any time, failing service calls, shutdown at any point",
 "One rostest runs the happy path.",
 [SC+"unspawner"],[("stop_controllers timer and restart hook",SC+"unspawner")],["service calls received by the manager; manager state after exit"])
p("C28","Command-line tools report and achieve exactly what the manager granted",
 "load, unload, start, stop, spawn, kill and group commands call the manager with exactly the named controllers and report success exactly when the manager did; listings show all the controllers with their states, types and groups there are. A group switch stops exactly the running controllers of other groups not in the chosen one and starts exactly the chosen ones not yet running, in one strict switch, and does nothing if a load fails; a library reload with restore brings back every controller that was loaded before and restarts exactly those that were running.",
 ["fault_sequences","histories","schedules"],"all manager states and group definitions, failing loads/switches, other clients acting in between",
 "Rostests run a few happy-path commands.",
 [CMI,SC+"controller_group",SC+"controller_manager"],[("controller_manager_interface functions",CMI),("_switch_group",SC+"controller_group")],["service calls received by the manager; return values"])
p("C29","Discovery tools list exactly the live controller managers and survive restarts",
 "A manager lister returns, sorted and without duplicates, the namespaces whose full controller-manager interface is available at the time, however managers, look-alikes and interface parts appear and disappear between and during calls, and nothing else, except that a manager listed before stays listed for as long as its list_controllers service is registered (the documented lazy check); while the master is unreachable it returns an empty list. It never throws because of an unreachable node or master. A controller lister returns the manager's current controllers, recovers by itself after the manager restarts, and returns an empty list, never an exception, while it is down. Lists returned earlier never change.",
 ["fault_sequences","histories","crash_points"],"all churn histories of managers, partial interfaces, master outages and manager crashes at any call",
 "Tests start two fixed managers once.",
 [UT],[("get_controller_managers, ControllerManagerLister, ControllerLister",UT)],["returned lists"])
p("C30","Joint limits are read completely and as specified, or not at all",
 "For every kind of limit of a joint, reading the limits from the parameter server leaves either exactly the complete specification given there, or what was there before: a kind specified as off ends up off, and a kind whose flag or values are missing, of the wrong type or cannot be fetched stays as it was, also when the server fails or the specification changes while it is read. Soft limits are only taken as a complete set, and reading them reports success exactly then; limits are reported as found exactly if the joint has a specification. URDF joints yield exactly the limits of their type and nothing if they specify none. The limits read are the ones enforced afterwards, and a handle that needs a limit which is not specified is refused.",
 ["fault_sequences","histories","schedules"],"all joint specifications, writes by others at any point of a read, parameter server failures and outages at any call, orders of reading URDF and parameters",
 "The tests read a few fixed, complete and static specifications from a server that never fails.",
 ["joint_limits_interface/include/joint_limits_interface/joint_limits_rosparam.h","joint_limits_interface/include/joint_limits_interface/joint_limits_urdf.h"],[("getJointLimits, getSoftJointLimits","joint_limits_interface/include/joint_limits_interface/joint_limits_rosparam.h"),("getJointLimits, getSoftJointLimits","joint_limits_interface/include/joint_limits_interface/joint_limits_urdf.h"),("handle constructors",JL)],["limits and result after a read","joint command after enforceLimits"])
p("C31","The graphical controller manager shows and does what the manager reports",
 "The plugin offers the live controller managers; the selection is the user's, changes only when the user (or restoring a session) chooses and is dropped only when the selected manager goes away, and saving yields it. After every refresh, and from the moment a manager is selected, the table shows exactly the controllers last reported by the selected manager, in its order and with their states and icons, followed by the controllers that only have a configuration on the parameter server, once each. The menu of a controller offers exactly the actions that fit its state; a chosen action makes exactly its requests, strict, in order, for the clicked controller, to the manager that was selected, however long the menu stayed open and whatever changed meanwhile, and nothing is ever requested otherwise or after shutdown. The details shown of a controller are exactly those reported. Failing, slow, crashing and restarting managers, master outages and vanishing parameters never end the plugin in an exception, and once failures stop, the display is the truth again and requests reach the manager.",
 ["fault_sequences","histories","schedules","crash_points"],"all user actions at any time, manager and parameter histories, failing calls, restarts and outages, also while a call is under way or a menu is open",
 "No tests exist.",
 [RQ,"rqt_controller_manager/src/rqt_controller_manager/update_combo.py"],[("ControllerManager plugin",RQ),("ControllerTable",RQ),("update_combo","rqt_controller_manager/src/rqt_controller_manager/update_combo.py"),("ControllerManagerLister, ControllerLister, get_rosparam_controller_names",UT)],["combo box, table, menu and popup contents","service requests","exceptions leaving slots"])
p("C32","Robots hand out exactly what was registered",
 "Whatever handles, interfaces and nested interface managers are registered with a robot, in whatever order, before or between lookups: looking an interface up yields the one registered interface of that type, or, if several were registered in nested managers, one combined interface (the same one for the same interfaces), or none if there is none; its resources are exactly those currently registered in all of them, the latest registration of a name winning. A handle looked up reads and commands exactly the data it was registered with, every accessor its own quantity, and goes on doing so whatever is registered later. Handles without the data they need are refused, unknown resources raise a HardwareInterfaceException. Exactly the successful lookups in claiming interfaces are reported as claims, until cleared. Listings of interfaces and resources agree with what is registered. By default controllers conflict exactly if they claim the same resource. An allocation failing in the middle breaks nothing that was registered or handed out before, and the operation succeeds when repeated.",
 ["histories","fault_sequences","schedules","inputs"],"all compositions of robots, all histories of registrations and lookups of all kinds of handles, allocation failures at any point, a realtime loop using handles meanwhile",
 "Unit tests register two or three fixed handles once, look each up once, and cover a few of the interfaces.",
 [IM,HRM,HI,RH,"hardware_interface/include/hardware_interface/internal/resource_manager.h","hardware_interface/include/hardware_interface/joint_state_interface.h","hardware_interface/include/hardware_interface/joint_command_interface.h","hardware_interface/include/hardware_interface/actuator_state_interface.h","hardware_interface/include/hardware_interface/imu_sensor_interface.h"],
 [("InterfaceManager::registerInterface, get, getNames, getInterfaceResources",IM),("ResourceManager::registerHandle, getHandle, concatManagers","hardware_interface/include/hardware_interface/internal/resource_manager.h"),("HardwareResourceManager::getHandle, claim policies",HRM),("handle constructors and accessors","hardware_interface/include/hardware_interface/*.h")],["interfaces, resource names, handles and claims obtained; data read and written through handles"])
p("N30","Transmission kinematics are exact inverses of each other",
 "For every transmission and every valid geometry, mapping joint values to actuators and back (and vice versa) reproduces them, and effort maps conserve power.",
 ["inputs"],"all geometries and values","Sampled random values only.",
 [TI+"simple_transmission.h",TI+"differential_transmission.h",TI+"four_bar_linkage_transmission.h"],[("actuatorToJoint*/jointToActuator*",TI+"simple_transmission.h")])
p("N32","Controller filters select exactly the matching controllers",
 "The controller list filters (by name, type, state, interface, resources) return exactly the matching entries, in order, without modifying their input.",
 ["inputs"],"all controller lists and filter arguments","Fixed samples only.",[UT],[("filter_by_*",UT)])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P:
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
        f.write(json.dumps(d)+"\n")
print(len(P))
