From f8916fdaf2cd8e216467c3d3fcf48e4b2f8264d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 01/41] fix: order realtime and service accesses to controller
 lists and states

The realtime loop and the service threads exchanged the controller list
indices and the controller states through plain variables, and update() could
announce a list that had been switched over (and cleared) since it was read,
e.g. in the first cycle after start-up.
---
 .../include/controller_interface/controller_base.h        | 3 ++-
 .../include/controller_manager/controller_manager.h       | 5 +++--
 controller_manager/src/controller_manager.cpp             | 8 +++++++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/controller_interface/include/controller_interface/controller_base.h b/controller_interface/include/controller_interface/controller_base.h
index 59f4f79..ad0add1 100644
--- a/controller_interface/include/controller_interface/controller_base.h
+++ b/controller_interface/include/controller_interface/controller_base.h
@@ -34,6 +34,7 @@
 
 #include <ros/node_handle.h>
 #include <hardware_interface/robot_hw.h>
+#include <atomic>
 #include <memory>
 
 namespace controller_interface
@@ -251,7 +252,7 @@ public:
   };
 
   /// The current execution state of the controller
-  ControllerState state_ = ControllerState::CONSTRUCTED;
+  std::atomic<ControllerState> state_ = {ControllerState::CONSTRUCTED};
 
 };
 
diff --git a/controller_manager/include/controller_manager/controller_manager.h b/controller_manager/include/controller_manager/controller_manager.h
index 471f47a..ecd7c14 100644
--- a/controller_manager/include/controller_manager/controller_manager.h
+++ b/controller_manager/include/controller_manager/controller_manager.h
@@ -33,6 +33,7 @@
 
 
 #include "controller_manager/controller_spec.h"
+#include <atomic>
 #include <cstdio>
 #include <map>
 #include <mutex>
@@ -213,9 +214,9 @@ private:
   /// Double-buffered controllers list
   std::vector<ControllerSpec> controllers_lists_[2];
   /// The index of the current controllers list
-  int current_controllers_list_ = {0};
+  std::atomic<int> current_controllers_list_ = {0};
   /// The index of the controllers list being used in the real-time thread.
-  int used_by_realtime_ = {-1};
+  std::atomic<int> used_by_realtime_ = {-1};
   /*\}*/
 
 
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index d78571d..6141bd2 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -65,7 +65,13 @@ ControllerManager::ControllerManager(hardware_interface::RobotHW *robot_hw, cons
 // Must be realtime safe.
 void ControllerManager::update(const ros::Time& time, const ros::Duration& period, bool reset_controllers)
 {
-  used_by_realtime_ = current_controllers_list_;
+  // Announce the list used by this cycle. Retry if the lists were switched over in between, as the
+  // non-realtime thread may then already have seen the previous announcement.
+  do
+  {
+    used_by_realtime_ = current_controllers_list_.load();
+  }
+  while (used_by_realtime_ != current_controllers_list_);
   
   // Restart all running controllers if motors are re-enabled
   if (reset_controllers){
-- 
2.43.0


From b6131313742dfef17e4e90d032cab1b0ce00102b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 02/41] fix: take the controllers lock before resetting the
 switch parameters

A switchController() call made while another one was in progress reset the
parameters of the switch being carried out by the realtime loop.
---
 controller_manager/src/controller_manager.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 6141bd2..ea9905c 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -443,6 +443,9 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
                                          const std::vector<std::string>& stop_controllers,
                                          int strictness, bool start_asap, double timeout)
 {
+  // lock controllers
+  std::lock_guard<std::recursive_mutex> guard(controllers_lock_);
+
   switch_params_ = SwitchParams();
 
   if (!stop_request_.empty() || !start_request_.empty())
@@ -461,9 +464,6 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
   for (const auto& controller : stop_controllers)
     ROS_DEBUG(" - stopping controller '%s'", controller.c_str());
 
-  // lock controllers
-  std::lock_guard<std::recursive_mutex> guard(controllers_lock_);
-
   controller_interface::ControllerBase* ct;
   // list all controllers to stop
   for (const auto& controller : stop_controllers)
-- 
2.43.0


From a5681c35c4f5536c78c6607b8b724b006d048c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 03/41] fix: withdraw a switch that timed out or was
 interrupted by shutdown

When the wait for a switch ended early the switch stayed requested and its
request lists were cleared, possibly while the realtime loop was using them, so
it was carried out later although it had been reported as failed. On shutdown
it was even reported as successful.
---
 .../controller_manager/controller_manager.h   |  6 ++++++
 controller_manager/src/controller_manager.cpp | 21 +++++++++++--------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.h b/controller_manager/include/controller_manager/controller_manager.h
index ecd7c14..0683c39 100644
--- a/controller_manager/include/controller_manager/controller_manager.h
+++ b/controller_manager/include/controller_manager/controller_manager.h
@@ -203,6 +203,12 @@ private:
 
   SwitchParams switch_params_;
 
+  /// Hand-over of the current switch: once requested, it may either be executed by the real-time
+  /// thread or be withdrawn by the requesting thread. All of the above belongs to the real-time thread
+  /// while it is executing the switch.
+  enum class SwitchStatus {IDLE, REQUESTED, EXECUTING};
+  std::atomic<SwitchStatus> switch_status_ = {SwitchStatus::IDLE};
+
   /*\}*/
 
   /** \name Controllers List
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index ea9905c..644ca46 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -89,9 +89,11 @@ void ControllerManager::update(const ros::Time& time, const ros::Duration& perio
     controller.c->updateRequest(time, period);
 
   // there are controllers to start/stop
-  if (switch_params_.do_switch)
+  SwitchStatus requested = SwitchStatus::REQUESTED;
+  if (switch_status_.compare_exchange_strong(requested, SwitchStatus::EXECUTING))
   {
     manageSwitch(time);
+    switch_status_ = switch_params_.do_switch ? SwitchStatus::REQUESTED : SwitchStatus::IDLE;
   }
 }
 
@@ -614,30 +616,31 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
   switch_params_.init_time = ros::Time::now();
   switch_params_.timeout = timeout;
   switch_params_.do_switch = true;
+  switch_status_ = SwitchStatus::REQUESTED;
 
   // wait until switch is finished
   ROS_DEBUG("Request atomic controller switch from realtime loop");
   auto start_time = std::chrono::system_clock::now();
   bool timed_out = false;
-  while (ros::ok() && switch_params_.do_switch)
+  while (switch_status_ != SwitchStatus::IDLE)
   {
-    if (!ros::ok())
-    {
-      return false;
-    }
     std::chrono::duration<double> diff = std::chrono::system_clock::now() - start_time;
-    if (diff.count() < timeout+1.0 || timeout == 0){
+    SwitchStatus requested = SwitchStatus::REQUESTED;
+    if (ros::ok() && (diff.count() < timeout+1.0 || timeout == 0)){
         std::this_thread::sleep_for(std::chrono::microseconds(100));
-    } else {
+    } else if (switch_status_.compare_exchange_strong(requested, SwitchStatus::IDLE)) {
         ROS_DEBUG("Timed out while switching controllers. Exiting...");
         timed_out = true;
         break;
+    } else {
+        // too late to withdraw the switch, the realtime loop is just executing it
+        std::this_thread::sleep_for(std::chrono::microseconds(100));
     }
   }
   start_request_.clear();
   stop_request_.clear();
   if(timed_out){
-      ROS_DEBUG("Exited wait until switch is finished loop using non-ROS-time timeout");
+      ROS_DEBUG("Exited wait until switch is finished loop using non-ROS-time timeout or due to shutdown");
       return false;
   }
   ROS_DEBUG("Successfully switched controllers");
-- 
2.43.0


From a5062883550f2b75afb6198da1ff940e42dd5379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 04/41] fix: drop ignored and repeated entries from the switch
 request

Under BEST_EFFORT a request to start a running controller was ignored for the
resource check only, the realtime loop still called starting() on the running
controller. A controller named twice was started, or aborted, twice.
---
 controller_manager/src/controller_manager.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 644ca46..36dbdf9 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -486,7 +486,8 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
     else{
       ROS_DEBUG("Found controller '%s' that needs to be stopped in list of controllers",
                 controller.c_str());
-      stop_request_.push_back(ct);
+      if (std::find(stop_request_.begin(), stop_request_.end(), ct) == stop_request_.end())
+        stop_request_.push_back(ct);
     }
   }
   ROS_DEBUG("Stop request vector has size %i", (int)stop_request_.size());
@@ -511,7 +512,8 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
     else{
       ROS_DEBUG("Found controller '%s' that needs to be started in list of controllers",
                 controller.c_str());
-      start_request_.push_back(ct);
+      if (std::find(start_request_.begin(), start_request_.end(), ct) == start_request_.end())
+        start_request_.push_back(ct);
     }
   }
   ROS_DEBUG("Start request vector has size %i", (int)start_request_.size());
@@ -555,6 +557,7 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
         return false;
       } else {
         in_stop_list = false;
+        stop_request_.erase(std::find(stop_request_.begin(), stop_request_.end(), controller.c.get()));
       }
     }
 
@@ -566,6 +569,7 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
         return false;
       } else {
         in_start_list = false;
+        start_request_.erase(std::find(start_request_.begin(), start_request_.end(), controller.c.get()));
       }
     }
 
-- 
2.43.0


From eb3bbb209dba6c632389eb542ba51d750001a8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 05/41] fix: do not touch a controllers list still used by the
 realtime loop on shutdown

The wait loops of loadController() and unloadController() fell through when the
node was shut down, clearing the list (and destroying controllers) the realtime
loop may still be iterating over. Return false, as the loop bodies intended.
---
 controller_manager/src/controller_manager.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 36dbdf9..e5c69f3 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -243,7 +243,7 @@ bool ControllerManager::loadController(const std::string& name)
 
   // get reference to controller list
   int free_controllers_list = (current_controllers_list_ + 1) % 2;
-  while (ros::ok() && free_controllers_list == used_by_realtime_)
+  while (free_controllers_list == used_by_realtime_)
   {
     if (!ros::ok())
     {
@@ -357,7 +357,7 @@ bool ControllerManager::loadController(const std::string& name)
   // Destroys the old controllers list when the realtime thread is finished with it.
   int former_current_controllers_list_ = current_controllers_list_;
   current_controllers_list_ = free_controllers_list;
-  while (ros::ok() && used_by_realtime_ == former_current_controllers_list_)
+  while (used_by_realtime_ == former_current_controllers_list_)
   {
     if (!ros::ok())
     {
@@ -381,7 +381,7 @@ bool ControllerManager::unloadController(const std::string &name)
 
   // get reference to controller list
   int free_controllers_list = (current_controllers_list_ + 1) % 2;
-  while (ros::ok() && free_controllers_list == used_by_realtime_)
+  while (free_controllers_list == used_by_realtime_)
   {
     if (!ros::ok())
     {
@@ -424,7 +424,7 @@ bool ControllerManager::unloadController(const std::string &name)
   ROS_DEBUG("Realtime switches over to new controller list");
   int former_current_controllers_list_ = current_controllers_list_;
   current_controllers_list_ = free_controllers_list;
-  while (ros::ok() && used_by_realtime_ == former_current_controllers_list_)
+  while (used_by_realtime_ == former_current_controllers_list_)
   {
     if (!ros::ok())
     {
-- 
2.43.0


From 111ac2404f5412831643d403fe5e843cd8f36fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 06/41] fix: do not carry out leftovers of a switch request
 that threw

If the robot hardware (or an allocation) threw while a switch was being
prepared, its request lists were kept and executed with the next request.
---
 controller_manager/src/controller_manager.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index e5c69f3..0929e26 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -450,8 +450,9 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
 
   switch_params_ = SwitchParams();
 
-  if (!stop_request_.empty() || !start_request_.empty())
-    ROS_FATAL("The internal stop and start request lists are not empty at the beginning of the swithController() call. This should not happen.");
+  // an exception, e.g. one thrown by the robot hardware, may have left the requests of a previous call behind
+  stop_request_.clear();
+  start_request_.clear();
 
   if (strictness == 0){
     ROS_WARN("Controller Manager: To switch controllers you need to specify a strictness level of controller_manager_msgs::SwitchController::STRICT (%d) or ::BEST_EFFORT (%d). Defaulting to ::BEST_EFFORT.",
-- 
2.43.0


From 5890f8f247c64a6f184597e4bab35828723ec92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 07/41] fix: measure the switch timeout with the steady clock

A step of the system clock expired the timeout early or suspended it.
---
 controller_manager/src/controller_manager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 0929e26..ebfc8c3 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -625,11 +625,11 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
 
   // wait until switch is finished
   ROS_DEBUG("Request atomic controller switch from realtime loop");
-  auto start_time = std::chrono::system_clock::now();
+  auto start_time = std::chrono::steady_clock::now();
   bool timed_out = false;
   while (switch_status_ != SwitchStatus::IDLE)
   {
-    std::chrono::duration<double> diff = std::chrono::system_clock::now() - start_time;
+    std::chrono::duration<double> diff = std::chrono::steady_clock::now() - start_time;
     SwitchStatus requested = SwitchStatus::REQUESTED;
     if (ros::ok() && (diff.count() < timeout+1.0 || timeout == 0)){
         std::this_thread::sleep_for(std::chrono::microseconds(100));
-- 
2.43.0


From a7af6d588cb8145a5f619f047e29d6e6ea839e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:40 +0000
Subject: [PATCH 08/41] fix: let a controller appear as running throughout a
 reset

A controller being reset appeared as stopped to the service threads for a
moment, which could unload it, or start it once more, while it was running.
---
 controller_manager/src/controller_manager.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index ebfc8c3..bc9b8cc 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -77,8 +77,9 @@ void ControllerManager::update(const ros::Time& time, const ros::Duration& perio
   if (reset_controllers){
     for (const auto& controller : controllers_lists_[used_by_realtime_]){
       if (controller.c->isRunning()){
-        controller.c->stopRequest(time);
-        controller.c->startRequest(time);
+        // the controller stays in state running, other threads must not take it for stopped in between
+        controller.c->stopping(time);
+        controller.c->starting(time);
       }
     }
   }
-- 
2.43.0


From a46d7d47e27d31231393e83587d8c40622228d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:40 +0000
Subject: [PATCH 09/41] fix: keep the controllers locked while reloading
 libraries

A controller loaded through the C++ interface during a library reload tripped
the assertion that none is left.
---
 controller_manager/src/controller_manager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index bc9b8cc..e1984c2 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -663,6 +663,9 @@ bool ControllerManager::reloadControllerLibrariesSrv(
   std::lock_guard<std::mutex> guard(services_lock_);
   ROS_DEBUG("reload libraries service locked");
 
+  // keep others from loading controllers meanwhile
+  std::lock_guard<std::recursive_mutex> controllers_guard(controllers_lock_);
+
   // only reload libraries if no controllers are running
   std::vector<std::string> controllers;
   getControllerNames(controllers);
-- 
2.43.0


From d09c27854dfc38127567062392621d676e330fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 10/41] fix: report the outcome of a load or unload interrupted
 by shutdown

They returned false with the controller already added to, or taken off, the
list. An unload left a live controller behind that nobody knew about, so that a
following library reload unloaded its code.
---
 controller_manager/src/controller_manager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index e1984c2..ab0d56f 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -362,7 +362,8 @@ bool ControllerManager::loadController(const std::string& name)
   {
     if (!ros::ok())
     {
-      return false;
+      // the controller is loaded, only the old list could not be cleared
+      return true;
     }
     std::this_thread::sleep_for(std::chrono::microseconds(200));
   }
@@ -429,6 +430,8 @@ bool ControllerManager::unloadController(const std::string &name)
   {
     if (!ros::ok())
     {
+      // keep the controller, it cannot be destroyed anymore
+      current_controllers_list_ = former_current_controllers_list_;
       return false;
     }
     std::this_thread::sleep_for(std::chrono::microseconds(200));
-- 
2.43.0


From 680a0dee7ade71eb70013ac524df7180f6029ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 11/41] fix: let a combined robot report the switch results of
 its parts

CombinedRobotHW inherited RobotHW::switchResult(), which always reports DONE, so
controllers were started although parts of the robot had not finished (or had
failed) the switch.
---
 .../combined_robot_hw/combined_robot_hw.h     | 14 ++++++-
 combined_robot_hw/src/combined_robot_hw.cpp   | 37 ++++++++++++++++++-
 2 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h b/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h
index d1e1d34..40b2c64 100644
--- a/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h
+++ b/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h
@@ -81,6 +81,18 @@ public:
   void doSwitch(const std::list<hardware_interface::ControllerInfo>& start_list,
                 const std::list<hardware_interface::ControllerInfo>& stop_list) override;
 
+  /**
+   * Return (in realtime) the state of the last doSwitch(): it has failed if it failed for any of the combined RobotHW
+   * objects, and is done once all of them are done.
+   */
+  SwitchState switchResult() const override;
+
+  /**
+   * Return (in realtime) the state of the last doSwitch() for a given controller, considering the combined RobotHW
+   * objects the controller uses.
+   */
+  SwitchState switchResult(const hardware_interface::ControllerInfo& controller) const override;
+
   /**
    * Reads data from the robot HW
    *
@@ -110,7 +122,7 @@ protected:
    */
   void filterControllerList(const std::list<hardware_interface::ControllerInfo>& list,
                             std::list<hardware_interface::ControllerInfo>& filtered_list,
-                            hardware_interface::RobotHWSharedPtr robot_hw);
+                            hardware_interface::RobotHWSharedPtr robot_hw) const;
 };
 
 }
diff --git a/combined_robot_hw/src/combined_robot_hw.cpp b/combined_robot_hw/src/combined_robot_hw.cpp
index 24b24f4..0f42676 100644
--- a/combined_robot_hw/src/combined_robot_hw.cpp
+++ b/combined_robot_hw/src/combined_robot_hw.cpp
@@ -89,6 +89,41 @@ namespace combined_robot_hw
     }
   }
 
+  hardware_interface::RobotHW::SwitchState CombinedRobotHW::switchResult() const
+  {
+    SwitchState result = SwitchState::DONE;
+    for (const auto& robot_hw : robot_hw_list_)
+    {
+      const SwitchState state = robot_hw->switchResult();
+      if (state == SwitchState::ERROR)
+        return state;
+      if (state == SwitchState::ONGOING)
+        result = state;
+    }
+    return result;
+  }
+
+  hardware_interface::RobotHW::SwitchState CombinedRobotHW::switchResult(const hardware_interface::ControllerInfo& controller) const
+  {
+    const std::list<hardware_interface::ControllerInfo> list(1, controller);
+    SwitchState result = SwitchState::DONE;
+    for (const auto& robot_hw : robot_hw_list_)
+    {
+      // Only ask the RobotHW objects that have been told about this controller, about their part of it
+      std::list<hardware_interface::ControllerInfo> filtered_list;
+      filterControllerList(list, filtered_list, robot_hw);
+      if (filtered_list.empty())
+        continue;
+
+      const SwitchState state = robot_hw->switchResult(filtered_list.front());
+      if (state == SwitchState::ERROR)
+        return state;
+      if (state == SwitchState::ONGOING)
+        result = state;
+    }
+    return result;
+  }
+
   bool CombinedRobotHW::loadRobotHW(const std::string& name)
   {
     ROS_DEBUG("Will load robot HW '%s'", name.c_str());
@@ -197,7 +232,7 @@ namespace combined_robot_hw
 
   void CombinedRobotHW::filterControllerList(const std::list<hardware_interface::ControllerInfo>& list,
                                              std::list<hardware_interface::ControllerInfo>& filtered_list,
-                                             hardware_interface::RobotHWSharedPtr robot_hw)
+                                             hardware_interface::RobotHWSharedPtr robot_hw) const
   {
     filtered_list.clear();
     for (const auto& controller : list)
-- 
2.43.0


From cf0ace6ad525573913401008074fae342a08b933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 12/41] fix: keep position commands within the position limits
 for any feedback

If the measured position at start-up or after a reset was below the lower
position limit, the upper bound of the command was below that limit, too, and the
resulting command violated the position limits (above the upper limit, it did
not). If the position was not available (NaN), commands were not limited at all.
---
 .../joint_limits_interface.h                    | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h b/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
index c4f0c90..e75fbf3 100644
--- a/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
+++ b/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
@@ -106,7 +106,10 @@ public:
       max_pos = max_pos_limit_;
     }
 
-    const double cmd = internal::saturate(jh_.getCommand(), min_pos, max_pos);
+    double cmd = internal::saturate(jh_.getCommand(), min_pos, max_pos);
+
+    // The position limits hold in any case, also if the measured position lies outside of them or is not available
+    cmd = internal::saturate(cmd, min_pos_limit_, max_pos_limit_);
     jh_.setCommand(cmd);
     prev_cmd_ = cmd;
   }
@@ -231,9 +234,15 @@ public:
     }
 
     // Saturate position command according to bounds
-    const double pos_cmd = saturate(jh_.getCommand(),
-                                    pos_low,
-                                    pos_high);
+    double pos_cmd = saturate(jh_.getCommand(),
+                              pos_low,
+                              pos_high);
+
+    if (limits_.has_position_limits)
+    {
+      // The position limits hold in any case, also if the measured position lies outside of them or is not available
+      pos_cmd = saturate(pos_cmd, limits_.min_position, limits_.max_position);
+    }
     jh_.setCommand(pos_cmd);
 
     // Cache variables
-- 
2.43.0


From 50f5a816d75843df497c6e89cb7d41b1e8d7eb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 13/41] fix: keep effort commands within the effort limit
 without joint state

With soft limits and a position or velocity that is not available (NaN), effort
commands were not limited at all.
---
 .../include/joint_limits_interface/joint_limits_interface.h   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h b/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
index e75fbf3..d5b29c4 100644
--- a/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
+++ b/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
@@ -397,7 +397,9 @@ public:
     const double eff_cmd = saturate(jh_.getCommand(),
                                     soft_min_eff,
                                     soft_max_eff);
-    jh_.setCommand(eff_cmd);
+
+    // The effort limit holds in any case, also if the joint state is not available
+    jh_.setCommand(saturate(eff_cmd, -limits_.max_effort, limits_.max_effort));
   }
 
 private:
-- 
2.43.0


From 9fdef78a56d4237afa5495d87b14134f417fe4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 14/41] fix: keep limiting velocity commands after one that is
 not a number

After a single NaN command, velocity and acceleration limits were never enforced
again if the joint has acceleration limits.
---
 .../include/joint_limits_interface/joint_limits_interface.h   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h b/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
index d5b29c4..31e3889 100644
--- a/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
+++ b/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
@@ -459,7 +459,9 @@ public:
     const double vel_cmd = saturate(jh_.getCommand(),
                                     vel_low,
                                     vel_high);
-    jh_.setCommand(vel_cmd);
+
+    // The velocity limit holds in any case, also if the previous command was not a number
+    jh_.setCommand(saturate(vel_cmd, -limits_.max_velocity, limits_.max_velocity));
 
     // Cache variables
     prev_cmd_ = jh_.getCommand();
-- 
2.43.0


From d135229f748d4e50d64a0f64bb72c3bb9ed3225e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 15/41] fix: keep soft-limited velocity commands within the
 velocity limits for any feedback

If the bounds on the velocity and the range permitted by the acceleration limit
are disjoint, the command violated the former if the measured velocity is below
them (but not if it is above). If the position was not available (NaN), commands
were not limited at all.
---
 .../joint_limits_interface/joint_limits_interface.h      | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h b/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
index 31e3889..610146f 100644
--- a/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
+++ b/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
@@ -518,15 +518,18 @@ public:
       max_vel = max_vel_limit_;
     }
 
+    double cmd = jh_.getCommand();
     if (limits_.has_acceleration_limits)
     {
       const double vel = jh_.getVelocity();
       const double delta_t = period.toSec();
-      min_vel = std::max(vel - limits_.max_acceleration * delta_t, min_vel);
-      max_vel = std::min(vel + limits_.max_acceleration * delta_t, max_vel);
+      cmd = saturate(cmd, vel - limits_.max_acceleration * delta_t, vel + limits_.max_acceleration * delta_t);
     }
 
-    jh_.setCommand(saturate(jh_.getCommand(), min_vel, max_vel));
+    // The bounds above take precedence over the acceleration limit, and the velocity limit holds in any case, also if
+    // the joint state is not available
+    cmd = saturate(cmd, min_vel, max_vel);
+    jh_.setCommand(saturate(cmd, -max_vel_limit_, max_vel_limit_));
   }
 
 private:
-- 
2.43.0


From 7c6ec1668e9bf8964ebf4c854a49292e88c7c2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:25 +0000
Subject: [PATCH 16/41] fix: check the size of actuator torque sensor data in
 transmission handles

TransmissionHandle checked the absolute position twice and the torque sensor
data never, so a handle with mismatched torque sensor data was accepted and the
propagation read past the end of the vector.
---
 .../include/transmission_interface/transmission_interface.h     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transmission_interface/include/transmission_interface/transmission_interface.h b/transmission_interface/include/transmission_interface/transmission_interface.h
index 0b3b87a..9697cf2 100644
--- a/transmission_interface/include/transmission_interface/transmission_interface.h
+++ b/transmission_interface/include/transmission_interface/transmission_interface.h
@@ -106,7 +106,7 @@ protected:
     {
       throw TransmissionInterfaceException("Actuator absolute position data size does not match transmission.");
     }
-    if (!actuator_data.absolute_position.empty() && actuator_data.absolute_position.size() != transmission_->numActuators())
+    if (!actuator_data.torque_sensor.empty() && actuator_data.torque_sensor.size() != transmission_->numActuators())
     {
       throw TransmissionInterfaceException("Actuator torque sensor data size does not match transmission.");
     }
-- 
2.43.0


From d7e152b8b96339d527de7604422c14fa5fa38128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 17/41] fix: reject transmission handles without the data they
 propagate

Handles accepted data without the values of their map (eg. a state handle with
positions only), and the first propagation then dereferenced empty vectors in the
control loop. The same happened with actuators that have an absolute encoder or
torque sensor if the joint data does not provide for it.
---
 .../transmission_interface.h                  | 68 ++++++++++++++++---
 1 file changed, 58 insertions(+), 10 deletions(-)

diff --git a/transmission_interface/include/transmission_interface/transmission_interface.h b/transmission_interface/include/transmission_interface/transmission_interface.h
index 9697cf2..f693568 100644
--- a/transmission_interface/include/transmission_interface/transmission_interface.h
+++ b/transmission_interface/include/transmission_interface/transmission_interface.h
@@ -177,6 +177,26 @@ protected:
 
   }
 
+  /**
+   * \brief Check that the data required by a map is available, to be used by handles that propagate it.
+   * \param actuator_values Actuator-space values of the map.
+   * \param joint_values Joint-space values of the map.
+   * \param value_name Name of the mapped values, used for the error message.
+   */
+  static void checkRequiredData(const std::vector<double*>& actuator_values,
+                                const std::vector<double*>& joint_values,
+                                const std::string&          value_name)
+  {
+    if (actuator_values.empty())
+    {
+      throw TransmissionInterfaceException("Required actuator " + value_name + " data is missing.");
+    }
+    if (joint_values.empty())
+    {
+      throw TransmissionInterfaceException("Required joint " + value_name + " data is missing.");
+    }
+  }
+
 private:
   static bool hasValidPointers(const std::vector<double*>& data)
   {
@@ -199,7 +219,12 @@ public:
                              Transmission*       transmission,
                              const ActuatorData& actuator_data,
                              const JointData&    joint_data)
-    : TransmissionHandle(name, transmission, actuator_data, joint_data) {}
+    : TransmissionHandle(name, transmission, actuator_data, joint_data)
+  {
+    checkRequiredData(actuator_data.position, joint_data.position, "position");
+    checkRequiredData(actuator_data.velocity, joint_data.velocity, "velocity");
+    checkRequiredData(actuator_data.effort, joint_data.effort, "effort");
+  }
 
   /** \name Real-Time Safe Functions
    *\{*/
@@ -210,12 +235,12 @@ public:
     transmission_->actuatorToJointVelocity(actuator_data_, joint_data_);
     transmission_->actuatorToJointEffort(actuator_data_, joint_data_);
 
-    if(!actuator_data_.absolute_position.empty() && transmission_->hasActuatorToJointAbsolutePosition())
+    if(!actuator_data_.absolute_position.empty() && !joint_data_.absolute_position.empty() && transmission_->hasActuatorToJointAbsolutePosition())
     {
        transmission_->actuatorToJointAbsolutePosition(actuator_data_, joint_data_);
     }
 
-    if(!actuator_data_.torque_sensor.empty() && transmission_->hasActuatorToJointTorqueSensor())
+    if(!actuator_data_.torque_sensor.empty() && !joint_data_.torque_sensor.empty() && transmission_->hasActuatorToJointTorqueSensor())
     {
        transmission_->actuatorToJointTorqueSensor(actuator_data_, joint_data_);
     }
@@ -233,7 +258,10 @@ public:
                                 Transmission*       transmission,
                                 const ActuatorData& actuator_data,
                                 const JointData&    joint_data)
-    : TransmissionHandle(name, transmission, actuator_data, joint_data) {}
+    : TransmissionHandle(name, transmission, actuator_data, joint_data)
+  {
+    checkRequiredData(actuator_data.position, joint_data.position, "position");
+  }
 
   /** \name Real-Time Safe Functions
    *\{*/
@@ -252,7 +280,10 @@ public:
                                 Transmission*       transmission,
                                 const ActuatorData& actuator_data,
                                 const JointData&    joint_data)
-    : TransmissionHandle(name, transmission, actuator_data, joint_data) {}
+    : TransmissionHandle(name, transmission, actuator_data, joint_data)
+  {
+    checkRequiredData(actuator_data.velocity, joint_data.velocity, "velocity");
+  }
 
   /** \name Real-Time Safe Functions
    *\{*/
@@ -271,7 +302,10 @@ public:
                               Transmission*       transmission,
                               const ActuatorData& actuator_data,
                               const JointData&    joint_data)
-    : TransmissionHandle(name, transmission, actuator_data, joint_data) {}
+    : TransmissionHandle(name, transmission, actuator_data, joint_data)
+  {
+    checkRequiredData(actuator_data.effort, joint_data.effort, "effort");
+  }
 
   /** \name Real-Time Safe Functions
    *\{*/
@@ -292,7 +326,12 @@ public:
                              Transmission*       transmission,
                              const ActuatorData& actuator_data,
                              const JointData&    joint_data)
-    : TransmissionHandle(name, transmission, actuator_data, joint_data) {}
+    : TransmissionHandle(name, transmission, actuator_data, joint_data)
+  {
+    checkRequiredData(actuator_data.position, joint_data.position, "position");
+    checkRequiredData(actuator_data.velocity, joint_data.velocity, "velocity");
+    checkRequiredData(actuator_data.effort, joint_data.effort, "effort");
+  }
 
   /** \name Real-Time Safe Functions
    *\{*/
@@ -316,7 +355,10 @@ public:
                                 Transmission*       transmission,
                                 const ActuatorData& actuator_data,
                                 const JointData&    joint_data)
-    : TransmissionHandle(name, transmission, actuator_data, joint_data) {}
+    : TransmissionHandle(name, transmission, actuator_data, joint_data)
+  {
+    checkRequiredData(actuator_data.position, joint_data.position, "position");
+  }
 
   /** \name Real-Time Safe Functions
    *\{*/
@@ -335,7 +377,10 @@ public:
                                 Transmission*       transmission,
                                 const ActuatorData& actuator_data,
                                 const JointData&    joint_data)
-    : TransmissionHandle(name, transmission, actuator_data, joint_data) {}
+    : TransmissionHandle(name, transmission, actuator_data, joint_data)
+  {
+    checkRequiredData(actuator_data.velocity, joint_data.velocity, "velocity");
+  }
 
   /** \name Real-Time Safe Functions
    *\{*/
@@ -354,7 +399,10 @@ public:
                               Transmission*       transmission,
                               const ActuatorData& actuator_data,
                               const JointData&    joint_data)
-    : TransmissionHandle(name, transmission, actuator_data, joint_data) {}
+    : TransmissionHandle(name, transmission, actuator_data, joint_data)
+  {
+    checkRequiredData(actuator_data.effort, joint_data.effort, "effort");
+  }
 
   /** \name Real-Time Safe Functions
    *\{*/
-- 
2.43.0


From 7aa7834688761a6afbfa45c2d15ce420ff9090bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 18/41] fix: do not crash on robot descriptions without a root
 element

Parsing a robot description that is a valid XML document but has no element (eg. a
comment) dereferenced a null pointer.
---
 transmission_interface/src/transmission_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transmission_interface/src/transmission_parser.cpp b/transmission_interface/src/transmission_parser.cpp
index 54835a3..81ee477 100644
--- a/transmission_interface/src/transmission_parser.cpp
+++ b/transmission_interface/src/transmission_parser.cpp
@@ -51,6 +51,11 @@ bool TransmissionParser::parse(const std::string& urdf, std::vector<Transmission
 
   // Find joints in transmission tags
   TiXmlElement *root = doc.RootElement();
+  if (!root)
+  {
+    ROS_ERROR("Can't parse transmissions. The robot description has no root element.");
+    return false;
+  }
 
   // Constructs the transmissions by parsing custom xml.
   TiXmlElement *trans_it = nullptr;
-- 
2.43.0


From c4bbafcb982db5b2bc9218845c14785ab9e9ebc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 19/41] fix: load command interfaces on robots that have a
 joint state interface already

The joint state is registered with the joint state interface of the robot, which is
not the one of the loader if the robot (or another loader) provides one, but its
handles were looked up in the latter, which threw to the caller of load().
---
 transmission_interface/src/effort_joint_interface_provider.cpp  | 2 +-
 .../src/position_joint_interface_provider.cpp                   | 2 +-
 .../src/velocity_joint_interface_provider.cpp                   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/transmission_interface/src/effort_joint_interface_provider.cpp b/transmission_interface/src/effort_joint_interface_provider.cpp
index b9ab5b9..9cf7f60 100644
--- a/transmission_interface/src/effort_joint_interface_provider.cpp
+++ b/transmission_interface/src/effort_joint_interface_provider.cpp
@@ -65,7 +65,7 @@ bool EffortJointInterfaceProvider::updateJointInterfaces(const TransmissionInfo&
     // Update hardware interface
     using hardware_interface::JointHandle;
     RawJointData& raw_joint_data = raw_joint_data_map[name];
-    JointHandle handle(joint_interfaces.joint_state_interface.getHandle(joint_info.name_),
+    JointHandle handle(robot_hw->get<hardware_interface::JointStateInterface>()->getHandle(joint_info.name_),
                        &raw_joint_data.effort_cmd);
     interface.registerHandle(handle);
   }
diff --git a/transmission_interface/src/position_joint_interface_provider.cpp b/transmission_interface/src/position_joint_interface_provider.cpp
index d032662..1592bec 100644
--- a/transmission_interface/src/position_joint_interface_provider.cpp
+++ b/transmission_interface/src/position_joint_interface_provider.cpp
@@ -65,7 +65,7 @@ bool PositionJointInterfaceProvider::updateJointInterfaces(const TransmissionInf
     // Update hardware interface
     using hardware_interface::JointHandle;
     RawJointData& raw_joint_data = raw_joint_data_map[name];
-    JointHandle handle(joint_interfaces.joint_state_interface.getHandle(joint_info.name_),
+    JointHandle handle(robot_hw->get<hardware_interface::JointStateInterface>()->getHandle(joint_info.name_),
                        &raw_joint_data.position_cmd);
     interface.registerHandle(handle);
   }
diff --git a/transmission_interface/src/velocity_joint_interface_provider.cpp b/transmission_interface/src/velocity_joint_interface_provider.cpp
index a3cca76..fc4df29 100644
--- a/transmission_interface/src/velocity_joint_interface_provider.cpp
+++ b/transmission_interface/src/velocity_joint_interface_provider.cpp
@@ -65,7 +65,7 @@ bool VelocityJointInterfaceProvider::updateJointInterfaces(const TransmissionInf
     // Update hardware interface
     using hardware_interface::JointHandle;
     RawJointData& raw_joint_data = raw_joint_data_map[name];
-    JointHandle handle(joint_interfaces.joint_state_interface.getHandle(joint_info.name_),
+    JointHandle handle(robot_hw->get<hardware_interface::JointStateInterface>()->getHandle(joint_info.name_),
                        &raw_joint_data.velocity_cmd);
     interface.registerHandle(handle);
   }
-- 
2.43.0


From 116d6129ae52c6fc1bcbae28358ac1baa951685c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:20 +0000
Subject: [PATCH 20/41] fix: report transmission plugin failures as failures of
 the load

TransmissionInterfaceLoader::load() let all exceptions of plugins other than
LibraryLoadException through to its caller (eg. CreateClassException, or those thrown
when handles are registered), ignored the result of registering the transmission, and
asserted on descriptions whose joints have no hardware interface, or read beyond them
if the transmission is not made for their number of joints.
---
 .../src/transmission_interface_loader.cpp     | 39 ++++++++++++++-----
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/transmission_interface/src/transmission_interface_loader.cpp b/transmission_interface/src/transmission_interface_loader.cpp
index 0b86528..62fbaea 100644
--- a/transmission_interface/src/transmission_interface_loader.cpp
+++ b/transmission_interface/src/transmission_interface_loader.cpp
@@ -27,7 +27,7 @@
 
 // C++ standard
 #include <algorithm>
-#include <cassert>
+#include <exception>
 #include <stdexcept>
 
 // ros_control
@@ -81,9 +81,7 @@ bool RequisiteProvider::loadTransmissionMaps(const TransmissionInfo& transmissio
   loader_data.transmission_data.push_back(transmission);
 
   // Register transmission
-  registerTransmission(loader_data, handle_data);
-
-  return true;
+  return registerTransmission(loader_data, handle_data);
 }
 
 TransmissionInterfaceLoader::TransmissionInterfaceLoader(hardware_interface::RobotHW* robot_hw,
@@ -147,9 +145,30 @@ bool TransmissionInterfaceLoader::load(const TransmissionInfo& transmission_info
                            "'. Unsupported type '" << transmission_info.type_ << "'.\n" << ex.what());
     return false;
   }
+  catch(const std::exception& ex)
+  {
+    ROS_ERROR_STREAM_NAMED("parser", "Failed to load transmission '" << transmission_info.name_ <<
+                           "' of type '" << transmission_info.type_ << "'.\n" << ex.what());
+    return false;
+  }
+
+  // The transmission must be made for the actuators and joints of the description
+  if (transmission->numActuators() != transmission_info.actuators_.size() ||
+      transmission->numJoints()    != transmission_info.joints_.size())
+  {
+    ROS_ERROR_STREAM_NAMED("parser", "Failed to load transmission '" << transmission_info.name_ <<
+                           "'. Its number of actuators or joints does not match the type '" <<
+                           transmission_info.type_ << "'.");
+    return false;
+  }
+
+  if (transmission_info.joints_.empty())
+  {
+    ROS_ERROR_STREAM_NAMED("parser", "Failed to load transmission '" << transmission_info.name_ << "'. It has no joints.");
+    return false;
+  }
 
   // We currently only deal with transmissions specifying a single hardware interface in the joints
-  assert(!transmission_info.joints_.empty() && !transmission_info.joints_.front().hardware_interfaces_.empty());
   const std::vector<std::string>& hw_ifaces_ref = transmission_info.joints_.front().hardware_interfaces_; // First joint
   for (const auto& jnt_info : transmission_info.joints_)
   {
@@ -174,18 +193,18 @@ bool TransmissionInterfaceLoader::load(const TransmissionInfo& transmission_info
     {
       req_provider = req_provider_loader_->createUniqueInstance(hw_iface);
       if (!req_provider) {continue;}
+
+      const bool load_ok = req_provider->loadTransmissionMaps(transmission_info, loader_data_, transmission);
+      if (load_ok) {has_at_least_one_hw_iface = true;}
+      else {continue;}
     }
-    catch(pluginlib::LibraryLoadException &ex)
+    catch(const std::exception& ex)
     {
       ROS_WARN_STREAM_NAMED("parser", "Failed to process the '" << hw_iface <<
                              "' hardware interface for transmission '" << transmission_info.name_ <<
                              "'.\n" << ex.what());
       continue;
     }
-
-    const bool load_ok = req_provider->loadTransmissionMaps(transmission_info, loader_data_, transmission);
-    if (load_ok) {has_at_least_one_hw_iface = true;}
-    else {continue;}
   }
 
   if (!has_at_least_one_hw_iface)
-- 
2.43.0


From a1822643b0f0604e3937239c629144641482e86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 21/41] fix: connect joints and actuators to transmissions by
 role

Differential and four-bar linkage transmissions are configured by role (joint1,
joint2, actuator1, actuator2), but their joints and actuators were connected in the
order of their elements in the description. If the two differ, reductions, offsets and
maps were applied to the wrong joints and actuators.
---
 .../src/transmission_interface_loader.cpp     | 39 ++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/transmission_interface/src/transmission_interface_loader.cpp b/transmission_interface/src/transmission_interface_loader.cpp
index 62fbaea..699374f 100644
--- a/transmission_interface/src/transmission_interface_loader.cpp
+++ b/transmission_interface/src/transmission_interface_loader.cpp
@@ -28,7 +28,10 @@
 // C++ standard
 #include <algorithm>
 #include <exception>
+#include <sstream>
 #include <stdexcept>
+#include <string>
+#include <vector>
 
 // ros_control
 #include <transmission_interface/transmission_interface_loader.h>
@@ -37,6 +40,35 @@
 namespace transmission_interface
 {
 
+namespace
+{
+
+// Sort actuators or joints by role (eg. joint1, joint2, ...) like the maps of transmissions that assign roles.
+// Do nothing unless they specify exactly these roles.
+template <class Info>
+void sortByRole(std::vector<Info>& infos, const std::string& role_prefix)
+{
+  std::vector<Info> sorted(infos.size());
+  std::vector<bool> found(infos.size(), false);
+  for (const auto& info : infos)
+  {
+    TiXmlElement element("");
+    std::stringstream element_stream(info.xml_element_);
+    element_stream >> element;
+    const TiXmlElement* role_el = element.FirstChildElement("role");
+    if (!role_el || !role_el->GetText()) {return;}
+
+    std::size_t id = 0;
+    while (id < infos.size() && role_prefix + std::to_string(id + 1) != role_el->GetText()) {++id;}
+    if (id == infos.size() || found[id]) {return;}
+    sorted[id] = info;
+    found[id] = true;
+  }
+  infos = sorted;
+}
+
+} // namespace
+
 bool RequisiteProvider::loadTransmissionMaps(const TransmissionInfo& transmission_info,
                                              TransmissionLoaderData& loader_data,
                                              TransmissionSharedPtr   transmission)
@@ -129,8 +161,13 @@ bool TransmissionInterfaceLoader::load(const std::vector<TransmissionInfo>& tran
   return true;
 }
 
-bool TransmissionInterfaceLoader::load(const TransmissionInfo& transmission_info)
+bool TransmissionInterfaceLoader::load(const TransmissionInfo& unsorted_transmission_info)
 {
+  // The transmission and the data it is given must agree on the order of actuators and joints
+  TransmissionInfo transmission_info = unsorted_transmission_info;
+  sortByRole(transmission_info.actuators_, "actuator");
+  sortByRole(transmission_info.joints_,    "joint");
+
   // Create transmission instance
   TransmissionSharedPtr transmission;
   try
-- 
2.43.0


From 188efdf564d22c9cb5fa0f55e711df2276d646d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:48 +0000
Subject: [PATCH 22/41] fix: keep including cassert where assertions of
 included handles need it

---
 transmission_interface/src/transmission_interface_loader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transmission_interface/src/transmission_interface_loader.cpp b/transmission_interface/src/transmission_interface_loader.cpp
index 699374f..ceb482f 100644
--- a/transmission_interface/src/transmission_interface_loader.cpp
+++ b/transmission_interface/src/transmission_interface_loader.cpp
@@ -27,6 +27,7 @@
 
 // C++ standard
 #include <algorithm>
+#include <cassert>
 #include <exception>
 #include <sstream>
 #include <stdexcept>
-- 
2.43.0


From 2e6bf01990e1ba849d65f4b2ac66b7d2acffad0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:39 +0000
Subject: [PATCH 23/41] fix: let the spawner wait for a topic without a timeout

With --no-timeout (or --timeout 0) timeout is None, and comparing it to the
time waited raises a TypeError in Python 3.
---
 controller_manager/scripts/spawner | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index af1dfaf..62f6960 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -167,7 +167,7 @@ def main():
             if rospy.is_shutdown():
                 return
             if not warned_about_not_hearing_anything:
-                if time.time() - started_waiting > timeout:
+                if timeout is not None and time.time() - started_waiting > timeout:
                     warned_about_not_hearing_anything = True
                     rospy.logwarn("Controller Spawner hasn't heard anything from its \"wait for\" topic (%s)" % \
                                       wait_for_topic)
-- 
2.43.0


From e9d43cc2f2735133bd02493cd8ecf7d8069f2faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:39 +0000
Subject: [PATCH 24/41] fix: read the spawner's YAML files with safe_load

yaml.load() needs a Loader since PyYAML 6.0, so every YAML file crashed the
spawner. The files are plain parameters.
---
 controller_manager/scripts/spawner | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index 62f6960..55c6bf0 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -186,7 +186,7 @@ def main():
             # load yaml file onto the parameter server, using the namespace specified in the yaml file
             rosparam.set_param("",open(name))
             # list the controllers to be loaded
-            name_yaml = yaml.load(open(name))
+            name_yaml = yaml.safe_load(open(name))
             for controller in name_yaml:
                 controllers.append(controller)
         else:
-- 
2.43.0


From ee78c2fc4d965deab8770097f3b2f85162cbcfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:39 +0000
Subject: [PATCH 25/41] fix: end the spawner when it is shut down while waiting
 for /clock

wait_for_service() raises a ROSInterruptException on shutdown, which was
taken for a time-out and retried for as long as there was no clock.
---
 controller_manager/scripts/spawner | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index 55c6bf0..d43701c 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -136,6 +136,8 @@ def main():
             rospy.loginfo("Controller Spawner: Waiting for service "+unload_controller_service)
             rospy.wait_for_service(unload_controller_service, timeout=timeout)
         except rospy.exceptions.ROSException:
+            if rospy.is_shutdown():
+                return
             # If we use sim time, wait for the clock to be published
             if rospy.get_param('/use_sim_time', False) and rospy.get_rostime() == rospy.Time(0):
                 rospy.loginfo("Waiting for /clock to be available...")
-- 
2.43.0


From 1cd8035d8a38cc9874960b8371fce99d77b2f029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:26 +0000
Subject: [PATCH 26/41] fix: take down all controllers of the spawner that can
 be taken down

The controllers were stopped with a strict switch, so that none was stopped,
and none that was running unloaded, if one of them had been unloaded by
somebody else; and a single failing call left all others loaded.
---
 controller_manager/scripts/spawner | 35 +++++++++++++++++-------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index d43701c..a401431 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -54,22 +54,27 @@ def shutdown():
 
     rospy.loginfo("Shutting down spawner. Stopping and unloading controllers...")
 
-    try:
-        # unloader
-        unload_controller = rospy.ServiceProxy(unload_controller_service, UnloadController)
-
-        # switcher
-        switch_controller = rospy.ServiceProxy(switch_controller_service, SwitchController)
-
-        rospy.loginfo("Stopping all controllers...");
-        switch_controller([], loaded, SwitchControllerRequest.STRICT, False, 0.0)
-        rospy.loginfo("Unloading all loaded controllers...");
-        for name in reversed(loaded):
-            rospy.logout("Trying to unload %s" % name)
-            unload_controller(name)
+    # a call that fails does not keep the other controllers from being taken down
+    def try_call(service, *args):
+        try:
+            return service(*args).ok
+        except (rospy.ServiceException, rospy.exceptions.ROSException) as exc:
+            rospy.logwarn("Controller Spawner error while taking down controllers: %s"  % (exc))
+            return False
+
+    # unloader
+    unload_controller = rospy.ServiceProxy(unload_controller_service, UnloadController)
+
+    # switcher
+    switch_controller = rospy.ServiceProxy(switch_controller_service, SwitchController)
+
+    rospy.loginfo("Stopping all controllers...");
+    try_call(switch_controller, [], loaded, SwitchControllerRequest.BEST_EFFORT, False, 0.0)
+    rospy.loginfo("Unloading all loaded controllers...");
+    for name in reversed(loaded):
+        rospy.logout("Trying to unload %s" % name)
+        if try_call(unload_controller, name):
             rospy.logout("Succeeded in unloading %s" % name)
-    except (rospy.ServiceException, rospy.exceptions.ROSException) as exc:
-        rospy.logwarn("Controller Spawner error while taking down controllers: %s"  % (exc))
 
 def parse_args(args=None):
     parser = argparse.ArgumentParser(description='Controller spawner')
-- 
2.43.0


From d0faabac96d308d699764c4d76d79b57a17a0724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:26 +0000
Subject: [PATCH 27/41] fix: take down controllers whose loading or start the
 shutdown interrupts

The shutdown hook runs in the middle of whatever the main thread is doing. It
missed the controller being loaded, and the main thread went on loading and
starting controllers while or after the hook took them down.
---
 controller_manager/scripts/spawner | 69 ++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 23 deletions(-)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index a401431..2c59020 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -32,6 +32,7 @@
 #
 # Author: Stuart Glaser
 
+import threading
 import time
 import rosparam
 
@@ -44,15 +45,27 @@ import argparse
 
 loaded = []
 
+# Set on shutdown, when nothing must be loaded or started anymore. The lock is held during each step of bringing up the
+# controllers, since shutdown() may be called by another thread. When it is called by a signal handler it may interrupt
+# a step, though, for which the lock is reentrant.
+shutting_down = False
+lock = threading.RLock()
+
 # Declare these here so they can be shared between functions
 load_controller_service = ""
 switch_controller_service = ""
 unload_controller_service = ""
 
 def shutdown():
-    global loaded,unload_controller_service,load_controller_service,switch_controller_service
+    global shutting_down
 
     rospy.loginfo("Shutting down spawner. Stopping and unloading controllers...")
+    shutting_down = True
+    with lock:
+        take_down()
+
+def take_down():
+    global loaded,unload_controller_service,load_controller_service,switch_controller_service
 
     # a call that fails does not keep the other controllers from being taken down
     def try_call(service, *args):
@@ -199,28 +212,38 @@ def main():
         else:
             controllers.append(name)
 
-    # load controllers
-    for name in controllers:
-        rospy.loginfo("Loading controller: "+name)
-        resp = load_controller(name)
-        if resp.ok != 0:
-            loaded.append(name)
-        else:
-            time.sleep(1) # give error message a chance to get out
-            rospy.logerr("Failed to load %s" % name)
-
-    rospy.loginfo("Controller Spawner: Loaded controllers: %s" % ', '.join(loaded))
-
-    if rospy.is_shutdown():
-        return
-
-    # start controllers is requested
-    if autostart:
-        resp = switch_controller(loaded, [], 2, False, 0.0)
-        if resp.ok != 0:
-            rospy.loginfo("Started controllers: %s" % ', '.join(loaded))
-        else:
-            rospy.logerr("Failed to start controllers: %s" % ', '.join(loaded))
+    try:
+        # load controllers
+        for name in controllers:
+            rospy.loginfo("Loading controller: "+name)
+            with lock:
+                if shutting_down:
+                    return
+                # If we never get the reply the controller may be loaded, so it has to be taken down too
+                loaded.append(name)
+                resp = load_controller(name)
+                if resp.ok == 0:
+                    loaded.remove(name)
+            if resp.ok == 0:
+                time.sleep(1) # give error message a chance to get out
+                rospy.logerr("Failed to load %s" % name)
+
+        rospy.loginfo("Controller Spawner: Loaded controllers: %s" % ', '.join(loaded))
+
+        # start controllers is requested
+        if autostart:
+            with lock:
+                if shutting_down:
+                    return
+                resp = switch_controller(loaded, [], 2, False, 0.0)
+            if resp.ok != 0:
+                rospy.loginfo("Started controllers: %s" % ', '.join(loaded))
+            else:
+                rospy.logerr("Failed to start controllers: %s" % ', '.join(loaded))
+    finally:
+        # A step interrupted by shutdown() may take effect only after it
+        if shutting_down:
+            take_down()
 
     rospy.spin()
 
-- 
2.43.0


From 66e5a5e0349580e7c7aaa62acc27f0b3ed4647c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:26 +0000
Subject: [PATCH 28/41] fix: do not stop a controller named like the
 unspawner's executable

---
 controller_manager/scripts/unspawner | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/scripts/unspawner b/controller_manager/scripts/unspawner
index 8463d95..3547381 100755
--- a/controller_manager/scripts/unspawner
+++ b/controller_manager/scripts/unspawner
@@ -46,7 +46,7 @@ def main():
     switch_controller.wait_for_service()
     list_controllers.wait_for_service()
 
-    to_inhibit = set(rospy.myargv())
+    to_inhibit = set(rospy.myargv()[1:])
 
     def stop_controllers(*argc):
         to_stop = to_inhibit & set(cs.name for cs in list_controllers().controller if cs.state == 'running')
-- 
2.43.0


From 002b85e1c9c1aed54136443b87736ae077f89c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:26 +0000
Subject: [PATCH 29/41] fix: keep the unspawner working when time jumps back

Without reset, the timer ends with an exception when ROS time moves backwards,
and controllers started from then on are no longer stopped.
---
 controller_manager/scripts/unspawner | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/scripts/unspawner b/controller_manager/scripts/unspawner
index 3547381..81f6324 100755
--- a/controller_manager/scripts/unspawner
+++ b/controller_manager/scripts/unspawner
@@ -58,7 +58,7 @@ def main():
             inhibited.update(to_stop)
 
     stop_controllers()
-    timer = rospy.Timer(rospy.Duration(3), stop_controllers)
+    timer = rospy.Timer(rospy.Duration(3), stop_controllers, reset=True)
 
     def restart_controllers():
         timer.shutdown()
-- 
2.43.0


From 8850e2236a1ae94d3eb3c1c414df785ebdffd206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:26 +0000
Subject: [PATCH 30/41] fix: let the unspawner restart all it stopped, and
 survive failing calls

A failing call ended the timer, or the unspawner itself, and a controller
stopped by a request without a reply was not restarted. On shutdown, a request
to stop controllers could be under way in the timer, or in the main thread if
that was interrupted by a signal, so that they were stopped after having been
restarted, or not restarted at all.
---
 controller_manager/scripts/unspawner | 36 ++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/controller_manager/scripts/unspawner b/controller_manager/scripts/unspawner
index 81f6324..21a526f 100755
--- a/controller_manager/scripts/unspawner
+++ b/controller_manager/scripts/unspawner
@@ -33,6 +33,7 @@
 
 from __future__ import print_function
 import sys
+import threading
 import rospy
 from controller_manager_msgs.srv import *
 
@@ -42,6 +43,8 @@ def main():
     switch_controller = rospy.ServiceProxy('controller_manager/switch_controller', SwitchController)
     list_controllers = rospy.ServiceProxy('controller_manager/list_controllers', ListControllers)
     inhibited = set()
+    shutting_down = [False]
+    lock = threading.Lock()
 
     switch_controller.wait_for_service()
     list_controllers.wait_for_service()
@@ -49,24 +52,37 @@ def main():
     to_inhibit = set(rospy.myargv()[1:])
 
     def stop_controllers(*argc):
-        to_stop = to_inhibit & set(cs.name for cs in list_controllers().controller if cs.state == 'running')
+        with lock:
+            if shutting_down[0]:
+                return
+            try:
+                to_stop = to_inhibit & set(cs.name for cs in list_controllers().controller if cs.state == 'running')
 
-        if to_stop:
-            rospy.logout("Inhibiting controllers: %s" % ', '.join(to_stop))
-            switch_controller(strictness = SwitchControllerRequest.BEST_EFFORT,
-                              stop_controllers = list(to_stop))
-            inhibited.update(to_stop)
+                if to_stop:
+                    rospy.logout("Inhibiting controllers: %s" % ', '.join(to_stop))
+                    # If we never get the reply the controllers may be stopped, so they have to be restarted too
+                    new = to_stop - inhibited
+                    inhibited.update(new)
+                    if not switch_controller(strictness = SwitchControllerRequest.BEST_EFFORT,
+                                             stop_controllers = list(to_stop)).ok:
+                        inhibited.difference_update(new)
+            except (rospy.ServiceException, rospy.ROSException) as exc:
+                rospy.logwarn("Could not inhibit controllers, trying again: %s" % exc)
 
-    stop_controllers()
     timer = rospy.Timer(rospy.Duration(3), stop_controllers, reset=True)
 
     def restart_controllers():
         timer.shutdown()
-        # Re-starts inhibited controllers
-        switch_controller(strictness = SwitchControllerRequest.BEST_EFFORT,
-                          start_controllers = list(inhibited))
+        with lock:
+            shutting_down[0] = True
+            # Re-starts inhibited controllers
+            switch_controller(strictness = SwitchControllerRequest.BEST_EFFORT,
+                              start_controllers = list(inhibited))
 
     rospy.on_shutdown(restart_controllers)
+
+    # Not by the main thread, as that is the one that calls restart_controllers when it gets a signal
+    threading.Thread(target = stop_controllers).start()
     rospy.spin()
 
 def print_help():
-- 
2.43.0


From 2d85d9be5ae63045903f3d24e6f357a7a8188a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:26 +0000
Subject: [PATCH 31/41] fix: match the whole name of the service when looking
 for controller managers

Any service with '/list_controllers' somewhere in its name counted, which
listed managers twice or kept those which were gone, and managers in a
namespace containing it were not found.
---
 controller_manager_msgs/src/controller_manager_msgs/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/controller_manager_msgs/src/controller_manager_msgs/utils.py b/controller_manager_msgs/src/controller_manager_msgs/utils.py
index c41a5ff..94d97f6 100644
--- a/controller_manager_msgs/src/controller_manager_msgs/utils.py
+++ b/controller_manager_msgs/src/controller_manager_msgs/utils.py
@@ -147,8 +147,8 @@ def _sloppy_get_controller_managers(namespace):
     ns_list = []
     for srv_name in srv_list:
         match_str = '/' + _LIST_CONTROLLERS_STR
-        if match_str in srv_name:
-            ns = srv_name.split(match_str)[0]
+        if srv_name.endswith(match_str):
+            ns = srv_name[:-len(match_str)]
             if ns == '':
                 # controller manager services live in root namespace
                 # unlikely, but still possible
-- 
2.43.0


From 6242c2a8dee302fa41937aebcc795f4237eba400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:26 +0000
Subject: [PATCH 32/41] fix: do not fail to list controller managers when a
 node is unreachable

A service whose node has crashed stays registered, and asking for its type
raised a ROSServiceIOException instead of the manager being left out.
---
 .../src/controller_manager_msgs/utils.py                    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/controller_manager_msgs/src/controller_manager_msgs/utils.py b/controller_manager_msgs/src/controller_manager_msgs/utils.py
index 94d97f6..01eb9e1 100644
--- a/controller_manager_msgs/src/controller_manager_msgs/utils.py
+++ b/controller_manager_msgs/src/controller_manager_msgs/utils.py
@@ -170,7 +170,11 @@ def _srv_exists(srv_name, srv_type):
     """
     if not srv_name or not srv_type:
         return False
-    return srv_type == rosservice.get_service_type(srv_name)
+    try:
+        return srv_type == rosservice.get_service_type(srv_name)
+    except rosservice.ROSServiceIOException:
+        # the node providing it, or the master, cannot be reached
+        return False
 
 
 ###############################################################################
-- 
2.43.0


From cb4b84f625192a334777b20c4eed5c355b87c96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 33/41] fix: look up the resources of an interface when they
 are requested

---
 .../hardware_interface/internal/interface_manager.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/hardware_interface/include/hardware_interface/internal/interface_manager.h b/hardware_interface/include/hardware_interface/internal/interface_manager.h
index f057966..5b0ad67 100644
--- a/hardware_interface/include/hardware_interface/internal/interface_manager.h
+++ b/hardware_interface/include/hardware_interface/internal/interface_manager.h
@@ -31,6 +31,7 @@
 #pragma once
 
 
+#include <functional>
 #include <map>
 #include <string>
 #include <vector>
@@ -143,7 +144,13 @@ public:
       ROS_WARN_STREAM("Replacing previously registered interface '" << iface_name << "'.");
     }
     interfaces_[iface_name] = iface;
-    internal::CheckIsResourceManager<T>::callGetResources(resources_[iface_name], iface);
+    // Resources can still be added to the interface after it has been registered, so look them up when they are requested
+    resources_[iface_name] = [iface]()
+    {
+      std::vector<std::string> resources;
+      internal::CheckIsResourceManager<T>::callGetResources(resources, iface);
+      return resources;
+    };
   }
 
   /**
@@ -286,7 +293,7 @@ public:
     ResourceMap::const_iterator it = resources_.find(iface_type);
     if(it != resources_.end())
     {
-      out = it->second;
+      out = it->second();
     }
 
     for (const auto& interface_manager : interface_managers_)
@@ -302,7 +309,7 @@ protected:
   typedef std::map<std::string, void*> InterfaceMap;
   typedef std::vector<InterfaceManager*> InterfaceManagerVector;
   typedef std::map<std::string, size_t> SizeMap;
-  typedef std::map<std::string, std::vector<std::string> > ResourceMap;
+  typedef std::map<std::string, std::function<std::vector<std::string>()> > ResourceMap;
 
   InterfaceMap interfaces_;
   InterfaceMap interfaces_combo_;
-- 
2.43.0


From 6c7d7e08c317a1363397b8cd9993fd66ca4162b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:37 +0000
Subject: [PATCH 34/41] fix: do not report soft limits read incompletely as
 complete

Parameters that exist but cannot be read (wrong type, removed in the
meantime, unreachable parameter server) left the soft limits partly set
while getSoftJointLimits returned true.
---
 .../joint_limits_interface/joint_limits_rosparam.h        | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/joint_limits_interface/include/joint_limits_interface/joint_limits_rosparam.h b/joint_limits_interface/include/joint_limits_interface/joint_limits_rosparam.h
index fae269a..5c81983 100644
--- a/joint_limits_interface/include/joint_limits_interface/joint_limits_rosparam.h
+++ b/joint_limits_interface/include/joint_limits_interface/joint_limits_rosparam.h
@@ -216,12 +216,10 @@ inline bool getSoftJointLimits(const std::string& joint_name, const ros::NodeHan
   bool has_soft_limits;
   if(limits_nh.getParam("has_soft_limits", has_soft_limits))
   {
-    if(has_soft_limits && limits_nh.hasParam("k_position") && limits_nh.hasParam("k_velocity") && limits_nh.hasParam("soft_lower_limit") && limits_nh.hasParam("soft_upper_limit"))
+    SoftJointLimits limits;
+    if(has_soft_limits && limits_nh.getParam("k_position", limits.k_position) && limits_nh.getParam("k_velocity", limits.k_velocity) && limits_nh.getParam("soft_lower_limit", limits.min_position) && limits_nh.getParam("soft_upper_limit", limits.max_position))
     {
-      limits_nh.getParam("k_position", soft_limits.k_position);
-      limits_nh.getParam("k_velocity", soft_limits.k_velocity);
-      limits_nh.getParam("soft_lower_limit", soft_limits.min_position);
-      limits_nh.getParam("soft_upper_limit", soft_limits.max_position);
+      soft_limits = limits;
       return true;
     }
   }
-- 
2.43.0


From be46f651194820e6873d029c93b30b4b0194ce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:37 +0000
Subject: [PATCH 35/41] fix: ask for the resize mode of header sections with
 the name of Qt 5

QHeaderView.resizeMode was removed in Qt 5, whose widgets the plugin
imports: the header's context menu raised AttributeError.
---
 .../src/rqt_controller_manager/controller_manager.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
index 97448f7..9dd545e 100644
--- a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
+++ b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
@@ -320,7 +320,7 @@ class ControllerManager(Plugin):
 
         # Evaluate user action
         if action is action_toggle_auto_resize:
-            if header.resizeMode(0) == QHeaderView.ResizeToContents:
+            if header.sectionResizeMode(0) == QHeaderView.ResizeToContents:
                 header.setSectionResizeMode(QHeaderView.Interactive)
             else:
                 header.setSectionResizeMode(QHeaderView.ResizeToContents)
-- 
2.43.0


From 6c1ca3cf759cebba857f5b79f4b04389809426c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:37 +0000
Subject: [PATCH 36/41] fix: show and offer actions for controllers in all
 states

Controllers that are waiting or aborted had no icon, which raised an
exception whenever the table was drawn, and aborted ones no menu.
---
 .../src/rqt_controller_manager/controller_manager.py     | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
index 9dd545e..89ab287 100644
--- a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
+++ b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
@@ -103,7 +103,10 @@ class ControllerManager(Plugin):
         self._icons = {'running': QIcon(path + '/resource/led_green.png'),
                        'stopped': QIcon(path + '/resource/led_red.png'),
                        'uninitialized': QIcon(path + '/resource/led_off.png'),
-                       'initialized': QIcon(path + '/resource/led_red.png')}
+                       'initialized': QIcon(path + '/resource/led_red.png'),
+                       'waiting': QIcon(path + '/resource/led_red.png'),
+                       'aborted': QIcon(path + '/resource/led_red.png'),
+                       'unknown': QIcon(path + '/resource/led_off.png')}
 
         # Controllers display
         table_view = self._widget.table_view
@@ -252,7 +255,7 @@ class ControllerManager(Plugin):
             action_stop = menu.addAction(self._icons['stopped'], 'Stop')
             action_kill = menu.addAction(self._icons['uninitialized'],
                                          'Stop and Unload')
-        elif ctrl.state == 'stopped':
+        elif ctrl.state == 'stopped' or ctrl.state == 'aborted':
             action_start = menu.addAction(self._icons['running'],
                                           'Start again')
             action_unload = menu.addAction(self._icons['uninitialized'],
@@ -275,7 +278,7 @@ class ControllerManager(Plugin):
             elif action is action_kill:
                 self._stop_controller(ctrl.name)
                 self._unload_controller(ctrl.name)
-        elif ctrl.state == 'stopped' or ctrl.state == 'initialized':
+        elif ctrl.state in ('stopped', 'aborted', 'initialized'):
             if action is action_start:
                 self._start_controller(ctrl.name)
             elif action is action_unload:
-- 
2.43.0


From 74e7f7478be05615443037e1706d4831290746dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:37 +0000
Subject: [PATCH 37/41] fix: accept controller types that are not strings in
 the parameter server

A number made the serialization of the controller's type and its display
raise an exception.
---
 .../src/rqt_controller_manager/controller_manager.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
index 89ab287..0107de3 100644
--- a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
+++ b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
@@ -473,4 +473,4 @@ def _rosparam_controller_type(ctrls_ns, ctrl_name):
     @rtype str
     """
     type_param = _append_ns(ctrls_ns, ctrl_name) + '/type'
-    return rospy.get_param(type_param)
+    return str(rospy.get_param(type_param))
-- 
2.43.0


From 179aba8518541681a4669d9a267f184707eaf9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:37 +0000
Subject: [PATCH 38/41] fix: keep the plugin alive when requests to the
 controller manager fail

The persistent connections stayed broken after the manager restarted, and
their exceptions went through the Qt event loop. A menu left open while
the manager went away called None.
---
 .../controller_manager.py                     | 56 ++++++++++---------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
index 0107de3..955938c 100644
--- a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
+++ b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
@@ -181,21 +181,17 @@ class ControllerManager(Plugin):
 
     def _set_cm_services(self, cm_ns):
         if cm_ns:
-            # NOTE: Persistent services are used for performance reasons.
-            # If the controller manager dies, we detect it and disconnect from
-            # it anyway
+            # NOTE: These services are not persistent, as the connection would
+            # stay broken if the controller manager is restarted unnoticed
             load_srv_name = _append_ns(cm_ns, 'load_controller')
             self._load_srv = rospy.ServiceProxy(load_srv_name,
-                                                LoadController,
-                                                persistent=True)
+                                                LoadController)
             unload_srv_name = _append_ns(cm_ns, 'unload_controller')
             self._unload_srv = rospy.ServiceProxy(unload_srv_name,
-                                                  UnloadController,
-                                                  persistent=True)
+                                                  UnloadController)
             switch_srv_name = _append_ns(cm_ns, 'switch_controller')
             self._switch_srv = rospy.ServiceProxy(switch_srv_name,
-                                                  SwitchController,
-                                                  persistent=True)
+                                                  SwitchController)
         else:
             self._load_srv = None
             self._unload_srv = None
@@ -271,24 +267,32 @@ class ControllerManager(Plugin):
 
         action = menu.exec_(self._widget.table_view.mapToGlobal(pos))
 
+        if not self._cm_ns:
+            return  # Controller manager went away while the menu was open
+
         # Evaluate user action
-        if ctrl.state == 'running':
-            if action is action_stop:
-                self._stop_controller(ctrl.name)
-            elif action is action_kill:
-                self._stop_controller(ctrl.name)
-                self._unload_controller(ctrl.name)
-        elif ctrl.state in ('stopped', 'aborted', 'initialized'):
-            if action is action_start:
-                self._start_controller(ctrl.name)
-            elif action is action_unload:
-                self._unload_controller(ctrl.name)
-        elif ctrl.state == 'uninitialized':
-            if action is action_load:
-                self._load_controller(ctrl.name)
-            if action is action_spawn:
-                self._load_controller(ctrl.name)
-                self._start_controller(ctrl.name)
+        try:
+            if ctrl.state == 'running':
+                if action is action_stop:
+                    self._stop_controller(ctrl.name)
+                elif action is action_kill:
+                    self._stop_controller(ctrl.name)
+                    self._unload_controller(ctrl.name)
+            elif ctrl.state in ('stopped', 'aborted', 'initialized'):
+                if action is action_start:
+                    self._start_controller(ctrl.name)
+                elif action is action_unload:
+                    self._unload_controller(ctrl.name)
+            elif ctrl.state == 'uninitialized':
+                if action is action_load:
+                    self._load_controller(ctrl.name)
+                if action is action_spawn:
+                    self._load_controller(ctrl.name)
+                    self._start_controller(ctrl.name)
+        except (rospy.ServiceException, rospy.ROSException,
+                rospy.exceptions.TransportException) as ex:
+            rospy.logerr('Request for controller %s failed: %s' %
+                         (ctrl.name, ex))
 
     def _on_ctrl_info(self, index):
         popup = self._popup_widget
-- 
2.43.0


From 8af8c0a931835d666c525f619ce3c52a677bd223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:37 +0000
Subject: [PATCH 39/41] fix: tolerate an unreachable parameter server while
 listing controllers

Also a parameter removed between listing and reading it raised through the
Qt event loop.
---
 .../controller_manager.py                     | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
index 955938c..67f0a5a 100644
--- a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
+++ b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
@@ -26,6 +26,8 @@
 # POSSIBILITY OF SUCH DAMAGE.
 
 import os
+import socket
+import rosparam
 import rospkg
 import rospy
 
@@ -222,14 +224,20 @@ class ControllerManager(Plugin):
 
         # Append potential controller configs found in the parameter server
         all_ctrls_ns = _resolve_controllers_ns(self._cm_ns)
-        for name in get_rosparam_controller_names(all_ctrls_ns):
-            add_ctrl = not any(name == ctrl.name for ctrl in controllers)
-            if add_ctrl:
-                type_str = _rosparam_controller_type(all_ctrls_ns, name)
-                uninit_ctrl = ControllerState(name=name,
-                                              type=type_str,
-                                              state='uninitialized')
-                controllers.append(uninit_ctrl)
+        try:
+            for name in get_rosparam_controller_names(all_ctrls_ns):
+                add_ctrl = not any(name == ctrl.name for ctrl in controllers)
+                if add_ctrl:
+                    try:
+                        type_str = _rosparam_controller_type(all_ctrls_ns, name)
+                    except KeyError:
+                        continue  # Removed in the meantime
+                    uninit_ctrl = ControllerState(name=name,
+                                                  type=type_str,
+                                                  state='uninitialized')
+                    controllers.append(uninit_ctrl)
+        except (rosparam.RosParamIOException, socket.error):
+            pass  # The parameter server cannot be reached
         return controllers
 
     def _show_controllers(self):
-- 
2.43.0


From 9c31394bbbcc948dd3699026b104c1c20200875c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:03 +0000
Subject: [PATCH 40/41] fix: keep combined interfaces up to date with their
 parts

The combined interface handed out for several interfaces of a type was a
copy of their handles made at the first request. It went on handing out
the handles of interfaces and resources that had been replaced since, and
did not know those added since. Renew the handles on every request.
---
 .../hardware_interface/internal/interface_manager.h    | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hardware_interface/include/hardware_interface/internal/interface_manager.h b/hardware_interface/include/hardware_interface/internal/interface_manager.h
index 5b0ad67..0f66142 100644
--- a/hardware_interface/include/hardware_interface/internal/interface_manager.h
+++ b/hardware_interface/include/hardware_interface/internal/interface_manager.h
@@ -34,6 +34,7 @@
 #include <functional>
 #include <map>
 #include <string>
+#include <utility>
 #include <vector>
 
 #include <ros/console.h>
@@ -56,7 +57,10 @@ struct CheckIsResourceManager {
   {
     // We have to typecast back to base class
     std::vector<typename C::ResourceManagerType*> managers_in(managers.begin(), managers.end());
-    C::concatManagers(managers_in, result);
+    typename C::ResourceManagerType combined;
+    C::concatManagers(managers_in, &combined);
+    // Replace the resources only: what has been claimed through the result stays claimed
+    static_cast<typename C::ResourceManagerType&>(*result) = std::move(combined);
   }
 
   // method called if C is not a ResourceManager
@@ -224,9 +228,9 @@ public:
     if(it_combo != interfaces_combo_.end() &&
         num_ifaces_registered_[type_name] == iface_list.size()) {
       // there exists a combined interface with the same number of interfaces combined
-      // (since you cannot unregister interfaces, this will be guaranteed to be the
-      //  same interfaces from previous calls)
       iface_combo = static_cast<T*>(it_combo->second);
+      // interfaces can be replaced and resources can be added after they have been combined
+      internal::CheckIsResourceManager<T>::callConcatManagers(iface_list, iface_combo);
     } else {
       // no existing combined interface
       iface_combo = internal::CheckIsResourceManager<T>::newCombinedInterface(interface_destruction_list_);
-- 
2.43.0


From 0df1bc12bf53f60d6a880630caa2492eec4717e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:23 +0000
Subject: [PATCH 41/41] fix: go on with a switch when the robot hardware throws
 in the realtime loop

The status of the request stayed at executing, so that the switch was never carried out and switchController() waited for ever, even when the node was shut down.
---
 controller_manager/src/controller_manager.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index ab0d56f..a406ecf 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -93,7 +93,16 @@ void ControllerManager::update(const ros::Time& time, const ros::Duration& perio
   SwitchStatus requested = SwitchStatus::REQUESTED;
   if (switch_status_.compare_exchange_strong(requested, SwitchStatus::EXECUTING))
   {
-    manageSwitch(time);
+    try
+    {
+      manageSwitch(time);
+    }
+    catch (...)
+    {
+      // the robot hardware or a controller failed, go on with the switch in the next cycle
+      switch_status_ = SwitchStatus::REQUESTED;
+      throw;
+    }
     switch_status_ = switch_params_.do_switch ? SwitchStatus::REQUESTED : SwitchStatus::IDLE;
   }
 }
-- 
2.43.0

