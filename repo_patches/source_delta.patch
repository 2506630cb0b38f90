From 530707f5688bf5b40623e269d1586e3417f37ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 01/56] fix: never run error handling of a finalized hardware
 component

HardwareComponent::error() called on_error() again for a component that was already
finalized, and a SUCCESS result moved it back to unconfigured.
---
 hardware_interface/src/hardware_component.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/src/hardware_component.cpp b/hardware_interface/src/hardware_component.cpp
index ac579ff..1efdad8 100644
--- a/hardware_interface/src/hardware_component.cpp
+++ b/hardware_interface/src/hardware_component.cpp
@@ -223,7 +223,8 @@ const rclcpp_lifecycle::State & HardwareComponent::error()
   impl_->enable_introspection(false);
   if (
     impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_UNKNOWN &&
-    impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED)
+    impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED &&
+    impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_FINALIZED)
   {
     impl_->pause_async_operations();
     switch (impl_->on_error(impl_->get_lifecycle_state()))
-- 
2.43.0


From 95e2b9362de3d35e084cb22751d13b6e37bd3c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 02/56] fix: propagate exceptions from read and write to the
 hardware group

The group state was only updated when read()/write() returned; if it threw, the other members
of the group were not taken into error handling.
---
 hardware_interface/src/resource_manager.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 6da74e5..c630b4f 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -2456,9 +2456,6 @@ HardwareReadWriteStatus ResourceManager::read(
           hardware_component_info.read_statistics->periodicity.update_statistics(
             read_statistics_collector.periodicity);
         }
-        const auto component_group = component.get_group_name();
-        ret_val =
-          resource_storage_->update_hardware_component_group_state(component_group, ret_val);
       }
       catch (const std::exception & e)
       {
@@ -2476,6 +2473,9 @@ HardwareReadWriteStatus ResourceManager::read(
         handle_exceptions ? void() : throw;
         ret_val = return_type::ERROR;
       }
+      // also for exceptions, so that they are propagated to the group of the component
+      ret_val = resource_storage_->update_hardware_component_group_state(
+        component.get_group_name(), ret_val);
       RCLCPP_WARN_EXPRESSION(
         get_logger(), ret_val == hardware_interface::return_type::DEACTIVATE,
         "DEACTIVATE returned from read cycle is treated the same as ERROR.");
@@ -2558,9 +2558,6 @@ HardwareReadWriteStatus ResourceManager::write(
           hardware_component_info.write_statistics->periodicity.update_statistics(
             write_statistics_collector.periodicity);
         }
-        const auto component_group = component.get_group_name();
-        ret_val =
-          resource_storage_->update_hardware_component_group_state(component_group, ret_val);
       }
       catch (const std::exception & e)
       {
@@ -2578,6 +2575,9 @@ HardwareReadWriteStatus ResourceManager::write(
         handle_exceptions ? void() : throw;
         ret_val = return_type::ERROR;
       }
+      // also for exceptions, so that they are propagated to the group of the component
+      ret_val = resource_storage_->update_hardware_component_group_state(
+        component.get_group_name(), ret_val);
       if (ret_val == return_type::ERROR)
       {
         component.error();
-- 
2.43.0


From 6bc51ac98b29d9b84da22026b166d48d14ea48f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 03/56] fix: keep the ERROR result of a write cycle in which
 another component deactivates

A later component returning DEACTIVATE replaced the ERROR result, so the controllers that only
read state interfaces of the failed hardware were not deactivated.
---
 hardware_interface/src/resource_manager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index c630b4f..d6bc469 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -2590,7 +2590,11 @@ HardwareReadWriteStatus ResourceManager::write(
         rclcpp_lifecycle::State inactive_state(
           lifecycle_msgs::msg::State::PRIMARY_STATE_INACTIVE, lifecycle_state_names::INACTIVE);
         set_component_state(component_name, inactive_state);
-        read_write_status.result = ret_val;
+        // an error of another component in the same cycle takes precedence
+        if (read_write_status.result != return_type::ERROR)
+        {
+          read_write_status.result = ret_val;
+        }
         if (return_failed_hardware_names_on_return_deactivate_write_cycle_)
         {
           read_write_status.failed_hardware_names.push_back(component_name);
-- 
2.43.0


From 6dc58cde2926ea6463656c7e21316ba89a1a88ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 04/56] fix: withdraw interfaces of hardware whose transition
 ended in error handling

When activate, deactivate, cleanup or shutdown failed and error handling moved the component to
unconfigured or finalized, its interfaces stayed in the available lists.
---
 hardware_interface/src/resource_manager.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index d6bc469..97f54f1 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -673,6 +673,13 @@ public:
         }
         break;
     }
+    // a failed transition can end, through error handling, in a state without interfaces on offer
+    if (
+      !result && (hardware.get_lifecycle_id() == State::PRIMARY_STATE_UNCONFIGURED ||
+                  hardware.get_lifecycle_id() == State::PRIMARY_STATE_FINALIZED))
+    {
+      remove_all_hardware_interfaces_from_available_list(hardware.get_name());
+    }
     if (on_component_state_switch_callback_)
     {
       on_component_state_switch_callback_();
-- 
2.43.0


From e2047648231c2899ae2273e3de56ff2865c8788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 05/56] fix: do not configure unconfigured group members on a
 DEACTIVATE of another member

Requesting INACTIVE for every member of the group configured those members that were
unconfigured.
---
 hardware_interface/src/resource_manager.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 97f54f1..bbe42f1 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -2594,9 +2594,13 @@ HardwareReadWriteStatus ResourceManager::write(
       }
       else if (ret_val == return_type::DEACTIVATE)
       {
-        rclcpp_lifecycle::State inactive_state(
-          lifecycle_msgs::msg::State::PRIMARY_STATE_INACTIVE, lifecycle_state_names::INACTIVE);
-        set_component_state(component_name, inactive_state);
+        // only active components can be deactivated, the others of a group keep their state
+        if (component.get_lifecycle_id() == lifecycle_msgs::msg::State::PRIMARY_STATE_ACTIVE)
+        {
+          rclcpp_lifecycle::State inactive_state(
+            lifecycle_msgs::msg::State::PRIMARY_STATE_INACTIVE, lifecycle_state_names::INACTIVE);
+          set_component_state(component_name, inactive_state);
+        }
         // an error of another component in the same cycle takes precedence
         if (read_write_status.result != return_type::ERROR)
         {
-- 
2.43.0


From cbb0de58448d519a25b1e4ec0eb2fb505ce38267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:34 +0000
Subject: [PATCH 06/56] fix: sort controllers behind all of their preceding
 controllers

---
 controller_manager/src/controller_manager.cpp | 27 +++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 32d3e5d..dadf384 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1791,6 +1791,33 @@ controller_interface::return_type ControllerManager::configure_controller(
     }
   }
 
+  // The insertion above looks at direct neighbours only, so a controller may still be placed before
+  // one of its preceding controllers. Pick the first controller without pending preceding ones.
+  std::vector<std::string> pending_names = ordered_controllers_names_;
+  ordered_controllers_names_.clear();
+  while (!pending_names.empty())
+  {
+    auto next_it = std::find_if(
+      pending_names.begin(), pending_names.end(),
+      [&](const std::string & name)
+      {
+        const auto & preceding = controller_chain_spec_[name].preceding_controllers;
+        return std::none_of(
+          preceding.begin(), preceding.end(),
+          [&](const std::string & preceding_name)
+          {
+            return preceding_name != name &&
+                   ros2_control::has_item(pending_names, preceding_name);
+          });
+      });
+    if (next_it == pending_names.end())
+    {
+      next_it = pending_names.begin();
+    }
+    ordered_controllers_names_.push_back(*next_it);
+    pending_names.erase(next_it);
+  }
+
   std::vector<ControllerSpec> new_list;
   for (const auto & ctrl : ordered_controllers_names_)
   {
-- 
2.43.0


From d36529a6074471e2b15a018e582a6047a6f4dca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:32 +0000
Subject: [PATCH 07/56] fix: withdraw exported interfaces of controllers that
 were not activated

---
 .../controller_manager/controller_manager.hpp |  8 ++++
 controller_manager/src/controller_manager.cpp | 40 ++++++++++++++++---
 2 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 2174ea0..a74a112 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -395,6 +395,14 @@ private:
    */
   void clear_requests();
 
+  /**
+   * Make the interfaces exported by a controller that is inactive unavailable.
+   *
+   * \param[in] controller_name name of the controller exporting the interfaces.
+   */
+  void make_exported_interfaces_of_inactive_controller_unavailable(
+    const std::string & controller_name);
+
   /**
    * Perform hardware command mode change for the given list of controllers to activate and
    * deactivate.
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index dadf384..277bad6 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1863,6 +1863,11 @@ controller_interface::return_type ControllerManager::configure_controller(
 
 void ControllerManager::clear_requests()
 {
+  // interfaces of controllers that have not been activated in the end are not available
+  for (const auto & controller_name : switch_params_.activate_request)
+  {
+    make_exported_interfaces_of_inactive_controller_unavailable(controller_name);
+  }
   switch_params_.do_switch = false;
   switch_params_.ready_to_switch = false;
   switch_params_.activate_asap = false;
@@ -1874,6 +1879,24 @@ void ControllerManager::clear_requests()
   switch_params_.deactivate_command_interface_request.clear();
 }
 
+void ControllerManager::make_exported_interfaces_of_inactive_controller_unavailable(
+  const std::string & controller_name)
+{
+  std::lock_guard<RTControllerListWrapper::controllers_lock_type> guard(
+    rt_controllers_wrapper_.controllers_lock_);
+  const std::vector<ControllerSpec> & controllers = rt_controllers_wrapper_.get_updated_list(guard);
+  auto controller_it = std::find_if(
+    controllers.begin(), controllers.end(),
+    std::bind(controller_name_compare, std::placeholders::_1, controller_name));
+  if (
+    controller_it != controllers.end() && controller_it->c->is_chainable() &&
+    is_controller_inactive(controller_it->c))
+  {
+    resource_manager_->make_controller_exported_state_interfaces_unavailable(controller_name);
+    resource_manager_->make_controller_reference_interfaces_unavailable(controller_name);
+  }
+}
+
 controller_interface::return_type ControllerManager::switch_controller(
   const std::vector<std::string> & activate_controllers,
   const std::vector<std::string> & deactivate_controllers, int strictness, bool activate_asap,
@@ -2262,12 +2285,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
       {
         message = msg;
         RCLCPP_ERROR(get_logger(), "%s", msg.c_str());
-        switch_params_.deactivate_request.clear();
-        switch_params_.deactivate_command_interface_request.clear();
-        switch_params_.activate_request.clear();
-        switch_params_.activate_command_interface_request.clear();
-        switch_params_.to_chained_mode_request.clear();
-        switch_params_.from_chained_mode_request.clear();
+        clear_requests();
         return controller_interface::return_type::ERROR;
       }
       RCLCPP_WARN(get_logger(), "%s", msg.c_str());
@@ -2747,6 +2765,11 @@ void ControllerManager::activate_controllers(
     if (!assignment_successful)
     {
       is_successful = false;
+      if (controller->is_chainable())
+      {
+        resource_manager_->make_controller_exported_state_interfaces_unavailable(controller_name);
+        resource_manager_->make_controller_reference_interfaces_unavailable(controller_name);
+      }
       continue;
     }
 
@@ -2775,6 +2798,11 @@ void ControllerManager::activate_controllers(
     if (!assignment_successful)
     {
       is_successful = false;
+      if (controller->is_chainable())
+      {
+        resource_manager_->make_controller_exported_state_interfaces_unavailable(controller_name);
+        resource_manager_->make_controller_reference_interfaces_unavailable(controller_name);
+      }
       continue;
     }
     controller->assign_interfaces(std::move(command_loans), std::move(state_loans));
-- 
2.43.0


From 7e5f64c55d6b737bf835dbdc52482614f7f12a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:57 +0000
Subject: [PATCH 08/56] fix: refuse to activate a controller whose following
 controller is not inactive

---
 controller_manager/src/controller_manager.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 277bad6..22f82df 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -4039,6 +4039,16 @@ controller_interface::return_type ControllerManager::check_following_controllers
       RCLCPP_WARN(get_logger(), "%s", message.c_str());
       return controller_interface::return_type::ERROR;
     }
+    else if (!is_controller_inactive(following_ctrl_it->c))
+    {
+      message = fmt::format(
+        FMT_COMPILE(
+          "The following controller with name '{}' is requested to be activated but it is not in "
+          "'inactive' state."),
+        following_ctrl_it->info.name);
+      RCLCPP_WARN(get_logger(), "%s", message.c_str());
+      return controller_interface::return_type::ERROR;
+    }
 
     // Trigger recursion to check all the following controllers only if they are OK, add this
     // controller update chained mode requests
-- 
2.43.0


From 4518fa91346237c7e0b00a7eb2329fa349245026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:06 +0000
Subject: [PATCH 09/56] fix: do not try to activate controllers that are not
 configured

---
 controller_manager/src/controller_manager.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 22f82df..a157707 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2697,7 +2697,9 @@ void ControllerManager::activate_controllers(
       std::bind(controller_name_compare, std::placeholders::_1, controller_name));
     if (found_it != rt_controller_list.end())
     {
-      if (found_it->c->is_chainable())
+      if (
+        found_it->c->is_chainable() &&
+        (is_controller_inactive(found_it->c) || is_controller_active(found_it->c)))
       {
         RCLCPP_DEBUG(
           get_logger(),
@@ -2723,6 +2725,15 @@ void ControllerManager::activate_controllers(
       continue;
     }
     auto controller = found_it->c;
+    if (!is_controller_inactive(controller) && !is_controller_active(controller))
+    {
+      RCLCPP_ERROR(
+        get_logger(),
+        "Got request to activate controller '%s' but it is neither in inactive nor in active state",
+        controller_name.c_str());
+      is_successful = false;
+      continue;
+    }
     // reset the last update cycle time for newly activated controllers
     *found_it->last_update_cycle_time =
       rclcpp::Time(0, 0, this->get_trigger_clock()->get_clock_type());
-- 
2.43.0


From 4debadf78bd9274966cfefe61f03f4f25c149487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:29 +0000
Subject: [PATCH 10/56] fix: check the remaining controllers of a best-effort
 switch again after one was dropped

---
 controller_manager/src/controller_manager.cpp | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index a157707..1829d09 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2094,7 +2094,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
 
   // check if controllers should be switched 'to' chained mode when controllers are activated
   for (auto ctrl_it = switch_params_.activate_request.begin();
-       ctrl_it != switch_params_.activate_request.end(); ++ctrl_it)
+       ctrl_it != switch_params_.activate_request.end();)
   {
     auto controller_it = std::find_if(
       controllers.begin(), controllers.end(),
@@ -2160,11 +2160,12 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         // TODO(destogl): automatic manipulation of the chain:
         // || strictness ==
         //  controller_manager_msgs::srv::SwitchController::Request::MANIPULATE_CONTROLLERS_CHAIN);
-        // remove controller that can not be activated from the activation request and step-back
-        // iterator to correctly step to the next element in the list in the loop
+        // remove controller that can not be activated from the activation request and check the
+        // others again, as they may have relied on its activation
         switch_params_.activate_request.erase(ctrl_it);
         message.clear();
-        --ctrl_it;
+        ctrl_it = switch_params_.activate_request.begin();
+        continue;
       }
       if (strictness == controller_manager_msgs::srv::SwitchController::Request::STRICT)
       {
@@ -2174,11 +2175,12 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         return controller_interface::return_type::ERROR;
       }
     }
+    ++ctrl_it;
   }
 
   // check if controllers should be deactivated if used in chained mode
   for (auto ctrl_it = switch_params_.deactivate_request.begin();
-       ctrl_it != switch_params_.deactivate_request.end(); ++ctrl_it)
+       ctrl_it != switch_params_.deactivate_request.end();)
   {
     auto controller_it = std::find_if(
       controllers.begin(), controllers.end(),
@@ -2210,11 +2212,12 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         (*ctrl_it).c_str());
       if (strictness == controller_manager_msgs::srv::SwitchController::Request::BEST_EFFORT)
       {
-        // remove controller that can not be activated from the activation request and step-back
-        // iterator to correctly step to the next element in the list in the loop
+        // remove controller that can not be deactivated from the deactivation request and check the
+        // others again, as they may have relied on its deactivation
         switch_params_.deactivate_request.erase(ctrl_it);
         message.clear();
-        --ctrl_it;
+        ctrl_it = switch_params_.deactivate_request.begin();
+        continue;
       }
       if (strictness == controller_manager_msgs::srv::SwitchController::Request::STRICT)
       {
@@ -2224,6 +2227,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         return controller_interface::return_type::ERROR;
       }
     }
+    ++ctrl_it;
   }
 
   // Check after the check if the activate and deactivate list is empty or not
-- 
2.43.0


From 7165b1aefc865c00d055a5e1fe622e3634bb34da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:07 +0000
Subject: [PATCH 11/56] fix: check the following controllers of a controller
 that is restarted

---
 controller_manager/src/controller_manager.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 1829d09..218851a 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2125,6 +2125,12 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         RCLCPP_WARN(get_logger(), "%s", message.c_str());
         status = controller_interface::return_type::ERROR;
       }
+      else
+      {
+        // the controller is restarted
+        status =
+          check_following_controllers_for_activate(controllers, strictness, controller_it, message);
+      }
     }
     else if (!is_controller_inactive(controller_it->c))
     {
@@ -4013,11 +4019,14 @@ controller_interface::return_type ControllerManager::check_following_controllers
 
     if (is_controller_active(following_ctrl_it->c))
     {
-      // will following controller be deactivated?
+      // will following controller be deactivated (and not activated again)?
       if (
         std::find(
           switch_params_.deactivate_request.begin(), switch_params_.deactivate_request.end(),
-          following_ctrl_it->info.name) != switch_params_.deactivate_request.end())
+          following_ctrl_it->info.name) != switch_params_.deactivate_request.end() &&
+        std::find(
+          switch_params_.activate_request.begin(), switch_params_.activate_request.end(),
+          following_ctrl_it->info.name) == switch_params_.activate_request.end())
       {
         if (
           (ros2_control::has_item(controller_state_interfaces, ctrl_itf_name) &&
-- 
2.43.0


From b80132eefc28624e40e0d3eaee26d949ea94b70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:33 +0000
Subject: [PATCH 12/56] fix: derive chained mode requests from the controllers
 active after the switch

---
 .../controller_manager/controller_manager.hpp |  8 ++
 controller_manager/src/controller_manager.cpp | 81 +++++++++++++++++++
 2 files changed, 89 insertions(+)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index a74a112..23710bd 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -427,6 +427,14 @@ private:
    */
   void propagate_deactivation_of_chained_mode(const std::vector<ControllerSpec> & controllers);
 
+  /**
+   * Derive the 'to' and 'from' chained mode requests from the controllers that will be active after
+   * the switch: a controller is in chained mode if any of them uses its reference interfaces.
+   *
+   * \param[in] controllers list with controllers.
+   */
+  void update_chained_mode_requests(const std::vector<ControllerSpec> & controllers);
+
   /// Check if all the following controllers will be in active state and in the chained mode
   /// after controllers' switch.
   /**
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 218851a..f12579a 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2092,6 +2092,19 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
   // chained mode
   propagate_deactivation_of_chained_mode(controllers);
 
+  // the interfaces exported by the controllers to activate are at the disposal of the others,
+  // whatever the kind of their interface configuration
+  for (const auto & controller : controllers)
+  {
+    if (
+      ros2_control::has_item(switch_params_.activate_request, controller.info.name) &&
+      controller.c->is_chainable() && is_controller_inactive(controller.c))
+    {
+      resource_manager_->make_controller_exported_state_interfaces_available(controller.info.name);
+      resource_manager_->make_controller_reference_interfaces_available(controller.info.name);
+    }
+  }
+
   // check if controllers should be switched 'to' chained mode when controllers are activated
   for (auto ctrl_it = switch_params_.activate_request.begin();
        ctrl_it != switch_params_.activate_request.end();)
@@ -2168,6 +2181,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         //  controller_manager_msgs::srv::SwitchController::Request::MANIPULATE_CONTROLLERS_CHAIN);
         // remove controller that can not be activated from the activation request and check the
         // others again, as they may have relied on its activation
+        make_exported_interfaces_of_inactive_controller_unavailable(*ctrl_it);
         switch_params_.activate_request.erase(ctrl_it);
         message.clear();
         ctrl_it = switch_params_.activate_request.begin();
@@ -2246,6 +2260,8 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
   }
   message.clear();
 
+  update_chained_mode_requests(controllers);
+
   for (const auto & controller : controllers)
   {
     auto to_chained_mode_list_it = std::find(
@@ -3965,6 +3981,71 @@ void ControllerManager::propagate_deactivation_of_chained_mode(
   }
 }
 
+void ControllerManager::update_chained_mode_requests(const std::vector<ControllerSpec> & controllers)
+{
+  const auto & activate_request = switch_params_.activate_request;
+  const auto & deactivate_request = switch_params_.deactivate_request;
+  for (const auto & following : controllers)
+  {
+    const bool is_active = is_controller_active(following.c);
+    if (!following.c->is_chainable() || (!is_active && !is_controller_inactive(following.c)))
+    {
+      continue;
+    }
+    const bool is_deactivated = ros2_control::has_item(deactivate_request, following.info.name);
+    const bool remains = ros2_control::has_item(activate_request, following.info.name) ||
+                         (is_active && !is_deactivated);
+    // will any (and does any) active controller use the reference interfaces after the switch?
+    bool will_be_used = false;
+    bool loses_user = false;
+    for (const auto & preceding : controllers)
+    {
+      const bool preceding_active = is_controller_active(preceding.c);
+      if (!preceding_active && !is_controller_inactive(preceding.c))
+      {
+        continue;
+      }
+      const auto cmd_itfs = get_command_interfaces_names(preceding.c, resource_manager_);
+      const auto prefix = following.info.name + "/";
+      if (
+        preceding.info.name == following.info.name ||
+        std::none_of(
+          cmd_itfs.begin(), cmd_itfs.end(),
+          [&](const std::string & name) { return name.compare(0, prefix.size(), prefix) == 0; }))
+      {
+        continue;
+      }
+      const bool deactivated = ros2_control::has_item(deactivate_request, preceding.info.name);
+      if (
+        ros2_control::has_item(activate_request, preceding.info.name) ||
+        (preceding_active && !deactivated))
+      {
+        will_be_used = true;
+      }
+      else if (preceding_active)
+      {
+        loses_user = true;
+      }
+    }
+    auto & to_chained = switch_params_.to_chained_mode_request;
+    auto & from_chained = switch_params_.from_chained_mode_request;
+    to_chained.erase(
+      std::remove(to_chained.begin(), to_chained.end(), following.info.name), to_chained.end());
+    from_chained.erase(
+      std::remove(from_chained.begin(), from_chained.end(), following.info.name),
+      from_chained.end());
+    const bool is_chained = following.c->is_in_chained_mode();
+    if (will_be_used && remains && (!is_chained || is_deactivated))
+    {
+      to_chained.push_back(following.info.name);
+    }
+    else if (!will_be_used && loses_user && is_chained)
+    {
+      from_chained.push_back(following.info.name);
+    }
+  }
+}
+
 controller_interface::return_type ControllerManager::check_following_controllers_for_activate(
   const std::vector<ControllerSpec> & controllers, int strictness,
   const ControllersListIterator controller_it, std::string & message)
-- 
2.43.0


From 105b923dffc504372de97f54cd56d4ed4b367b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:33 +0000
Subject: [PATCH 13/56] fix: a controller that stays active keeps its
 interfaces

---
 controller_manager/src/controller_manager.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index f12579a..86de4fe 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2626,6 +2626,13 @@ void ControllerManager::deactivate_controllers(
       try
       {
         const auto new_state = controller->get_node()->deactivate();
+        if (is_controller_active(*controller))
+        {
+          RCLCPP_ERROR(
+            get_logger(), "Controller '%s' refused to be deactivated and keeps its interfaces",
+            controller_name.c_str());
+          continue;
+        }
         controller->release_interfaces();
 
         // if it is a chainable controller, make the reference interfaces unavailable on
@@ -2802,7 +2809,7 @@ void ControllerManager::activate_controllers(
     if (!assignment_successful)
     {
       is_successful = false;
-      if (controller->is_chainable())
+      if (controller->is_chainable() && !is_controller_active(controller))
       {
         resource_manager_->make_controller_exported_state_interfaces_unavailable(controller_name);
         resource_manager_->make_controller_reference_interfaces_unavailable(controller_name);
@@ -2835,7 +2842,7 @@ void ControllerManager::activate_controllers(
     if (!assignment_successful)
     {
       is_successful = false;
-      if (controller->is_chainable())
+      if (controller->is_chainable() && !is_controller_active(controller))
       {
         resource_manager_->make_controller_exported_state_interfaces_unavailable(controller_name);
         resource_manager_->make_controller_reference_interfaces_unavailable(controller_name);
-- 
2.43.0


From c2658008441de860c8a7f66dffb3370d9b122738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:25 +0000
Subject: [PATCH 14/56] fix: stop just the controllers that depend on the
 failed hardware

Only the active controllers are considered (the mode switch was told to stop
the interfaces of inactive ones), a deactivating component only stops the
controllers using its own command interfaces, controllers chained behind the
stopped ones are stopped too, and the realtime thread does not wait for the
controllers lock.
---
 .../controller_manager/controller_manager.hpp |  22 +++
 controller_manager/src/controller_manager.cpp | 139 +++++++++++-------
 2 files changed, 111 insertions(+), 50 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 23710bd..969e96f 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -435,6 +435,28 @@ private:
    */
   void update_chained_mode_requests(const std::vector<ControllerSpec> & controllers);
 
+  /// Collect the active controllers that have to stop because of the given hardware components.
+  /**
+   * \param[in] rt_controller_list controllers list used by the realtime thread.
+   * \param[in] hardware_names names of the hardware components.
+   * \param[in] only_with_command_interfaces only stop the controllers using command interfaces of
+   * the hardware components, and the controllers depending on them.
+   * \param[out] controllers_list names of the controllers to stop.
+   */
+  void get_active_controllers_of_hardware(
+    const std::vector<ControllerSpec> & rt_controller_list,
+    const std::vector<std::string> & hardware_names, bool only_with_command_interfaces,
+    std::vector<std::string> & controllers_list);
+
+  /// Add all active controllers using interfaces exported by the controllers in the list.
+  /**
+   * \param[in] rt_controller_list controllers list used by the realtime thread.
+   * \param[in,out] controllers_list names of the controllers to stop.
+   */
+  void add_dependent_controllers(
+    const std::vector<ControllerSpec> & rt_controller_list,
+    std::vector<std::string> & controllers_list);
+
   /// Check if all the following controllers will be in active state and in the chained mode
   /// after controllers' switch.
   /**
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 86de4fe..19f8323 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3387,14 +3387,11 @@ void ControllerManager::read(const rclcpp::Time & time, const rclcpp::Duration &
 
   if (result != hardware_interface::return_type::OK)
   {
-    rt_buffer_.deactivate_controllers_list.clear();
+    std::vector<ControllerSpec> & rt_controller_list =
+      rt_controllers_wrapper_.update_and_get_used_by_rt_list();
     // Determine controllers to stop
-    for (const auto & hardware_name : failed_hardware_names)
-    {
-      auto controllers = resource_manager_->get_cached_controllers_to_hardware(hardware_name);
-      rt_buffer_.deactivate_controllers_list.insert(
-        rt_buffer_.deactivate_controllers_list.end(), controllers.begin(), controllers.end());
-    }
+    get_active_controllers_of_hardware(
+      rt_controller_list, failed_hardware_names, false, rt_buffer_.deactivate_controllers_list);
     RCLCPP_ERROR(
       get_logger(),
       "Deactivating following hardware components as their read cycle resulted in an error: [ %s]",
@@ -3404,8 +3401,6 @@ void ControllerManager::read(const rclcpp::Time & time, const rclcpp::Duration &
       "Deactivating following controllers as their hardware components read cycle resulted in an "
       "error: [ %s]",
       rt_buffer_.get_concatenated_string(rt_buffer_.deactivate_controllers_list).c_str());
-    std::vector<ControllerSpec> & rt_controller_list =
-      rt_controllers_wrapper_.update_and_get_used_by_rt_list();
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "read");
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
@@ -3416,6 +3411,82 @@ void ControllerManager::read(const rclcpp::Time & time, const rclcpp::Duration &
       .count();
 }
 
+void ControllerManager::get_active_controllers_of_hardware(
+  const std::vector<ControllerSpec> & rt_controller_list,
+  const std::vector<std::string> & hardware_names, bool only_with_command_interfaces,
+  std::vector<std::string> & controllers_list)
+{
+  controllers_list.clear();
+  const auto & components_status = resource_manager_->get_components_status();
+  for (const auto & hardware_name : hardware_names)
+  {
+    for (const auto & controller_name :
+         resource_manager_->get_cached_controllers_to_hardware(hardware_name))
+    {
+      const auto found_it = std::find_if(
+        rt_controller_list.begin(), rt_controller_list.end(),
+        std::bind(controller_name_compare, std::placeholders::_1, controller_name));
+      if (found_it == rt_controller_list.end() || !is_controller_active(found_it->c))
+      {
+        continue;
+      }
+      if (only_with_command_interfaces)
+      {
+        const auto status_it = components_status.find(hardware_name);
+        const auto command_interface_names =
+          get_command_interfaces_names(found_it->c, resource_manager_);
+        if (
+          status_it == components_status.end() ||
+          std::none_of(
+            command_interface_names.begin(), command_interface_names.end(),
+            [&](const std::string & name)
+            { return ros2_control::has_item(status_it->second.command_interfaces, name); }))
+        {
+          continue;
+        }
+      }
+      ros2_control::add_item(controllers_list, controller_name);
+    }
+  }
+  add_dependent_controllers(rt_controller_list, controllers_list);
+}
+
+void ControllerManager::add_dependent_controllers(
+  const std::vector<ControllerSpec> & rt_controller_list,
+  std::vector<std::string> & controllers_list)
+{
+  if (controllers_list.empty())
+  {
+    return;
+  }
+  for (bool list_changed = true; list_changed;)
+  {
+    list_changed = false;
+    for (const auto & controller : rt_controller_list)
+    {
+      if (
+        !is_controller_active(controller.c) ||
+        ros2_control::has_item(controllers_list, controller.info.name))
+      {
+        continue;
+      }
+      const auto uses_stopped_controller = [&](const std::vector<std::string> & interface_names)
+      {
+        return std::any_of(
+          interface_names.begin(), interface_names.end(), [&](const std::string & name)
+          { return ros2_control::has_item(controllers_list, split_command_interface(name).first); });
+      };
+      if (
+        uses_stopped_controller(get_command_interfaces_names(controller.c, resource_manager_)) ||
+        uses_stopped_controller(get_state_interfaces_names(controller.c, resource_manager_)))
+      {
+        controllers_list.push_back(controller.info.name);
+        list_changed = true;
+      }
+    }
+  }
+}
+
 void ControllerManager::manage_switch()
 {
   std::unique_lock<std::mutex> guard(switch_params_.mutex, std::try_to_lock);
@@ -3663,6 +3734,7 @@ controller_interface::return_type ControllerManager::update(
     {
       ros2_control::add_item(rt_buffer_.deactivate_controllers_list, controller);
     };
+    add_dependent_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
 
     // Retrieve the interfaces to start and stop from the hardware end
     perform_hardware_command_mode_change(
@@ -3709,14 +3781,11 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
 
   if (result == hardware_interface::return_type::ERROR)
   {
-    rt_buffer_.deactivate_controllers_list.clear();
+    std::vector<ControllerSpec> & rt_controller_list =
+      rt_controllers_wrapper_.update_and_get_used_by_rt_list();
     // Determine controllers to stop
-    for (const auto & hardware_name : failed_hardware_names)
-    {
-      auto controllers = resource_manager_->get_cached_controllers_to_hardware(hardware_name);
-      rt_buffer_.deactivate_controllers_list.insert(
-        rt_buffer_.deactivate_controllers_list.end(), controllers.begin(), controllers.end());
-    }
+    get_active_controllers_of_hardware(
+      rt_controller_list, failed_hardware_names, false, rt_buffer_.deactivate_controllers_list);
     RCLCPP_ERROR(
       get_logger(),
       "Deactivating following hardware components as their write cycle resulted in an error: [ "
@@ -3727,8 +3796,6 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
       "Deactivating following controllers as their hardware components write cycle resulted in an "
       "error: [ %s]",
       rt_buffer_.get_concatenated_string(rt_buffer_.deactivate_controllers_list).c_str());
-    std::vector<ControllerSpec> & rt_controller_list =
-      rt_controllers_wrapper_.update_and_get_used_by_rt_list();
 
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "write");
@@ -3737,44 +3804,16 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
   }
   else if (result == hardware_interface::return_type::DEACTIVATE)
   {
-    rt_buffer_.deactivate_controllers_list.clear();
-    auto loaded_controllers = get_loaded_controllers();
+    std::vector<ControllerSpec> & rt_controller_list =
+      rt_controllers_wrapper_.update_and_get_used_by_rt_list();
     // Only stop controllers with active command interfaces to the failed_hardware_names
-    for (const auto & hardware_name : failed_hardware_names)
-    {
-      auto controllers = resource_manager_->get_cached_controllers_to_hardware(hardware_name);
-      for (const auto & controller : controllers)
-      {
-        auto controller_spec = std::find_if(
-          loaded_controllers.begin(), loaded_controllers.end(),
-          [&](const controller_manager::ControllerSpec & spec)
-          { return spec.c->get_name() == controller; });
-        if (controller_spec == loaded_controllers.end())
-        {
-          RCLCPP_WARN(
-            get_logger(),
-            "Deactivate failed to find controller [%s] in loaded controllers. "
-            "This can happen due to multiple returns of 'DEACTIVATE' from [%s] write()",
-            controller.c_str(), hardware_name.c_str());
-          continue;
-        }
-        std::vector<std::string> command_interface_names;
-        extract_command_interfaces_for_controller(
-          *controller_spec, resource_manager_, command_interface_names);
-        // if this controller has command interfaces add it to the deactivate_controllers_list
-        if (!command_interface_names.empty())
-        {
-          rt_buffer_.deactivate_controllers_list.push_back(controller);
-        }
-      }
-    }
+    get_active_controllers_of_hardware(
+      rt_controller_list, failed_hardware_names, true, rt_buffer_.deactivate_controllers_list);
     RCLCPP_ERROR_EXPRESSION(
       get_logger(), !rt_buffer_.deactivate_controllers_list.empty(),
       "Deactivating controllers [%s] as their command interfaces are tied to DEACTIVATEing "
       "hardware components",
       rt_buffer_.get_concatenated_string(rt_buffer_.deactivate_controllers_list).c_str());
-    std::vector<ControllerSpec> & rt_controller_list =
-      rt_controllers_wrapper_.update_and_get_used_by_rt_list();
 
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "write");
-- 
2.43.0


From 406c5fe79368d4f51a93c1d1b46c702c944d3d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:59 +0000
Subject: [PATCH 15/56] fix: stop fallback controllers when their hardware
 fails

Remember the hardware used by a controller when it is activated, which covers
fallback controllers that are activated from the control loop.
---
 controller_manager/src/controller_manager.cpp | 26 ++++++-------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 19f8323..61e362c 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2368,24 +2368,6 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
       extract_command_interfaces_for_controller(
         controller, resource_manager_, switch_params_.deactivate_command_interface_request);
     }
-
-    // cache mapping between hardware and controllers for stopping when read/write error happens
-    // TODO(destogl): This caching approach is suboptimal because the cache can fast become
-    // outdated. Keeping it up to date is not easy because of stopping controllers from multiple
-    // threads maybe we should not at all cache this but always search for the related controllers
-    // to a hardware when error in hardware happens
-    if (in_activate_list)
-    {
-      std::vector<std::string> interface_names =
-        get_command_interfaces_names(controller.c, resource_manager_);
-
-      std::vector<std::string> state_interfaces =
-        get_state_interfaces_names(controller.c, resource_manager_);
-      interface_names.insert(
-        interface_names.end(), state_interfaces.begin(), state_interfaces.end());
-
-      resource_manager_->cache_controller_to_hardware(controller.info.name, interface_names);
-    }
   }
 
   if (switch_params_.activate_request.empty() && switch_params_.deactivate_request.empty())
@@ -2893,6 +2875,14 @@ void ControllerManager::activate_controllers(
       continue;
     }
 
+    // cache mapping between hardware and controllers for stopping when read/write error happens
+    // TODO(destogl): This caching approach is suboptimal because the cache can fast become
+    // outdated. Keeping it up to date is not easy because of stopping controllers from multiple
+    // threads maybe we should not at all cache this but always search for the related controllers
+    // to a hardware when error in hardware happens
+    resource_manager_->cache_controller_to_hardware(controller_name, command_interface_names);
+    resource_manager_->cache_controller_to_hardware(controller_name, state_interface_names);
+
     // if it is a chainable controller, make the reference interfaces available on activation
     if (controller->is_chainable())
     {
-- 
2.43.0


From 18bb88f5cac87fff91749d56b386a01d4b068a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:49 +0000
Subject: [PATCH 16/56] fix: stop controllers using the interfaces of a
 controller that could not be activated

---
 controller_manager/src/controller_manager.cpp | 38 +++++++++++++++----
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 61e362c..1ae84c2 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2703,6 +2703,7 @@ void ControllerManager::activate_controllers(
   const std::vector<std::string> & controllers_to_activate, int strictness)
 {
   std::vector<std::string> failed_controllers_command_interfaces;
+  std::vector<std::string> failed_controllers;
   bool is_successful = true;
   // Make all chainable interfaces available before activating controllers
   for (const auto & controller_name : controllers_to_activate)
@@ -2793,6 +2794,7 @@ void ControllerManager::activate_controllers(
       is_successful = false;
       if (controller->is_chainable() && !is_controller_active(controller))
       {
+        failed_controllers.push_back(controller_name);
         resource_manager_->make_controller_exported_state_interfaces_unavailable(controller_name);
         resource_manager_->make_controller_reference_interfaces_unavailable(controller_name);
       }
@@ -2826,6 +2828,7 @@ void ControllerManager::activate_controllers(
       is_successful = false;
       if (controller->is_chainable() && !is_controller_active(controller))
       {
+        failed_controllers.push_back(controller_name);
         resource_manager_->make_controller_exported_state_interfaces_unavailable(controller_name);
         resource_manager_->make_controller_reference_interfaces_unavailable(controller_name);
       }
@@ -2866,6 +2869,7 @@ void ControllerManager::activate_controllers(
       is_successful = false;
       controller->release_interfaces();
       ros2_control::add_items(failed_controllers_command_interfaces, command_interface_names);
+      failed_controllers.push_back(controller_name);
       if (controller->is_chainable())
       {
         // make all the exported interfaces of the controller unavailable
@@ -2914,15 +2918,33 @@ void ControllerManager::activate_controllers(
   }
   // Now prepare and perform the stop interface switching as this is needed for exclusive
   // interfaces
-  else if (
-    !failed_controllers_command_interfaces.empty() &&
-    (!resource_manager_->prepare_command_mode_switch({}, failed_controllers_command_interfaces) ||
-     !resource_manager_->perform_command_mode_switch({}, failed_controllers_command_interfaces)))
+  else
   {
-    RCLCPP_ERROR(
-      get_logger(),
-      "Error switching back the interfaces in the hardware when the controller activation "
-      "failed.");
+    // stop the controllers using the interfaces of the controllers that could not be activated
+    add_dependent_controllers(rt_controller_list, failed_controllers);
+    for (const auto & controller : rt_controller_list)
+    {
+      if (
+        is_controller_active(controller.c) &&
+        ros2_control::has_item(failed_controllers, controller.info.name))
+      {
+        ros2_control::add_items(
+          failed_controllers_command_interfaces,
+          get_command_interfaces_names(controller.c, resource_manager_));
+      }
+    }
+    deactivate_controllers(rt_controller_list, failed_controllers);
+
+    if (
+      !failed_controllers_command_interfaces.empty() &&
+      (!resource_manager_->prepare_command_mode_switch({}, failed_controllers_command_interfaces) ||
+       !resource_manager_->perform_command_mode_switch({}, failed_controllers_command_interfaces)))
+    {
+      RCLCPP_ERROR(
+        get_logger(),
+        "Error switching back the interfaces in the hardware when the controller activation "
+        "failed.");
+    }
   }
 }
 
-- 
2.43.0


From 422e6a8a3a31b691ed7b6c51b61ae59eaf21d1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:03 +0000
Subject: [PATCH 17/56] fix: do not lock the controllers list when publishing
 the activity from the realtime thread

A service that replaces the controllers list holds the lock while it waits for
the realtime thread to leave the old list.
---
 .../controller_manager/controller_manager.hpp      |  3 +++
 controller_manager/src/controller_manager.cpp      | 14 ++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 969e96f..b4e0dc9 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -839,6 +839,9 @@ private:
     std::string concatenated_string;
   };
   RTBufferVariables rt_buffer_;
+
+  /// The activity could not be published as the controllers list was locked
+  std::atomic_bool activity_publication_pending_ = false;
 };
 
 }  // namespace controller_manager
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 1ae84c2..428c98e 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3777,6 +3777,11 @@ controller_interface::return_type ControllerManager::update(
     }
   }
 
+  if (activity_publication_pending_.exchange(false))
+  {
+    publish_activity();
+  }
+
   PUBLISH_ROS2_CONTROL_INTROSPECTION_DATA_ASYNC(hardware_interface::DEFAULT_REGISTRY_KEY);
 
   execution_time_.update_time =
@@ -4515,6 +4520,15 @@ ControllerManager::check_fallback_controllers_state_pre_activation(
 
 void ControllerManager::publish_activity()
 {
+  // The realtime thread must not wait here, as the owner of the lock could be waiting for it
+  std::unique_lock<RTControllerListWrapper::controllers_lock_type> controllers_lock(
+    rt_controllers_wrapper_.controllers_lock_, std::try_to_lock);
+  if (!controllers_lock.owns_lock())
+  {
+    activity_publication_pending_.store(true);
+    return;
+  }
+
   controller_manager_msgs::msg::ControllerManagerActivity status_msg;
   status_msg.header.stamp = get_clock()->now();
   {
-- 
2.43.0


From 5133782f17f029c8ad6ea61da3433abf46bb57c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:14 +0000
Subject: [PATCH 18/56] fix: publish the activity after controllers were
 stopped with their hardware or a request failed half-way

---
 controller_manager/src/controller_manager.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 428c98e..5236bc1 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3108,6 +3108,11 @@ void ControllerManager::configure_controller_service_cb(
   RCLCPP_DEBUG(get_logger(), "configuring service locked");
 
   response->ok = configure_controller(request->name) == controller_interface::return_type::OK;
+  if (!response->ok)
+  {
+    // the controller may have changed its state nevertheless
+    publish_activity();
+  }
 
   RCLCPP_DEBUG(
     get_logger(), "configuring service finished for controller '%s' ", request->name.c_str());
@@ -3175,6 +3180,7 @@ void ControllerManager::reload_controller_libraries_service_cb(
           "Controller manager: Cannot reload controller libraries because "
           "failed to unload controller '%s'",
           controller.c_str());
+        publish_activity();
         response->ok = false;
         return;
       }
@@ -3226,6 +3232,11 @@ void ControllerManager::unload_controller_service_cb(
   RCLCPP_DEBUG(get_logger(), "unloading service locked");
 
   response->ok = unload_controller(request->name) == controller_interface::return_type::OK;
+  if (!response->ok)
+  {
+    // the controller may have changed its state nevertheless
+    publish_activity();
+  }
 
   RCLCPP_DEBUG(
     get_logger(), "unloading service finished for controller '%s' ", request->name.c_str());
@@ -3241,6 +3252,7 @@ void ControllerManager::cleanup_controller_service_cb(
   RCLCPP_DEBUG(get_logger(), "cleanup service locked");
 
   response->ok = cleanup_controller(request->name) == controller_interface::return_type::OK;
+  publish_activity();
 
   RCLCPP_DEBUG(
     get_logger(), "cleanup service finished for controller '%s' ", request->name.c_str());
@@ -3416,6 +3428,7 @@ void ControllerManager::read(const rclcpp::Time & time, const rclcpp::Duration &
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "read");
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
+    publish_activity();
     // TODO(destogl): do auto-start of broadcasters
   }
   execution_time_.read_time =
@@ -3817,6 +3830,7 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "write");
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
+    publish_activity();
     // TODO(destogl): do auto-start of broadcasters
   }
   else if (result == hardware_interface::return_type::DEACTIVATE)
@@ -3835,6 +3849,7 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "write");
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
+    publish_activity();
   }
   execution_time_.write_time =
     std::chrono::duration<double, std::micro>(std::chrono::steady_clock::now() - start_time)
-- 
2.43.0


From c44404bef8d78705c65678e1e1a7cf8aff33d67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:11 +0000
Subject: [PATCH 19/56] fix: resume asynchronous controllers whose deactivation
 did not take place

---
 .../controller_interface/controller_interface_base.hpp |  8 ++++++++
 controller_interface/src/controller_interface_base.cpp |  5 +++++
 controller_manager/src/controller_manager.cpp          | 10 ++++++++++
 3 files changed, 23 insertions(+)

diff --git a/controller_interface/include/controller_interface/controller_interface_base.hpp b/controller_interface/include/controller_interface/controller_interface_base.hpp
index 7b3dc04..580fb84 100644
--- a/controller_interface/include/controller_interface/controller_interface_base.hpp
+++ b/controller_interface/include/controller_interface/controller_interface_base.hpp
@@ -376,6 +376,14 @@ public:
    */
   void prepare_for_deactivation();
 
+  /**
+   * @brief Method to resume the update cycles of a controller that was prepared for deactivation,
+   * but that has not been deactivated. This method is called by the controller manager.
+   *
+   * If the controller is not running in async mode, the method will do nothing.
+   */
+  void cancel_deactivation();
+
   std::string get_name() const;
 
   /**
diff --git a/controller_interface/src/controller_interface_base.cpp b/controller_interface/src/controller_interface_base.cpp
index 43ee52e..c7b1be9 100644
--- a/controller_interface/src/controller_interface_base.cpp
+++ b/controller_interface/src/controller_interface_base.cpp
@@ -429,6 +429,11 @@ void ControllerInterfaceBase::prepare_for_deactivation()
   this->wait_for_trigger_update_to_finish();
 }
 
+void ControllerInterfaceBase::cancel_deactivation()
+{
+  impl_->skip_async_triggers_.store(false, std::memory_order_release);
+}
+
 void ControllerInterfaceBase::stop_async_handler_thread()
 {
   if (is_async() && impl_->async_handler_ && impl_->async_handler_->is_running())
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 5236bc1..9b4b694 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1868,6 +1868,16 @@ void ControllerManager::clear_requests()
   {
     make_exported_interfaces_of_inactive_controller_unavailable(controller_name);
   }
+  // controllers that have not been deactivated in the end continue to run
+  for (const auto & controller : get_loaded_controllers())
+  {
+    if (
+      is_controller_active(controller.c) &&
+      ros2_control::has_item(switch_params_.deactivate_request, controller.info.name))
+    {
+      controller.c->cancel_deactivation();
+    }
+  }
   switch_params_.do_switch = false;
   switch_params_.ready_to_switch = false;
   switch_params_.activate_asap = false;
-- 
2.43.0


From 78b69da136e384b216bd051250108c929d805522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:22 +0000
Subject: [PATCH 20/56] fix: finish the update of an asynchronous controller
 before it is deactivated with its hardware or chain

---
 controller_manager/src/controller_manager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 9b4b694..7075808 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2617,12 +2617,15 @@ void ControllerManager::deactivate_controllers(
     {
       try
       {
+        // no update of an asynchronous controller may run from here on
+        controller->prepare_for_deactivation();
         const auto new_state = controller->get_node()->deactivate();
         if (is_controller_active(*controller))
         {
           RCLCPP_ERROR(
             get_logger(), "Controller '%s' refused to be deactivated and keeps its interfaces",
             controller_name.c_str());
+          controller->cancel_deactivation();
           continue;
         }
         controller->release_interfaces();
-- 
2.43.0


From d85dbf10cc821f6f5a9e348240ebb08c7187955f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 21/56] fix: refuse to activate a controller that needs
 interfaces of a controller that is restarted

---
 controller_manager/src/controller_manager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 7075808..7486fc9 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -4616,6 +4616,11 @@ controller_interface::return_type ControllerManager::check_for_interfaces_availa
     {
       future_available_cmd_interfaces.push_back(cmd_itf);
     }
+    if (ros2_control::has_item(activation_list, controller_name))
+    {
+      // the controller is restarted and will claim its interfaces again
+      ros2_control::add_items(future_unavailable_cmd_interfaces, controller_cmd_interfaces);
+    }
   }
   for (const auto & controller_name : activation_list)
   {
-- 
2.43.0


From b8abd956b8c47c2bb26bdf8c33c3238813bea384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 22/56] fix: list the interfaces claimed by controllers that
 were activated or deactivated in the control loop

---
 controller_manager/src/controller_manager.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 7486fc9..9581cdd 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2992,7 +2992,18 @@ void ControllerManager::list_controllers_srv_cb(
     controller_state.type = controllers[i].info.type;
     controller_state.is_async = controllers[i].c->is_async();
     controller_state.update_rate = static_cast<uint16_t>(controllers[i].c->get_update_rate());
-    controller_state.claimed_interfaces = controllers[i].info.claimed_interfaces;
+    if (is_controller_active(controllers[i].c))
+    {
+      // controllers can be (de)activated in the control loop, too
+      for (const auto & interface :
+           get_command_interfaces_names(controllers[i].c, resource_manager_))
+      {
+        if (resource_manager_->command_interface_is_claimed(interface))
+        {
+          controller_state.claimed_interfaces.push_back(interface);
+        }
+      }
+    }
     controller_state.state = controllers[i].c->get_lifecycle_state().label();
     controller_state.is_chainable = controllers[i].c->is_chainable();
     controller_state.is_chained = controllers[i].c->is_in_chained_mode();
-- 
2.43.0


From a20bd1c1c8386c74dcac07eb9fa5143252bdfd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 23/56] fix: a controller that refuses to be cleaned up keeps
 its exported interfaces

---
 controller_manager/src/controller_manager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 9581cdd..e4222cc 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1486,8 +1486,12 @@ controller_interface::return_type ControllerManager::cleanup_controller(
 {
   try
   {
-    cleanup_controller_exported_interfaces(controller);
     const auto new_state = controller.c->get_node()->cleanup();
+    // a controller that refuses to be cleaned-up stays inactive and keeps its exported interfaces
+    if (!is_controller_inactive(controller.c))
+    {
+      cleanup_controller_exported_interfaces(controller);
+    }
     if (new_state.id() != lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED)
     {
       RCLCPP_ERROR(
-- 
2.43.0


From ac02bdea9f6325aa0d2bb89d341802a7e22d10ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:06 +0000
Subject: [PATCH 24/56] fix: list a controller whose export failed and that
 refused to be cleaned up

---
 controller_manager/src/controller_manager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index e4222cc..23a8658 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1700,6 +1700,10 @@ controller_interface::return_type ControllerManager::configure_controller(
       controller_name.c_str());
     std::vector<hardware_interface::StateInterface::ConstSharedPtr> state_interfaces;
     std::vector<hardware_interface::CommandInterface::SharedPtr> ref_interfaces;
+    // nothing is exported until the export succeeds, the controller may refuse to be cleaned-up
+    resource_manager_->import_controller_reference_interfaces(controller_name, ref_interfaces);
+    resource_manager_->import_controller_exported_state_interfaces(
+      controller_name, state_interfaces);
     try
     {
       state_interfaces = controller->export_state_interfaces();
-- 
2.43.0


From 4401f8f7b51181d9f24293ea99cda6a87011b9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:06 +0000
Subject: [PATCH 25/56] fix: keep the parameters of the resource manager after
 a robot description was refused

---
 controller_manager/src/controller_manager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 23a8658..d8f4d31 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -792,8 +792,8 @@ void ControllerManager::robot_description_callback(const std_msgs::msg::String &
     // The RM failed to init AFTER we received the description - a critical error.
     // don't finalize controller manager, instead keep waiting for robot description - fallback
     // state
-    resource_manager_ =
-      std::make_unique<hardware_interface::ResourceManager>(trigger_clock_, get_logger());
+    resource_manager_.reset();
+    init_resource_manager("");
     return;
   }
   set_initial_hardware_components_state();
-- 
2.43.0


From f123e4801d307eed0622fc64cbaf9b99d8afe4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:06 +0000
Subject: [PATCH 26/56] fix: keep the asynchronous thread of a controller that
 refuses to be cleaned up

---
 controller_interface/src/controller_interface_base.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/controller_interface/src/controller_interface_base.cpp b/controller_interface/src/controller_interface_base.cpp
index c7b1be9..0dddca8 100644
--- a/controller_interface/src/controller_interface_base.cpp
+++ b/controller_interface/src/controller_interface_base.cpp
@@ -122,7 +122,14 @@ return_type ControllerInterfaceBase::init(
       enable_introspection(false);
       this->stop_async_handler_thread();
       impl_->lifecycle_id_.store(this->get_lifecycle_state().id(), std::memory_order_release);
-      return on_cleanup(previous_state);
+      const auto transition_state_status = on_cleanup(previous_state);
+      if (
+        transition_state_status == CallbackReturn::FAILURE && is_async() && impl_->async_handler_)
+      {
+        // The controller refused the cleanup and can be activated again
+        impl_->async_handler_->start_thread();
+      }
+      return transition_state_status;
     });
 
   impl_->node_->register_on_activate(
-- 
2.43.0


From fc2304f20aba297346f9d4f36ec4c4102dd52608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:06 +0000
Subject: [PATCH 27/56] fix: withdraw the exported interfaces of an unloaded
 controller that was not inactive

---
 controller_manager/src/controller_manager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index d8f4d31..98dd04b 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1455,6 +1455,9 @@ controller_interface::return_type ControllerManager::unload_controller(
     return controller_interface::return_type::ERROR;
   }
 
+  // For cases, when the controller ended up in the unconfigured state from any other state
+  cleanup_controller_exported_interfaces(controller);
+
   RCLCPP_DEBUG(get_logger(), "Shutdown controller");
   controller_chain_spec_cleanup(controller_chain_spec_, controller_name);
   if (is_controller_inactive(*controller.c) || is_controller_unconfigured(*controller.c))
-- 
2.43.0


From 37e0884a490bac6665a7de932d310e16d5c64850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:33 +0000
Subject: [PATCH 28/56] fix: keep the claim of a removed interface that is
 still loaned

A controller that refuses to be deactivated keeps its loan of the reference
interfaces of a following controller. Configuring that one again removed and
offered the interfaces anew without the claim, so that a second controller
could be given an interface the first one still held.
---
 hardware_interface/src/resource_manager.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index bbe42f1..8b84362 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -1177,7 +1177,8 @@ public:
 
   /// Removes command interfaces from internal storage.
   /**
-   * Command interface are removed from the maps with theirs storage and their claimed status.
+   * Command interface are removed from the maps with theirs storage and their claimed status. The
+   * claim of an interface that is still loaned lasts until the loan is given back.
    *
    * \param[interface_names] list of command interface names to remove from storage.
    */
@@ -1187,7 +1188,11 @@ public:
     {
       command_interface_map_[interface]->unregisterIntrospection();
       command_interface_map_.erase(interface);
-      claimed_command_interface_map_.erase(interface);
+      const auto claimed_it = claimed_command_interface_map_.find(interface);
+      if (claimed_it != claimed_command_interface_map_.end() && !claimed_it->second)
+      {
+        claimed_command_interface_map_.erase(claimed_it);
+      }
     }
   }
 
-- 
2.43.0


From 753cbb97444ffc99aff53bdbe1acd93387df1a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 29/56] fix: keep a loaned interface alive until the loan is
 given back

The controller exporting an interface can be configured again or unloaded while
a controller with ALL, REGEX or best effort configuration still has a loan of it.
---
 .../include/hardware_interface/loaned_command_interface.hpp | 6 +++++-
 .../include/hardware_interface/loaned_state_interface.hpp   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/hardware_interface/include/hardware_interface/loaned_command_interface.hpp b/hardware_interface/include/hardware_interface/loaned_command_interface.hpp
index 3decdb6..02e31a9 100644
--- a/hardware_interface/include/hardware_interface/loaned_command_interface.hpp
+++ b/hardware_interface/include/hardware_interface/loaned_command_interface.hpp
@@ -39,7 +39,8 @@ public:
   explicit LoanedCommandInterface(CommandInterface::SharedPtr command_interface, Deleter && deleter)
   : command_interface_(*command_interface),
     interface_name_(command_interface->get_name()),
-    deleter_(std::forward<Deleter>(deleter))
+    deleter_(std::forward<Deleter>(deleter)),
+    command_interface_ptr_(std::move(command_interface))
   {
   }
 
@@ -169,6 +170,9 @@ protected:
   Deleter deleter_;
 
 private:
+  // the interface outlives the loan, even if its owner does not export it anymore
+  CommandInterface::SharedPtr command_interface_ptr_;
+
   struct HandleRTStatistics
   {
     unsigned int total_counter = 0;
diff --git a/hardware_interface/include/hardware_interface/loaned_state_interface.hpp b/hardware_interface/include/hardware_interface/loaned_state_interface.hpp
index a389724..0ef172c 100644
--- a/hardware_interface/include/hardware_interface/loaned_state_interface.hpp
+++ b/hardware_interface/include/hardware_interface/loaned_state_interface.hpp
@@ -38,7 +38,8 @@ public:
   explicit LoanedStateInterface(StateInterface::ConstSharedPtr state_interface, Deleter && deleter)
   : state_interface_(*state_interface),
     interface_name_(state_interface->get_name()),
-    deleter_(std::forward<Deleter>(deleter))
+    deleter_(std::forward<Deleter>(deleter)),
+    state_interface_ptr_(std::move(state_interface))
   {
   }
 
@@ -124,6 +125,9 @@ protected:
   Deleter deleter_;
 
 private:
+  // the interface outlives the loan, even if its owner does not export it anymore
+  StateInterface::ConstSharedPtr state_interface_ptr_;
+
   struct HandleRTStatistics
   {
     unsigned int total_counter = 0;
-- 
2.43.0


From a6aa2530cb12d7b8ac31638f2d8d2faa9423fd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 30/56] fix: stop only the controllers that depend on the
 interfaces of a stopped controller

A controller asking for all (available, matching) interfaces does not depend on
specific ones and may not even have been given those of the stopped controller.
---
 controller_manager/src/controller_manager.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 98dd04b..6f3b07d 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3530,15 +3530,22 @@ void ControllerManager::add_dependent_controllers(
       {
         continue;
       }
-      const auto uses_stopped_controller = [&](const std::vector<std::string> & interface_names)
+      // any other type of configuration does not depend on specific interfaces
+      const auto uses_stopped_controller =
+        [&](const controller_interface::InterfaceConfiguration & config)
       {
-        return std::any_of(
-          interface_names.begin(), interface_names.end(), [&](const std::string & name)
-          { return ros2_control::has_item(controllers_list, split_command_interface(name).first); });
+        return config.type == controller_interface::interface_configuration_type::INDIVIDUAL &&
+               std::any_of(
+                 config.names.begin(), config.names.end(),
+                 [&](const std::string & name)
+                 {
+                   return ros2_control::has_item(
+                     controllers_list, split_command_interface(name).first);
+                 });
       };
       if (
-        uses_stopped_controller(get_command_interfaces_names(controller.c, resource_manager_)) ||
-        uses_stopped_controller(get_state_interfaces_names(controller.c, resource_manager_)))
+        uses_stopped_controller(controller.c->command_interface_configuration()) ||
+        uses_stopped_controller(controller.c->state_interface_configuration()))
       {
         controllers_list.push_back(controller.info.name);
         list_changed = true;
-- 
2.43.0


From adc0609612676be8e7729bdcd5cdd9743b42dcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:05 +0000
Subject: [PATCH 31/56] fix: leave jerk commands alone when the jerk limits are
 disabled

---
 joint_limits/src/joint_range_limiter.cpp | 3 ++-
 joint_limits/src/joint_soft_limiter.cpp  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/joint_limits/src/joint_range_limiter.cpp b/joint_limits/src/joint_range_limiter.cpp
index 5b94914..2413167 100644
--- a/joint_limits/src/joint_range_limiter.cpp
+++ b/joint_limits/src/joint_range_limiter.cpp
@@ -166,7 +166,8 @@ bool JointSaturationLimiter<JointControlInterfacesData>::on_enforce(
       std::clamp(desired.acceleration.value(), limits.lower_limit, limits.upper_limit);
   }
 
-  if (desired.has_jerk() && !std::isnan(desired.jerk.value()))
+  if (
+    joint_limits.has_jerk_limits && desired.has_jerk() && !std::isnan(desired.jerk.value()))
   {
     limits_enforced =
       is_limited(desired.jerk.value(), -joint_limits.max_jerk, joint_limits.max_jerk) ||
diff --git a/joint_limits/src/joint_soft_limiter.cpp b/joint_limits/src/joint_soft_limiter.cpp
index 5fa3d92..b0e4d5c 100644
--- a/joint_limits/src/joint_soft_limiter.cpp
+++ b/joint_limits/src/joint_soft_limiter.cpp
@@ -268,7 +268,8 @@ bool JointSoftLimiter::on_enforce(
       std::clamp(desired.acceleration.value(), limits.lower_limit, limits.upper_limit);
   }
 
-  if (desired.has_jerk() && !std::isnan(desired.jerk.value()))
+  if (
+    hard_limits.has_jerk_limits && desired.has_jerk() && !std::isnan(desired.jerk.value()))
   {
     limits_enforced =
       is_limited(desired.jerk.value(), -hard_limits.max_jerk, hard_limits.max_jerk) ||
-- 
2.43.0


From 72426dfced4e6a2c1917e931d34608eab79f85b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:05 +0000
Subject: [PATCH 32/56] fix: do not clamp to the position range when the
 position limits are disabled

---
 joint_limits/src/joint_limits_helpers.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/joint_limits/src/joint_limits_helpers.cpp b/joint_limits/src/joint_limits_helpers.cpp
index 5f41cfa..f04f70a 100644
--- a/joint_limits/src/joint_limits_helpers.cpp
+++ b/joint_limits/src/joint_limits_helpers.cpp
@@ -105,7 +105,12 @@ PositionLimits compute_position_limits(
   const std::optional<double> & act_vel, const std::optional<double> & act_pos,
   const std::optional<double> & prev_command_pos, double dt)
 {
-  PositionLimits pos_limits(limits.min_position, limits.max_position);
+  PositionLimits pos_limits(
+    -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::infinity());
+  if (limits.has_position_limits)
+  {
+    pos_limits = PositionLimits(limits.min_position, limits.max_position);
+  }
   internal::verify_actual_position_within_limits(joint_name, act_pos, limits);
   if (limits.has_velocity_limits)
   {
-- 
2.43.0


From 06ef793c09bfbad8751f20eedca9d1236519db61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:43 +0000
Subject: [PATCH 33/56] fix: never clamp to crossed bounds in the soft limiter

---
 joint_limits/src/joint_soft_limiter.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/joint_limits/src/joint_soft_limiter.cpp b/joint_limits/src/joint_soft_limiter.cpp
index b0e4d5c..be71490 100644
--- a/joint_limits/src/joint_soft_limiter.cpp
+++ b/joint_limits/src/joint_soft_limiter.cpp
@@ -17,7 +17,9 @@
 #define _USE_MATH_DEFINES
 #endif
 #include "joint_limits/joint_soft_limiter.hpp"
+#include <algorithm>
 #include <cmath>
+#include <utility>
 
 namespace joint_limits
 {
@@ -222,6 +224,12 @@ bool JointSoftLimiter::on_enforce(
 
     soft_min_vel = std::max(soft_min_vel, velocity_limits.lower_limit);
     soft_max_vel = std::min(soft_max_vel, velocity_limits.upper_limit);
+    // the bounds derived from the measured state, the previous command and the soft limits may
+    // exclude each other, std::clamp needs them in order
+    if (soft_min_vel > soft_max_vel)
+    {
+      std::swap(soft_min_vel, soft_max_vel);
+    }
 
     limits_enforced =
       is_limited(desired.velocity.value(), soft_min_vel, soft_max_vel) || limits_enforced;
@@ -250,6 +258,10 @@ bool JointSoftLimiter::on_enforce(
 
       soft_min_eff = std::max(soft_min_eff, effort_limits.lower_limit);
       soft_max_eff = std::min(soft_max_eff, effort_limits.upper_limit);
+      if (soft_min_eff > soft_max_eff)
+      {
+        std::swap(soft_min_eff, soft_max_eff);
+      }
     }
 
     limits_enforced =
-- 
2.43.0


From 575765e2629b733125dc353642d5def3782ffe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:43 +0000
Subject: [PATCH 34/56] fix: keep the effort limits when a soft limit has no
 gain and the velocity is not limited

---
 joint_limits/src/joint_soft_limiter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/joint_limits/src/joint_soft_limiter.cpp b/joint_limits/src/joint_soft_limiter.cpp
index be71490..0e070fe 100644
--- a/joint_limits/src/joint_soft_limiter.cpp
+++ b/joint_limits/src/joint_soft_limiter.cpp
@@ -246,7 +246,7 @@ bool JointSoftLimiter::on_enforce(
 
     if (
       hard_limits.has_effort_limits && std::isfinite(soft_joint_limits.k_velocity) &&
-      actual.has_velocity())
+      actual.has_velocity() && std::isfinite(soft_min_vel) && std::isfinite(soft_max_vel))
     {
       soft_min_eff = std::clamp(
         -soft_joint_limits.k_velocity * (actual.velocity.value() - soft_min_vel),
-- 
2.43.0


From ead9f9fcfe93f213e29838916e4c0c7452720898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:53 +0000
Subject: [PATCH 35/56] fix: do not move a joint that is commanded zero
 velocity only

---
 joint_limits/src/joint_saturation_limiter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/joint_limits/src/joint_saturation_limiter.cpp b/joint_limits/src/joint_saturation_limiter.cpp
index 53828de..f3928cb 100644
--- a/joint_limits/src/joint_saturation_limiter.cpp
+++ b/joint_limits/src/joint_saturation_limiter.cpp
@@ -120,7 +120,9 @@ bool JointSaturationLimiter<trajectory_msgs::msg::JointTrajectoryPoint>::on_enfo
     if (joint_limits_[index].has_velocity_limits)
     {
       // if desired velocity is not defined calculate it from positions
-      if (std::fabs(desired_vel[index]) <= VALUE_CONSIDERED_ZERO || std::isnan(desired_vel[index]))
+      if (
+        has_desired_position && (std::fabs(desired_vel[index]) <= VALUE_CONSIDERED_ZERO ||
+                                 std::isnan(desired_vel[index])))
       {
         desired_vel[index] =
           (desired_pos[index] - current_joint_states.positions[index]) / dt_seconds;
-- 
2.43.0


From 76705026d7dc0698d2a3ebea29ec4ab1574cd09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:27 +0000
Subject: [PATCH 36/56] fix: an acceleration that does not fit the velocity
 must not lead beyond the velocity limit

---
 joint_limits/src/joint_saturation_limiter.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/joint_limits/src/joint_saturation_limiter.cpp b/joint_limits/src/joint_saturation_limiter.cpp
index f3928cb..d382b30 100644
--- a/joint_limits/src/joint_saturation_limiter.cpp
+++ b/joint_limits/src/joint_saturation_limiter.cpp
@@ -204,6 +204,18 @@ bool JointSaturationLimiter<trajectory_msgs::msg::JointTrajectoryPoint>::on_enfo
         {
           // vel_cmd from integration of desired_acc, needed even if no vel output
           desired_vel[index] = current_joint_velocities[index] + desired_acc[index] * dt_seconds;
+          // a desired acceleration that does not fit the desired velocity must not lead beyond the
+          // velocity limit
+          const double current_vel_abs = std::fabs(current_joint_velocities[index]);
+          if (
+            joint_limits_[index].has_velocity_limits &&
+            std::fabs(desired_vel[index]) >
+              std::max(joint_limits_[index].max_velocity, current_vel_abs))
+          {
+            desired_vel[index] = std::copysign(
+              std::max(joint_limits_[index].max_velocity, current_vel_abs), desired_vel[index]);
+            desired_acc[index] = (desired_vel[index] - current_joint_velocities[index]) / dt_seconds;
+          }
           if (has_desired_position)
           {
             // pos_cmd from from double integration of desired_acc
-- 
2.43.0


From 48efae2934c91c8eba5e478df80bd184ead9edfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:50 +0000
Subject: [PATCH 37/56] fix: leave the status of read and write to the owner of
 the resources

---
 hardware_interface/src/resource_manager.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 8b84362..61871e8 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -2411,15 +2411,15 @@ bool ResourceManager::enforce_command_limits(const rclcpp::Duration & period)
 HardwareReadWriteStatus ResourceManager::read(
   const rclcpp::Time & /*time*/, const rclcpp::Duration & period)
 {
-  read_write_status.result = return_type::OK;
-  read_write_status.failed_hardware_names.clear();
-
   // This is needed while we load and initialize the components
   std::unique_lock<std::recursive_mutex> resource_guard(resources_lock_, std::try_to_lock);
   if (!resource_guard.owns_lock())
   {
-    return read_write_status;
+    // the status belongs to the owner of the lock
+    return {return_type::OK, {}};
   }
+  read_write_status.result = return_type::OK;
+  read_write_status.failed_hardware_names.clear();
   auto read_components = [&](auto & components, bool handle_exceptions)
   {
     for (auto & component : components)
@@ -2512,15 +2512,15 @@ HardwareReadWriteStatus ResourceManager::read(
 HardwareReadWriteStatus ResourceManager::write(
   const rclcpp::Time & /*time*/, const rclcpp::Duration & period)
 {
-  read_write_status.result = return_type::OK;
-  read_write_status.failed_hardware_names.clear();
-
   // This is needed while we load and initialize the components
   std::unique_lock<std::recursive_mutex> resource_guard(resources_lock_, std::try_to_lock);
   if (!resource_guard.owns_lock())
   {
-    return read_write_status;
+    // the status belongs to the owner of the lock
+    return {return_type::OK, {}};
   }
+  read_write_status.result = return_type::OK;
+  read_write_status.failed_hardware_names.clear();
   auto write_components = [&](auto & components, bool handle_exceptions)
   {
     for (auto & component : components)
-- 
2.43.0


From 809ced0c04f5888b611c202de4d9860336ebac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:30 +0000
Subject: [PATCH 38/56] fix: start the statistics with the first measurement
 also without a reset before

---
 .../include/hardware_interface/types/statistics_types.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hardware_interface/include/hardware_interface/types/statistics_types.hpp b/hardware_interface/include/hardware_interface/types/statistics_types.hpp
index 78601ff..5ef60d5 100644
--- a/hardware_interface/include/hardware_interface/types/statistics_types.hpp
+++ b/hardware_interface/include/hardware_interface/types/statistics_types.hpp
@@ -176,6 +176,14 @@ public:
     current_measurement_ = item;
     if (std::isfinite(item))
     {
+      if (statistics_data_.sample_count == 0)
+      {
+        // first sample of the window, there is nothing to continue from
+        statistics_data_.average = item;
+        statistics_data_.min = item;
+        statistics_data_.max = item;
+        sum_of_square_diff_from_mean_ = 0.0;
+      }
       statistics_data_.sample_count = statistics_data_.sample_count + 1;
       const double previous_average = statistics_data_.average;
       statistics_data_.average =
-- 
2.43.0


From e9ca89ae96c12ab3d704e0bed114a60f1b5674e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:47 +0000
Subject: [PATCH 39/56] fix: statistics without observations are NaN after a
 reset too, as documented

---
 .../include/hardware_interface/types/statistics_types.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hardware_interface/include/hardware_interface/types/statistics_types.hpp b/hardware_interface/include/hardware_interface/types/statistics_types.hpp
index 5ef60d5..bcbb6eb 100644
--- a/hardware_interface/include/hardware_interface/types/statistics_types.hpp
+++ b/hardware_interface/include/hardware_interface/types/statistics_types.hpp
@@ -148,10 +148,10 @@ public:
   void reset()
   {
     std::lock_guard<DEFAULT_MUTEX> lock(mutex_);
-    statistics_data_.average = 0.0;
-    statistics_data_.min = std::numeric_limits<double>::max();
-    statistics_data_.max = std::numeric_limits<double>::lowest();
-    statistics_data_.standard_deviation = 0.0;
+    statistics_data_.average = std::numeric_limits<double>::quiet_NaN();
+    statistics_data_.min = std::numeric_limits<double>::quiet_NaN();
+    statistics_data_.max = std::numeric_limits<double>::quiet_NaN();
+    statistics_data_.standard_deviation = std::numeric_limits<double>::quiet_NaN();
     statistics_data_.sample_count = 0;
     current_measurement_ = std::numeric_limits<double>::quiet_NaN();
     sum_of_square_diff_from_mean_ = 0;
-- 
2.43.0


From 0ec7e27004b4a91b42e11e8f9d50aba5e9de32c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:42 +0000
Subject: [PATCH 40/56] fix: a moved handle refers to its own value

---
 .../include/hardware_interface/handle.hpp           | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/include/hardware_interface/handle.hpp b/hardware_interface/include/hardware_interface/handle.hpp
index aef84b1..636b31c 100644
--- a/hardware_interface/include/hardware_interface/handle.hpp
+++ b/hardware_interface/include/hardware_interface/handle.hpp
@@ -278,7 +278,10 @@ public:
 
   Handle & operator=(Handle && other)
   {
-    swap(*this, other);
+    if (this != &other)
+    {
+      swap(*this, other);
+    }
     return *this;
   }
 
@@ -616,6 +619,14 @@ private:
     std::swap(first.value_, second.value_);
     std::swap(first.data_type_, second.data_type_);
     std::swap(first.value_ptr_, second.value_ptr_);
+    // the pointers have to refer to the handles' own values again
+    for (Handle * handle : {&first, &second})
+    {
+      if (!std::holds_alternative<std::monostate>(handle->value_))
+      {
+        handle->value_ptr_ = std::get_if<double>(&handle->value_);
+      }
+    }
   }
 
 protected:
-- 
2.43.0


From cc3a2cf6cb22adfc479f4205ec80e446f3fbdf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:19 +0000
Subject: [PATCH 41/56] fix: a handle given twice for one joint or actuator
 does not stand in for another one's

---
 .../include/transmission_interface/accessor.hpp          | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/transmission_interface/include/transmission_interface/accessor.hpp b/transmission_interface/include/transmission_interface/accessor.hpp
index a72b0f3..f3cf60a 100644
--- a/transmission_interface/include/transmission_interface/accessor.hpp
+++ b/transmission_interface/include/transmission_interface/accessor.hpp
@@ -59,13 +59,18 @@ std::vector<T> get_ordered_handles(
   std::vector<T> result;
   for (const auto & name : names)
   {
-    std::copy_if(
-      unordered_handles.cbegin(), unordered_handles.cend(), std::back_inserter(result),
+    // at most one handle per name, a second one must not take the place of another name's
+    const auto handle_it = std::find_if(
+      unordered_handles.cbegin(), unordered_handles.cend(),
       [&](const auto & handle)
       {
         return (handle.get_prefix_name() == name) &&
                (handle.get_interface_name() == interface_type) && handle;
       });
+    if (handle_it != unordered_handles.cend())
+    {
+      result.push_back(*handle_it);
+    }
   }
   return result;
 }
-- 
2.43.0


From 1b4fce89010289ecf7102f09c852d66c2ea3258c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:19 +0000
Subject: [PATCH 42/56] fix: four-bar linkages without a quantity on both sides
 are refused

---
 .../four_bar_linkage_transmission.hpp                      | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/transmission_interface/include/transmission_interface/four_bar_linkage_transmission.hpp b/transmission_interface/include/transmission_interface/four_bar_linkage_transmission.hpp
index fc178a6..55f736b 100644
--- a/transmission_interface/include/transmission_interface/four_bar_linkage_transmission.hpp
+++ b/transmission_interface/include/transmission_interface/four_bar_linkage_transmission.hpp
@@ -262,10 +262,11 @@ void FourBarLinkageTransmission::configure(
         get_handles_info()));
   }
 
+  // Check at least one pair-wise interface is available
   if (
-    joint_position_.size() != actuator_position_.size() &&
-    joint_velocity_.size() != actuator_velocity_.size() &&
-    joint_effort_.size() != actuator_effort_.size())
+    !(joint_position_.size() == 2 && actuator_position_.size() == 2) &&
+    !(joint_velocity_.size() == 2 && actuator_velocity_.size() == 2) &&
+    !(joint_effort_.size() == 2 && actuator_effort_.size() == 2))
   {
     throw Exception(
       fmt::format(FMT_COMPILE("Pair-wise mismatch on interfaces. \n{}"), get_handles_info()));
-- 
2.43.0


From f45854c6a8ed200b28f8dd50d1158842f546c685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:19 +0000
Subject: [PATCH 43/56] fix: simple transmissions without a quantity on both
 sides are refused

---
 .../transmission_interface/simple_transmission.hpp     | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/transmission_interface/include/transmission_interface/simple_transmission.hpp b/transmission_interface/include/transmission_interface/simple_transmission.hpp
index a9f81f6..da43f94 100644
--- a/transmission_interface/include/transmission_interface/simple_transmission.hpp
+++ b/transmission_interface/include/transmission_interface/simple_transmission.hpp
@@ -246,6 +246,16 @@ inline void SimpleTransmission::configure(
     throw Exception(
       "None of the provided actuator handles are valid or from the required interfaces");
   }
+
+  // Check at least one pair-wise interface is available
+  if (
+    !(joint_position_ && actuator_position_) && !(joint_velocity_ && actuator_velocity_) &&
+    !(joint_effort_ && actuator_effort_) && !(joint_torque_ && actuator_torque_) &&
+    !(joint_force_ && actuator_force_) &&
+    !(joint_absolute_position_ && actuator_absolute_position_))
+  {
+    throw Exception("No pair-wise interface available between the joint and the actuator");
+  }
 }
 
 inline void SimpleTransmission::actuator_to_joint()
-- 
2.43.0


From 553f56bbed44d11870535e3e2a49fa0922fd4559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:54 +0000
Subject: [PATCH 44/56] fix: a controller configured again may have a higher
 update rate than before

---
 controller_interface/src/controller_interface_base.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/controller_interface/src/controller_interface_base.cpp b/controller_interface/src/controller_interface_base.cpp
index 0dddca8..1871e9b 100644
--- a/controller_interface/src/controller_interface_base.cpp
+++ b/controller_interface/src/controller_interface_base.cpp
@@ -211,7 +211,8 @@ const rclcpp_lifecycle::State & ControllerInterfaceBase::configure()
       RCLCPP_ERROR(get_node()->get_logger(), "Update rate cannot be a negative value!");
       return get_lifecycle_state();
     }
-    if (params.update_rate != 0u && update_rate > params.update_rate)
+    const unsigned int cm_update_rate = params.controller_manager_update_rate;
+    if (cm_update_rate != 0u && update_rate > cm_update_rate)
     {
       RCLCPP_WARN(
         get_node()->get_logger(), "%s",
@@ -219,8 +220,9 @@ const rclcpp_lifecycle::State & ControllerInterfaceBase::configure()
           "The update rate of the controller : '{} Hz' cannot be higher than the update rate of "
           "the controller manager : '{} Hz'. Setting it to the update rate of the controller "
           "manager.",
-          update_rate, params.update_rate)
+          update_rate, cm_update_rate)
           .c_str());
+      params.update_rate = cm_update_rate;
     }
     else
     {
-- 
2.43.0


From b10058728d4f3449cbe3fe4c0818295d233023e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:34 +0000
Subject: [PATCH 45/56] fix: mock hardware takes an interface for a joint's
 when the joint's name is only part of its name

---
 hardware_interface/src/mock_components/generic_system.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hardware_interface/src/mock_components/generic_system.cpp b/hardware_interface/src/mock_components/generic_system.cpp
index 034c9bd..fc2f433 100644
--- a/hardware_interface/src/mock_components/generic_system.cpp
+++ b/hardware_interface/src/mock_components/generic_system.cpp
@@ -203,7 +203,8 @@ return_type GenericSystem::prepare_command_mode_switch(
     // check if interface is joint
     auto joint_it_found = std::find_if(
       info.joints.begin(), info.joints.end(),
-      [key](const auto & joint) { return (key.find(joint.name) != std::string::npos); });
+      [&key](const auto & joint)
+      { return key.substr(0, key.find_last_of('/')) == joint.name; });
 
     if (joint_it_found != info.joints.end())
     {
@@ -276,7 +277,8 @@ return_type GenericSystem::perform_command_mode_switch(
     const auto & info = get_hardware_info();
     auto joint_it_found = std::find_if(
       info.joints.begin(), info.joints.end(),
-      [key](const auto & joint) { return (key.find(joint.name) != std::string::npos); });
+      [&key](const auto & joint)
+      { return key.substr(0, key.find_last_of('/')) == joint.name; });
 
     if (joint_it_found != info.joints.end())
     {
-- 
2.43.0


From 979ff1cf54ff956eb4522449a901182638d0783e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:34 +0000
Subject: [PATCH 46/56] fix: mock joints without a velocity drift by the
 following offset with every read

---
 .../src/mock_components/generic_system.cpp           | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/hardware_interface/src/mock_components/generic_system.cpp b/hardware_interface/src/mock_components/generic_system.cpp
index fc2f433..6afc227 100644
--- a/hardware_interface/src/mock_components/generic_system.cpp
+++ b/hardware_interface/src/mock_components/generic_system.cpp
@@ -415,12 +415,10 @@ return_type GenericSystem::read(const rclcpp::Time & /*time*/, const rclcpp::Dur
             std::isnan(joint_state_values_[ACCELERATION_INTERFACE_INDEX])
               ? 0.0
               : joint_state_values_[ACCELERATION_INTERFACE_INDEX] * period.seconds();
-          joint_state_values_[POSITION_INTERFACE_INDEX] +=  // apply offset to positions only
+          joint_state_values_[POSITION_INTERFACE_INDEX] +=
             std::isfinite(joint_state_values_[VELOCITY_INTERFACE_INDEX])
               ? joint_state_values_[VELOCITY_INTERFACE_INDEX] * period.seconds()
-              : 0.0 + (custom_interface_with_following_offset_.empty()
-                         ? position_state_following_offset_
-                         : 0.0);
+              : 0.0;
           break;
         }
         case VELOCITY_INTERFACE_INDEX:
@@ -437,12 +435,10 @@ return_type GenericSystem::read(const rclcpp::Time & /*time*/, const rclcpp::Dur
               (joint_state_values_[VELOCITY_INTERFACE_INDEX] - old_velocity) / period.seconds();
           }
           // currently we do backward Euler integration
-          joint_state_values_[POSITION_INTERFACE_INDEX] +=  // apply offset to positions only
+          joint_state_values_[POSITION_INTERFACE_INDEX] +=
             std::isfinite(joint_state_values_[VELOCITY_INTERFACE_INDEX])
               ? joint_state_values_[VELOCITY_INTERFACE_INDEX] * period.seconds()
-              : 0.0 + (custom_interface_with_following_offset_.empty()
-                         ? position_state_following_offset_
-                         : 0.0);
+              : 0.0;
           break;
         }
         case POSITION_INTERFACE_INDEX:
-- 
2.43.0


From 152af954a809e5ca13286267a3aa52cd2b84c681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:34 +0000
Subject: [PATCH 47/56] fix: mock hardware fails when a mimic joint has a state
 interface the mimicked joint lacks

---
 .../src/mock_components/generic_system.cpp           | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hardware_interface/src/mock_components/generic_system.cpp b/hardware_interface/src/mock_components/generic_system.cpp
index 6afc227..afdfcae 100644
--- a/hardware_interface/src/mock_components/generic_system.cpp
+++ b/hardware_interface/src/mock_components/generic_system.cpp
@@ -533,7 +533,9 @@ return_type GenericSystem::read(const rclcpp::Time & /*time*/, const rclcpp::Dur
   {
     const auto & mimic_joint_name = joints.at(mimic_joint.joint_index).name;
     const auto & mimicked_joint_name = joints.at(mimic_joint.mimicked_joint_index).name;
-    if (has_state(mimic_joint_name + "/" + hardware_interface::HW_IF_POSITION))
+    if (
+      has_state(mimic_joint_name + "/" + hardware_interface::HW_IF_POSITION) &&
+      has_state(mimicked_joint_name + "/" + hardware_interface::HW_IF_POSITION))
     {
       set_state(
         mimic_joint_name + "/" + hardware_interface::HW_IF_POSITION,
@@ -541,14 +543,18 @@ return_type GenericSystem::read(const rclcpp::Time & /*time*/, const rclcpp::Dur
           mimic_joint.multiplier *
             get_state(mimicked_joint_name + "/" + hardware_interface::HW_IF_POSITION));
     }
-    if (has_state(mimic_joint_name + "/" + hardware_interface::HW_IF_VELOCITY))
+    if (
+      has_state(mimic_joint_name + "/" + hardware_interface::HW_IF_VELOCITY) &&
+      has_state(mimicked_joint_name + "/" + hardware_interface::HW_IF_VELOCITY))
     {
       set_state(
         mimic_joint_name + "/" + hardware_interface::HW_IF_VELOCITY,
         mimic_joint.multiplier *
           get_state(mimicked_joint_name + "/" + hardware_interface::HW_IF_VELOCITY));
     }
-    if (has_state(mimic_joint_name + "/" + hardware_interface::HW_IF_ACCELERATION))
+    if (
+      has_state(mimic_joint_name + "/" + hardware_interface::HW_IF_ACCELERATION) &&
+      has_state(mimicked_joint_name + "/" + hardware_interface::HW_IF_ACCELERATION))
     {
       set_state(
         mimic_joint_name + "/" + hardware_interface::HW_IF_ACCELERATION,
-- 
2.43.0


From 9579926ccb353c4008c584c3082c5b72e812f683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:34 +0000
Subject: [PATCH 48/56] fix: mock hardware fails when a joint with the custom
 following interface has no position command

---
 .../src/mock_components/generic_system.cpp            | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hardware_interface/src/mock_components/generic_system.cpp b/hardware_interface/src/mock_components/generic_system.cpp
index afdfcae..43aa690 100644
--- a/hardware_interface/src/mock_components/generic_system.cpp
+++ b/hardware_interface/src/mock_components/generic_system.cpp
@@ -514,12 +514,13 @@ return_type GenericSystem::read(const rclcpp::Time & /*time*/, const rclcpp::Dur
         return return_type::ERROR;
       }
     }
-    if (custom_interface_with_following_offset_ == joint_state.get()->get_interface_name())
+    const std::string position_name =
+      joint_state.get()->get_prefix_name() + "/" + hardware_interface::HW_IF_POSITION;
+    if (
+      custom_interface_with_following_offset_ == joint_state.get()->get_interface_name() &&
+      has_command(position_name))
     {
-      const auto cmd =
-        get_command(
-          joint_state.get()->get_prefix_name() + "/" + hardware_interface::HW_IF_POSITION) +
-        position_state_following_offset_;
+      const auto cmd = get_command(position_name) + position_state_following_offset_;
       if (std::isfinite(cmd))
       {
         set_state(full_interface_name, cmd);
-- 
2.43.0


From 98494440befdb0cad06f5056f9483774ba0421a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:27 +0000
Subject: [PATCH 49/56] fix: mock hardware configured again keeps its positions
 and starts in position mode

---
 .../include/mock_components/generic_system.hpp              | 1 +
 hardware_interface/src/mock_components/generic_system.cpp   | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/hardware_interface/include/mock_components/generic_system.hpp b/hardware_interface/include/mock_components/generic_system.hpp
index 25c3219..5271831 100644
--- a/hardware_interface/include/mock_components/generic_system.hpp
+++ b/hardware_interface/include/mock_components/generic_system.hpp
@@ -84,6 +84,7 @@ private:
   bool use_mock_sensor_command_interfaces_;
 
   double position_state_following_offset_;
+  bool initial_offset_applied_ = false;
   std::string custom_interface_with_following_offset_;
 
   bool calculate_dynamics_;
diff --git a/hardware_interface/src/mock_components/generic_system.cpp b/hardware_interface/src/mock_components/generic_system.cpp
index 43aa690..9bdaf82 100644
--- a/hardware_interface/src/mock_components/generic_system.cpp
+++ b/hardware_interface/src/mock_components/generic_system.cpp
@@ -315,8 +315,9 @@ hardware_interface::CallbackReturn GenericSystem::on_configure(
       {
         set_state(name, 0.0);
       }
-      // set offset anyways
+      // set offset anyways, but only once
       if (
+        !initial_offset_applied_ &&
         joint_state.second.get_interface_name() == hardware_interface::HW_IF_POSITION &&
         custom_interface_with_following_offset_.empty())
       {
@@ -324,9 +325,10 @@ hardware_interface::CallbackReturn GenericSystem::on_configure(
       }
     }
   }
+  initial_offset_applied_ = true;
   // Set position control mode per default
   // This will be populated by perform_command_mode_switch
-  joint_control_mode_.resize(get_hardware_info().joints.size(), POSITION_INTERFACE_INDEX);
+  joint_control_mode_.assign(get_hardware_info().joints.size(), POSITION_INTERFACE_INDEX);
   return hardware_interface::CallbackReturn::SUCCESS;
 }
 
-- 
2.43.0


From 5b299cedf01be7915647f80f7684f82f94b71378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:46 +0000
Subject: [PATCH 50/56] fix: the spawner fails when the parameter files cannot
 be given to the controller manager

---
 .../controller_manager/controller_manager_services.py        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/controller_manager/controller_manager/controller_manager_services.py b/controller_manager/controller_manager/controller_manager_services.py
index 4e64ffa..6031daf 100644
--- a/controller_manager/controller_manager/controller_manager_services.py
+++ b/controller_manager/controller_manager/controller_manager_services.py
@@ -486,13 +486,14 @@ def set_controller_parameters_from_param_files(
         node, controller_name, spawner_namespace, parameter_files
     )
     if controller_parameter_files:
-        set_controller_parameters(
+        if not set_controller_parameters(
             node,
             controller_manager_name,
             controller_name,
             "params_file",
             controller_parameter_files,
-        )
+        ):
+            return False
 
         controller_type = get_parameter_from_param_files(
             node, controller_name, spawner_namespace, controller_parameter_files, "type"
-- 
2.43.0


From 8bf69458b4942dc589c721e17161528c599ad2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:54 +0000
Subject: [PATCH 51/56] fix: an interrupted spawner deactivates and unloads the
 controllers it activated

---
 .../controller_manager/spawner.py             | 59 ++++++++++++-------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/controller_manager/controller_manager/spawner.py b/controller_manager/controller_manager/spawner.py
index 28c11c6..531b42d 100644
--- a/controller_manager/controller_manager/spawner.py
+++ b/controller_manager/controller_manager/spawner.py
@@ -359,6 +359,8 @@ def main(args=None):
     unload_on_kill = global_args.unload_on_kill
     node = None
     lock = None
+    # Controllers whose activation has been requested
+    controllers_requested = []
 
     def _on_shutdown_signal(signum, frame):
         raise KeyboardInterrupt()
@@ -520,6 +522,7 @@ def main(args=None):
                     if activate_as_group:
                         controllers_to_activate.append(controller_name)
                     else:
+                        controllers_requested.append(controller_name)
                         ret = switch_controllers(
                             node,
                             controller_manager_name,
@@ -545,6 +548,7 @@ def main(args=None):
                         )
 
         if activate_as_group and controllers_to_activate:
+            controllers_requested.extend(controllers_to_activate)
             ret = switch_controllers(
                 node,
                 controller_manager_name,
@@ -591,29 +595,44 @@ def main(args=None):
         if unload_on_kill:
             logger.info("KeyboardInterrupt successfully captured!")
 
-            # Determine which controllers to deactivate
-            controllers_to_deactivate = [c["name"] for c in controllers if not c["inactive"]]
-
-            if controllers_to_deactivate:
+            # Only the controllers this spawner activated are deactivated and unloaded, it may have
+            # been interrupted before all of them were active
+            if controllers_requested:
                 logger.info("Deactivating and unloading controllers...")
-                ret = switch_controllers(
-                    node,
-                    controller_manager_name,
-                    controllers_to_deactivate,
-                    [],
-                    strictness,
-                    switch_asap,
-                    switch_timeout,
-                    service_call_timeout,
-                )
-                if not ret.ok:
-                    logger.error(bcolors.FAIL + "Failed to deactivate controller" + bcolors.ENDC)
-                    return 1
+                active_controllers = [
+                    c.name
+                    for c in list_controllers(
+                        node,
+                        controller_manager_name,
+                        controller_manager_timeout,
+                        service_call_timeout,
+                    ).controller
+                    if c.state == "active"
+                ]
+                controllers_to_deactivate = [
+                    name for name in controllers_requested if name in active_controllers
+                ]
+                if controllers_to_deactivate:
+                    ret = switch_controllers(
+                        node,
+                        controller_manager_name,
+                        controllers_to_deactivate,
+                        [],
+                        strictness,
+                        switch_asap,
+                        switch_timeout,
+                        service_call_timeout,
+                    )
+                    if not ret.ok:
+                        logger.error(bcolors.FAIL + "Failed to deactivate controller" + bcolors.ENDC)
+                        return 1
 
-                logger.info(f"Successfully deactivated controllers : {controllers_to_deactivate}")
+                    logger.info(
+                        f"Successfully deactivated controllers : {controllers_to_deactivate}"
+                    )
 
                 unload_status = True
-                for controller_name in controllers_to_deactivate:
+                for controller_name in controllers_requested:
                     ret = unload_controller(
                         node,
                         controller_manager_name,
@@ -630,7 +649,7 @@ def main(args=None):
                         )
 
                 if unload_status:
-                    logger.info(f"Successfully unloaded controllers : {controllers_to_deactivate}")
+                    logger.info(f"Successfully unloaded controllers : {controllers_requested}")
                 else:
                     return 1
             else:
-- 
2.43.0


From affb3a74719a2e609e6abe0326adea62b8e3ed65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:42 +0000
Subject: [PATCH 52/56] fix: joint limiters limit commands also when a measured
 value is not a number

---
 .../include/joint_limits/joint_limits_helpers.hpp |  7 +++++++
 joint_limits/src/joint_limits_helpers.cpp         | 15 +++++++++++++++
 joint_limits/src/joint_range_limiter.cpp          |  4 +++-
 joint_limits/src/joint_soft_limiter.cpp           |  4 +++-
 4 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/joint_limits/include/joint_limits/joint_limits_helpers.hpp b/joint_limits/include/joint_limits/joint_limits_helpers.hpp
index 50ae765..7687d80 100644
--- a/joint_limits/include/joint_limits/joint_limits_helpers.hpp
+++ b/joint_limits/include/joint_limits/joint_limits_helpers.hpp
@@ -32,6 +32,13 @@ constexpr double POSITION_BOUNDS_TOLERANCE = 0.002;
 constexpr double OUT_OF_BOUNDS_EXCEPTION_TOLERANCE = 0.0087;
 }  // namespace internal
 
+/**
+ * @brief Take out the values that are not a number, as they are of an unknown quantity.
+ * @param actual The actual state of the joint.
+ * @return The actual state with only the known quantities.
+ */
+JointControlInterfacesData get_known_state(const JointControlInterfacesData & actual);
+
 /**
  * @brief Update the previous command with the desired command.
  * @param prev_command The previous command to update.
diff --git a/joint_limits/src/joint_limits_helpers.cpp b/joint_limits/src/joint_limits_helpers.cpp
index f04f70a..5c60fbd 100644
--- a/joint_limits/src/joint_limits_helpers.cpp
+++ b/joint_limits/src/joint_limits_helpers.cpp
@@ -72,6 +72,21 @@ void verify_actual_position_within_limits(
 }
 }  // namespace internal
 
+JointControlInterfacesData get_known_state(const JointControlInterfacesData & actual)
+{
+  JointControlInterfacesData known_state = actual;
+  for (auto * value :
+       {&known_state.position, &known_state.velocity, &known_state.effort,
+        &known_state.acceleration, &known_state.jerk})
+  {
+    if (value->has_value() && std::isnan(value->value()))
+    {
+      value->reset();
+    }
+  }
+  return known_state;
+}
+
 void update_prev_command(
   const JointControlInterfacesData & desired, JointControlInterfacesData & prev_command)
 {
diff --git a/joint_limits/src/joint_range_limiter.cpp b/joint_limits/src/joint_range_limiter.cpp
index 2413167..fe36016 100644
--- a/joint_limits/src/joint_range_limiter.cpp
+++ b/joint_limits/src/joint_range_limiter.cpp
@@ -43,7 +43,7 @@ bool JointSaturationLimiter<JointControlInterfacesData>::on_init()
 
 template <>
 bool JointSaturationLimiter<JointControlInterfacesData>::on_enforce(
-  const JointControlInterfacesData & actual, JointControlInterfacesData & desired,
+  const JointControlInterfacesData & measured, JointControlInterfacesData & desired,
   const rclcpp::Duration & dt)
 {
   std::lock_guard<std::mutex> lock(mutex_);
@@ -58,6 +58,8 @@ bool JointSaturationLimiter<JointControlInterfacesData>::on_enforce(
 
   const auto joint_limits = joint_limits_[0];
   const std::string joint_name = joint_names_[0];
+  // the limits still apply if a measured value is not available
+  const JointControlInterfacesData actual = get_known_state(measured);
   // The following conditional filling is needed for cases of having certain information missing
   if (!prev_command_.has_data())
   {
diff --git a/joint_limits/src/joint_soft_limiter.cpp b/joint_limits/src/joint_soft_limiter.cpp
index 0e070fe..8e8439b 100644
--- a/joint_limits/src/joint_soft_limiter.cpp
+++ b/joint_limits/src/joint_soft_limiter.cpp
@@ -25,7 +25,7 @@ namespace joint_limits
 {
 
 bool JointSoftLimiter::on_enforce(
-  const JointControlInterfacesData & actual, JointControlInterfacesData & desired,
+  const JointControlInterfacesData & measured, JointControlInterfacesData & desired,
   const rclcpp::Duration & dt)
 {
   std::lock_guard<std::mutex> lock(mutex_);
@@ -46,6 +46,8 @@ bool JointSoftLimiter::on_enforce(
   }
 
   const std::string joint_name = joint_names_[0];
+  // the limits still apply if a measured value is not available
+  const JointControlInterfacesData actual = get_known_state(measured);
 
   if (!prev_command_.has_data())
   {
-- 
2.43.0


From 8fd8d33b9a6c43c862d9a6900566be85a2550047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:07 +0000
Subject: [PATCH 53/56] fix: the velocity limiter keeps to the maximum velocity
 slightly out of the position bounds

The velocity that brings the joint back in one period can exceed the maximum
velocity, which became a bound of the range of velocities allowed then.
---
 joint_limits/src/joint_limits_helpers.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/joint_limits/src/joint_limits_helpers.cpp b/joint_limits/src/joint_limits_helpers.cpp
index 5c60fbd..d7444e6 100644
--- a/joint_limits/src/joint_limits_helpers.cpp
+++ b/joint_limits/src/joint_limits_helpers.cpp
@@ -171,8 +171,11 @@ VelocityLimits compute_velocity_limits(
     const double actual_pos = act_pos.value();
     const double max_vel_with_pos_limits = (limits.max_position - actual_pos) / dt;
     const double min_vel_with_pos_limits = (limits.min_position - actual_pos) / dt;
-    vel_limits.lower_limit = std::max(min_vel_with_pos_limits, vel_limits.lower_limit);
-    vel_limits.upper_limit = std::min(max_vel_with_pos_limits, vel_limits.upper_limit);
+    // Slightly out of bounds, coming back in one period may take more than the maximum velocity
+    vel_limits.lower_limit =
+      std::max(std::min(min_vel_with_pos_limits, limits.max_velocity), -limits.max_velocity);
+    vel_limits.upper_limit =
+      std::min(std::max(max_vel_with_pos_limits, -limits.max_velocity), limits.max_velocity);
 
     if (actual_pos > limits.max_position || actual_pos < limits.min_position)
     {
-- 
2.43.0


From 3ffa5c9c2eb6ccd9781dd27dd9677ecfb2b641db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:22 +0000
Subject: [PATCH 54/56] fix: an exception of an asynchronous hardware cycle is
 reported once and does not end the cycles for good

---
 .../src/hardware_component_interface.cpp      | 33 ++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/src/hardware_component_interface.cpp b/hardware_interface/src/hardware_component_interface.cpp
index 26a845d..442a102 100644
--- a/hardware_interface/src/hardware_component_interface.cpp
+++ b/hardware_interface/src/hardware_component_interface.cpp
@@ -17,6 +17,7 @@
 #include <algorithm>
 #include <memory>
 #include <string>
+#include <utility>
 #include <vector>
 
 #include "rclcpp/node_options.hpp"
@@ -40,6 +41,9 @@ public:
   std::atomic<std::chrono::nanoseconds> read_execution_time_ = std::chrono::nanoseconds::zero();
   std::atomic<return_type> write_return_info_ = return_type::OK;
   std::atomic<std::chrono::nanoseconds> write_execution_time_ = std::chrono::nanoseconds::zero();
+  // exception of an asynchronous cycle; belongs to the trigger while the flag is set
+  std::exception_ptr async_exception_ = nullptr;
+  std::atomic<bool> has_async_exception_ = false;
 
   std::shared_ptr<rclcpp::Publisher<control_msgs::msg::HardwareStatus>> hardware_status_publisher_;
   realtime_tools::RealtimeThreadSafeBox<std::optional<control_msgs::msg::HardwareStatus>>
@@ -87,7 +91,7 @@ CallbackReturn HardwareComponentInterface::init(
       async_thread_params.scheduling_policy.to_string().c_str());
     async_handler_ = std::make_unique<realtime_tools::AsyncFunctionHandler<return_type>>();
     const bool is_sensor_type = (info_.type == "sensor");
-    async_handler_->init(
+    const auto run_cycle =
       [this, is_sensor_type](const rclcpp::Time & time, const rclcpp::Duration & period)
       {
         const auto read_start_time = std::chrono::steady_clock::now();
@@ -115,6 +119,25 @@ CallbackReturn HardwareComponentInterface::init(
           return ret_write;
         }
         return return_type::OK;
+      };
+    async_handler_->init(
+      [this, run_cycle](const rclcpp::Time & time, const rclcpp::Duration & period)
+      {
+        try
+        {
+          return run_cycle(time, period);
+        }
+        catch (...)
+        {
+          // Reported by the next trigger. It must not leave the handler, which would not run any
+          // further cycle, not even after the component has been brought up again
+          if (!impl_->has_async_exception_.load(std::memory_order_acquire))
+          {
+            impl_->async_exception_ = std::current_exception();
+            impl_->has_async_exception_.store(true, std::memory_order_release);
+          }
+          return return_type::ERROR;
+        }
       },
       async_thread_params);
     async_handler_->start_thread();
@@ -419,6 +442,12 @@ HardwareComponentCycleStatus HardwareComponentInterface::trigger_read(
   status.result = return_type::ERROR;
   if (info_.is_async)
   {
+    if (impl_->has_async_exception_.load(std::memory_order_acquire))
+    {
+      const auto exception = std::exchange(impl_->async_exception_, nullptr);
+      impl_->has_async_exception_.store(false, std::memory_order_release);
+      std::rethrow_exception(exception);
+    }
     status.result = impl_->read_return_info_.load(std::memory_order_acquire);
     const auto read_exec_time = impl_->read_execution_time_.load(std::memory_order_acquire);
     if (read_exec_time.count() > 0)
@@ -573,6 +602,8 @@ void HardwareComponentInterface::prepare_for_activation()
   impl_->read_execution_time_.store(std::chrono::nanoseconds::zero(), std::memory_order_release);
   impl_->write_return_info_.store(return_type::OK, std::memory_order_release);
   impl_->write_execution_time_.store(std::chrono::nanoseconds::zero(), std::memory_order_release);
+  impl_->async_exception_ = nullptr;
+  impl_->has_async_exception_.store(false, std::memory_order_release);
 }
 
 void HardwareComponentInterface::enable_introspection(bool enable)
-- 
2.43.0


From dbffb120acdf1c559c68391353af809260248ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:55 +0000
Subject: [PATCH 55/56] fix: outcomes of asynchronous hardware cycles of an
 earlier life are not reported after configuring again

---
 hardware_interface/src/hardware_component.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hardware_interface/src/hardware_component.cpp b/hardware_interface/src/hardware_component.cpp
index 1efdad8..7b220e4 100644
--- a/hardware_interface/src/hardware_component.cpp
+++ b/hardware_interface/src/hardware_component.cpp
@@ -85,6 +85,8 @@ const rclcpp_lifecycle::State & HardwareComponent::configure()
   if (impl_->get_lifecycle_id() == lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED)
   {
     impl_->pause_async_operations();
+    // what the asynchronous cycles of an earlier life left behind is no fault of this one
+    impl_->prepare_for_activation();
     switch (impl_->on_configure(impl_->get_lifecycle_state()))
     {
       case CallbackReturn::SUCCESS:
-- 
2.43.0


From 71ed56e14a87cb545a1ff6728bc8cfa1597b4580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:36 +0000
Subject: [PATCH 56/56] fix: the chain connections of a listed controller name
 only the interfaces of the controller they lead to

---
 controller_manager/src/controller_manager.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 6f3b07d..63e1978 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2986,7 +2986,8 @@ void ControllerManager::list_controllers_srv_cb(
     rt_controllers_wrapper_.controllers_lock_);
   const std::vector<ControllerSpec> & controllers = rt_controllers_wrapper_.get_updated_list(guard);
   // create helper containers to create chained controller connections
-  std::unordered_map<std::string, std::vector<std::string>> controller_chain_interface_map;
+  std::unordered_map<std::string, std::map<std::string, std::vector<std::string>>>
+    controller_chain_interface_map;
   std::unordered_map<std::string, std::set<std::string>> controller_chain_map;
   std::vector<size_t> chained_controller_indices;
   for (size_t i = 0; i < controllers.size(); ++i)
@@ -3036,7 +3037,7 @@ void ControllerManager::list_controllers_srv_cb(
         if (controller_chain_map.find(prefix) != controller_chain_map.end())
         {
           controller_chain_map[controller_state.name].insert(prefix);
-          controller_chain_interface_map[controller_state.name].push_back(interface_type);
+          controller_chain_interface_map[controller_state.name][prefix].push_back(interface_type);
         }
       }
       // check reference interfaces only if controller is inactive or active
@@ -3082,7 +3083,8 @@ void ControllerManager::list_controllers_srv_cb(
     {
       controller_manager_msgs::msg::ChainConnection connection;
       connection.name = chained_name;
-      connection.reference_interfaces = controller_chain_interface_map[controller_state.name];
+      connection.reference_interfaces =
+        controller_chain_interface_map[controller_state.name][chained_name];
       controller_state.chain_connections.push_back(connection);
     }
   }
-- 
2.43.0

