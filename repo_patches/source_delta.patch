From 14f8b5ef4c59cc5919ddbb9ea6a4936e2108d224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 01/71] fix: refuse negative numbers that wrap around in the
 unsigned lexical casts

---
 .../include/hardware_interface/lexical_casts.hpp               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/include/hardware_interface/lexical_casts.hpp b/hardware_interface/include/hardware_interface/lexical_casts.hpp
index 9826f19..56d9652 100644
--- a/hardware_interface/include/hardware_interface/lexical_casts.hpp
+++ b/hardware_interface/include/hardware_interface/lexical_casts.hpp
@@ -83,7 +83,8 @@ T stoui_generic(const std::string & s)
   {
     throw std::invalid_argument("Invalid characters in string");
   }
-  if (v > std::numeric_limits<T>::max())
+  // std::stoul wraps negative numbers around instead of refusing them
+  if (v > std::numeric_limits<T>::max() || (v != 0 && s.find('-') != std::string::npos))
   {
     throw std::out_of_range("value not in range of target type");
   }
-- 
2.43.0


From 1e674b74311b2d6ef9a401f66f089812812fe1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 02/71] fix: do not accept two signs ('+-1') as a real number

---
 hardware_interface/src/lexical_casts.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hardware_interface/src/lexical_casts.cpp b/hardware_interface/src/lexical_casts.cpp
index 5afd197..8430d4a 100644
--- a/hardware_interface/src/lexical_casts.cpp
+++ b/hardware_interface/src/lexical_casts.cpp
@@ -44,7 +44,7 @@ std::optional<FloatingPointType> parse_floating_point_with_from_chars(const std:
   if (*begin == '+')
   {
     ++begin;
-    if (begin == end)
+    if (begin == end || *begin == '-')
     {
       return std::nullopt;
     }
-- 
2.43.0


From a231c95839a3177f5809854f9443ed17a24a065e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 03/71] fix: parse arrays in one pass instead of with
 exponential-time regular expressions

---
 .../hardware_interface/lexical_casts.hpp      | 55 +++++++++----------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/hardware_interface/include/hardware_interface/lexical_casts.hpp b/hardware_interface/include/hardware_interface/lexical_casts.hpp
index 56d9652..cbc118b 100644
--- a/hardware_interface/include/hardware_interface/lexical_casts.hpp
+++ b/hardware_interface/include/hardware_interface/lexical_casts.hpp
@@ -17,7 +17,6 @@
 
 #include <cstdint>
 #include <limits>
-#include <regex>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -115,45 +114,43 @@ bool parse_bool(const std::string & bool_string);
 template <typename T>
 std::vector<T> parse_array(const std::string & array_string)
 {
-  // Use regex to check for a flat array: starts with [, ends with ], no nested brackets
-  const std::regex array_regex(R"(^\[\s*([^\[\]]*\s*(,\s*[^\[\]]+\s*)*)?\]$)");
-  if (!std::regex_match(array_string, array_regex))
+  // A flat array starts with [, ends with ] and has no nested brackets
+  if (
+    array_string.size() < 2 || array_string.front() != '[' || array_string.back() != ']' ||
+    array_string.find_first_of("[]", 1) != array_string.size() - 1)
   {
     throw std::invalid_argument(
       "String must be a flat array: starts with '[' and ends with ']', no nested arrays");
   }
 
-  // Use regex for the expression that either empty or contains only spaces
-  const std::regex empty_or_spaces_regex(R"(^\[\s*\]$)");
-  if (std::regex_match(array_string, empty_or_spaces_regex))
-  {
-    return {};  // Return empty array if input is "[]"
-  }
-
-  // Use regex to find cases of comma-separated but only whitespaces or no spaces between them like
-  // "[,]" "[a,b,,c]"
-  const std::regex comma_separated_regex(R"(^\[\s*([^,\s]+(\s*,\s*[^,\s]+)*)?\s*\]$)");
-  if (!std::regex_match(array_string, comma_separated_regex))
-  {
-    throw std::invalid_argument(
-      "String must be a flat array with comma-separated values and no spaces between them");
-  }
+  const std::string whitespace = " \t\n\r\f\v";
+  const std::string content = array_string.substr(1, array_string.size() - 2);
 
   std::vector<T> result = {};
-  if (array_string == "[]")
+  if (content.find_first_not_of(whitespace) == std::string::npos)
   {
-    return result;  // Return empty array if input is "[]"
+    return result;  // Return empty array if input is "[]" or contains only spaces
   }
 
-  // regex for comma separated values and no spaces between them or just content like "[a,b,c]" or
-  // "[a]" or "[a, b, c]"
-  const std::regex value_regex(R"([^\s,\[\]]+)");
-  auto begin = std::sregex_iterator(array_string.begin(), array_string.end(), value_regex);
-  auto end = std::sregex_iterator();
-
-  for (auto it = begin; it != end; ++it)
+  // Scan the comma separated values like "[a,b,c]" or "[a]" or "[a, b, c]". A single pass is used
+  // because regular expressions need exponential time and deep recursion on long invalid inputs.
+  for (size_t item_begin = 0, item_end = 0; item_end != std::string::npos;
+       item_begin = item_end + 1)
   {
-    const std::string value_str = it->str();  // Get the first capturing group
+    item_end = content.find(',', item_begin);
+    const std::string item = content.substr(
+      item_begin, item_end == std::string::npos ? item_end : item_end - item_begin);
+    const size_t value_begin = item.find_first_not_of(whitespace);
+    if (value_begin == std::string::npos)
+    {
+      throw std::invalid_argument("The values of an array must not be empty");
+    }
+    const std::string value_str =
+      item.substr(value_begin, item.find_last_not_of(whitespace) - value_begin + 1);
+    if (value_str.find_first_of(whitespace) != std::string::npos)
+    {
+      throw std::invalid_argument("The values of an array must be separated by commas");
+    }
     if constexpr (std::is_same_v<T, std::string>)
     {
       result.push_back(value_str);
-- 
2.43.0


From 93ebe89c485f2dc7ff56ea3b0897bc275534d0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 04/71] fix: refuse array items that are no integer of the
 requested type

---
 .../include/hardware_interface/lexical_casts.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/hardware_interface/include/hardware_interface/lexical_casts.hpp b/hardware_interface/include/hardware_interface/lexical_casts.hpp
index cbc118b..681782d 100644
--- a/hardware_interface/include/hardware_interface/lexical_casts.hpp
+++ b/hardware_interface/include/hardware_interface/lexical_casts.hpp
@@ -15,8 +15,10 @@
 #ifndef HARDWARE_INTERFACE__LEXICAL_CASTS_HPP_
 #define HARDWARE_INTERFACE__LEXICAL_CASTS_HPP_
 
+#include <cmath>
 #include <cstdint>
 #include <limits>
+#include <regex>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -163,8 +165,18 @@ std::vector<T> parse_array(const std::string & array_string)
     {
       try
       {
-        const T value = static_cast<T>(hardware_interface::stod(value_str));
-        result.push_back(value);
+        const double value = hardware_interface::stod(value_str);
+        if constexpr (std::is_integral_v<T>)
+        {
+          if (
+            std::trunc(value) != value ||
+            value < static_cast<double>(std::numeric_limits<T>::min()) ||
+            value >= std::ldexp(1.0, std::numeric_limits<T>::digits))
+          {
+            throw std::out_of_range("value is not an integer in range of target type");
+          }
+        }
+        result.push_back(static_cast<T>(value));
       }
       catch (const std::exception &)
       {
-- 
2.43.0


From 17dffae608bac465fb3ff87941374e19f253b749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 05/71] fix: keep moved handles pointing at their own value and
 allow self-move

---
 .../include/hardware_interface/handle.hpp           | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/include/hardware_interface/handle.hpp b/hardware_interface/include/hardware_interface/handle.hpp
index aef84b1..750dd49 100644
--- a/hardware_interface/include/hardware_interface/handle.hpp
+++ b/hardware_interface/include/hardware_interface/handle.hpp
@@ -278,7 +278,10 @@ public:
 
   Handle & operator=(Handle && other)
   {
-    swap(*this, other);
+    if (this != &other)
+    {
+      swap(*this, other);
+    }
     return *this;
   }
 
@@ -616,6 +619,14 @@ private:
     std::swap(first.value_, second.value_);
     std::swap(first.data_type_, second.data_type_);
     std::swap(first.value_ptr_, second.value_ptr_);
+    // the pointer has to follow the storage if the value is stored inside of the handle
+    for (Handle * handle : {&first, &second})
+    {
+      if (!std::holds_alternative<std::monostate>(handle->value_))
+      {
+        handle->value_ptr_ = std::get_if<double>(&handle->value_);
+      }
+    }
   }
 
 protected:
-- 
2.43.0


From 6e833731d490ce6dcc8da47299de171d09937846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 06/71] fix: do not leave a leading slash or access an empty
 string in resolve_tf_prefix

---
 .../include/controller_interface/tf_prefix.hpp           | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/controller_interface/include/controller_interface/tf_prefix.hpp b/controller_interface/include/controller_interface/tf_prefix.hpp
index 3f769b1..312bf3d 100644
--- a/controller_interface/include/controller_interface/tf_prefix.hpp
+++ b/controller_interface/include/controller_interface/tf_prefix.hpp
@@ -39,16 +39,13 @@ inline std::string resolve_tf_prefix(const std::string & prefix, const std::stri
     nprefix.replace(pos, 1, node_ns);
   }
 
+  // remove leading '/', there can be several of them if the namespace is "/"
+  nprefix.erase(0, nprefix.find_first_not_of('/'));
   // ensure trailing '/'
-  if (nprefix.back() != '/')
+  if (!nprefix.empty() && nprefix.back() != '/')
   {
     nprefix.push_back('/');
   }
-  // remove leading '/'
-  if (nprefix.front() == '/')
-  {
-    nprefix.erase(0, 1);
-  }
   return nprefix;
 }
 }  // namespace controller_interface
-- 
2.43.0


From 82b66772a9641e0a7206581f26e7f070c6260b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:47 +0000
Subject: [PATCH 07/71] fix: statistics are NaN without observations and usable
 without a first reset

---
 .../hardware_interface/types/statistics_types.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/hardware_interface/include/hardware_interface/types/statistics_types.hpp b/hardware_interface/include/hardware_interface/types/statistics_types.hpp
index 78601ff..f952f06 100644
--- a/hardware_interface/include/hardware_interface/types/statistics_types.hpp
+++ b/hardware_interface/include/hardware_interface/types/statistics_types.hpp
@@ -148,10 +148,10 @@ public:
   void reset()
   {
     std::lock_guard<DEFAULT_MUTEX> lock(mutex_);
-    statistics_data_.average = 0.0;
-    statistics_data_.min = std::numeric_limits<double>::max();
-    statistics_data_.max = std::numeric_limits<double>::lowest();
-    statistics_data_.standard_deviation = 0.0;
+    statistics_data_.average = std::numeric_limits<double>::quiet_NaN();
+    statistics_data_.min = std::numeric_limits<double>::quiet_NaN();
+    statistics_data_.max = std::numeric_limits<double>::quiet_NaN();
+    statistics_data_.standard_deviation = std::numeric_limits<double>::quiet_NaN();
     statistics_data_.sample_count = 0;
     current_measurement_ = std::numeric_limits<double>::quiet_NaN();
     sum_of_square_diff_from_mean_ = 0;
@@ -176,6 +176,13 @@ public:
     current_measurement_ = item;
     if (std::isfinite(item))
     {
+      if (statistics_data_.sample_count == 0)
+      {
+        // there are no statistics (NaN) before the first observation
+        statistics_data_.average = 0.0;
+        statistics_data_.min = item;
+        statistics_data_.max = item;
+      }
       statistics_data_.sample_count = statistics_data_.sample_count + 1;
       const double previous_average = statistics_data_.average;
       statistics_data_.average =
-- 
2.43.0


From 2740fb2363155c9520bc9370cff6238cfe8b01dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 08/71] fix: refuse four bar linkages without a complete pair
 of interfaces

---
 .../four_bar_linkage_transmission.hpp                       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/transmission_interface/include/transmission_interface/four_bar_linkage_transmission.hpp b/transmission_interface/include/transmission_interface/four_bar_linkage_transmission.hpp
index fc178a6..25cac1d 100644
--- a/transmission_interface/include/transmission_interface/four_bar_linkage_transmission.hpp
+++ b/transmission_interface/include/transmission_interface/four_bar_linkage_transmission.hpp
@@ -263,9 +263,9 @@ void FourBarLinkageTransmission::configure(
   }
 
   if (
-    joint_position_.size() != actuator_position_.size() &&
-    joint_velocity_.size() != actuator_velocity_.size() &&
-    joint_effort_.size() != actuator_effort_.size())
+    !(joint_position_.size() == 2 && actuator_position_.size() == 2) &&
+    !(joint_velocity_.size() == 2 && actuator_velocity_.size() == 2) &&
+    !(joint_effort_.size() == 2 && actuator_effort_.size() == 2))
   {
     throw Exception(
       fmt::format(FMT_COMPILE("Pair-wise mismatch on interfaces. \n{}"), get_handles_info()));
-- 
2.43.0


From 234ff210daa597e08ae812b58dfdc7a8e1e68a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:29 +0000
Subject: [PATCH 09/71] fix: honour the position and jerk limit switches and
 ignore non-finite joint states when limiting

---
 joint_limits/src/joint_limits_helpers.cpp | 34 ++++++++++++++++-------
 joint_limits/src/joint_range_limiter.cpp  | 23 +++++++--------
 joint_limits/src/joint_soft_limiter.cpp   | 23 +++++++--------
 3 files changed, 48 insertions(+), 32 deletions(-)

diff --git a/joint_limits/src/joint_limits_helpers.cpp b/joint_limits/src/joint_limits_helpers.cpp
index 5f41cfa..5b06a84 100644
--- a/joint_limits/src/joint_limits_helpers.cpp
+++ b/joint_limits/src/joint_limits_helpers.cpp
@@ -20,6 +20,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <limits>
 
 #include "rclcpp/logging.hpp"
 
@@ -38,6 +39,14 @@ void check_and_swap_limits(double & lower_limit, double & upper_limit)
   }
 }
 
+/**
+ * @brief Check if there is a value which can be used to compute limits.
+ */
+bool is_finite(const std::optional<double> & value)
+{
+  return value.has_value() && std::isfinite(value.value());
+}
+
 /**
  * @brief Verify if the actual position is within the limits and if not, log an error and throw an
  * exception.
@@ -75,23 +84,23 @@ void verify_actual_position_within_limits(
 void update_prev_command(
   const JointControlInterfacesData & desired, JointControlInterfacesData & prev_command)
 {
-  if (desired.has_position() && !std::isnan(desired.position.value()))
+  if (desired.has_position() && std::isfinite(desired.position.value()))
   {
     prev_command.position = desired.position;
   }
-  if (desired.has_velocity() && !std::isnan(desired.velocity.value()))
+  if (desired.has_velocity() && std::isfinite(desired.velocity.value()))
   {
     prev_command.velocity = desired.velocity;
   }
-  if (desired.has_effort() && !std::isnan(desired.effort.value()))
+  if (desired.has_effort() && std::isfinite(desired.effort.value()))
   {
     prev_command.effort = desired.effort;
   }
-  if (desired.has_acceleration() && !std::isnan(desired.acceleration.value()))
+  if (desired.has_acceleration() && std::isfinite(desired.acceleration.value()))
   {
     prev_command.acceleration = desired.acceleration;
   }
-  if (desired.has_jerk() && !std::isnan(desired.jerk.value()))
+  if (desired.has_jerk() && std::isfinite(desired.jerk.value()))
   {
     prev_command.jerk = desired.jerk;
   }
@@ -105,7 +114,12 @@ PositionLimits compute_position_limits(
   const std::optional<double> & act_vel, const std::optional<double> & act_pos,
   const std::optional<double> & prev_command_pos, double dt)
 {
-  PositionLimits pos_limits(limits.min_position, limits.max_position);
+  PositionLimits pos_limits(
+    -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::infinity());
+  if (limits.has_position_limits)
+  {
+    pos_limits = PositionLimits(limits.min_position, limits.max_position);
+  }
   internal::verify_actual_position_within_limits(joint_name, act_pos, limits);
   if (limits.has_velocity_limits)
   {
@@ -121,8 +135,8 @@ PositionLimits compute_position_limits(
     /// exists (e.g., first position command after operating in another mode). Skip
     /// velocity-constrained narrowing entirely when neither reference is available.
     const std::optional<double> & pos_ref =
-      prev_command_pos.has_value() ? prev_command_pos : act_pos;
-    if (pos_ref.has_value())
+      internal::is_finite(prev_command_pos) ? prev_command_pos : act_pos;
+    if (internal::is_finite(pos_ref))
     {
       const double position_reference = pos_ref.value();
       pos_limits.lower_limit = std::max(
@@ -146,7 +160,7 @@ VelocityLimits compute_velocity_limits(
       -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::infinity());
   }
   VelocityLimits vel_limits(-limits.max_velocity, limits.max_velocity);
-  if (limits.has_position_limits && act_pos.has_value())
+  if (limits.has_position_limits && act_pos.has_value() && !std::isnan(act_pos.value()))
   {
     const double actual_pos = act_pos.value();
     const double max_vel_with_pos_limits = (limits.max_position - actual_pos) / dt;
@@ -186,7 +200,7 @@ VelocityLimits compute_velocity_limits(
       }
     }
   }
-  if (limits.has_acceleration_limits && prev_command_vel.has_value())
+  if (limits.has_acceleration_limits && internal::is_finite(prev_command_vel))
   {
     const double delta_vel = limits.max_acceleration * dt;
     vel_limits.lower_limit = std::max(prev_command_vel.value() - delta_vel, vel_limits.lower_limit);
diff --git a/joint_limits/src/joint_range_limiter.cpp b/joint_limits/src/joint_range_limiter.cpp
index 5b94914..80e16c1 100644
--- a/joint_limits/src/joint_range_limiter.cpp
+++ b/joint_limits/src/joint_range_limiter.cpp
@@ -63,55 +63,55 @@ bool JointSaturationLimiter<JointControlInterfacesData>::on_enforce(
   {
     if (desired.has_position())
     {
-      if (actual.has_position())
+      if (actual.has_position() && std::isfinite(actual.position.value()))
       {
         prev_command_.position = actual.position;
       }
-      else if (!std::isnan(desired.position.value()))
+      else if (std::isfinite(desired.position.value()))
       {
         prev_command_.position = desired.position;
       }
     }
     if (desired.has_velocity())
     {
-      if (actual.has_velocity())
+      if (actual.has_velocity() && std::isfinite(actual.velocity.value()))
       {
         prev_command_.velocity = actual.velocity;
       }
-      else if (!std::isnan(desired.velocity.value()))
+      else if (std::isfinite(desired.velocity.value()))
       {
         prev_command_.velocity = desired.velocity;
       }
     }
     if (desired.has_effort())
     {
-      if (actual.has_effort())
+      if (actual.has_effort() && std::isfinite(actual.effort.value()))
       {
         prev_command_.effort = actual.effort;
       }
-      else if (!std::isnan(desired.effort.value()))
+      else if (std::isfinite(desired.effort.value()))
       {
         prev_command_.effort = desired.effort;
       }
     }
     if (desired.has_acceleration())
     {
-      if (actual.has_acceleration())
+      if (actual.has_acceleration() && std::isfinite(actual.acceleration.value()))
       {
         prev_command_.acceleration = actual.acceleration;
       }
-      else if (!std::isnan(desired.acceleration.value()))
+      else if (std::isfinite(desired.acceleration.value()))
       {
         prev_command_.acceleration = desired.acceleration;
       }
     }
     if (desired.has_jerk())
     {
-      if (actual.has_jerk())
+      if (actual.has_jerk() && std::isfinite(actual.jerk.value()))
       {
         prev_command_.jerk = actual.jerk;
       }
-      else if (!std::isnan(desired.jerk.value()))
+      else if (std::isfinite(desired.jerk.value()))
       {
         prev_command_.jerk = desired.jerk;
       }
@@ -166,7 +166,8 @@ bool JointSaturationLimiter<JointControlInterfacesData>::on_enforce(
       std::clamp(desired.acceleration.value(), limits.lower_limit, limits.upper_limit);
   }
 
-  if (desired.has_jerk() && !std::isnan(desired.jerk.value()))
+  if (
+    joint_limits.has_jerk_limits && desired.has_jerk() && !std::isnan(desired.jerk.value()))
   {
     limits_enforced =
       is_limited(desired.jerk.value(), -joint_limits.max_jerk, joint_limits.max_jerk) ||
diff --git a/joint_limits/src/joint_soft_limiter.cpp b/joint_limits/src/joint_soft_limiter.cpp
index 5fa3d92..7e83a00 100644
--- a/joint_limits/src/joint_soft_limiter.cpp
+++ b/joint_limits/src/joint_soft_limiter.cpp
@@ -49,55 +49,55 @@ bool JointSoftLimiter::on_enforce(
   {
     if (desired.has_position())
     {
-      if (actual.has_position())
+      if (actual.has_position() && std::isfinite(actual.position.value()))
       {
         prev_command_.position = actual.position;
       }
-      else if (!std::isnan(desired.position.value()))
+      else if (std::isfinite(desired.position.value()))
       {
         prev_command_.position = desired.position;
       }
     }
     if (desired.has_velocity())
     {
-      if (actual.has_velocity())
+      if (actual.has_velocity() && std::isfinite(actual.velocity.value()))
       {
         prev_command_.velocity = actual.velocity;
       }
-      else if (!std::isnan(desired.velocity.value()))
+      else if (std::isfinite(desired.velocity.value()))
       {
         prev_command_.velocity = desired.velocity;
       }
     }
     if (desired.has_effort())
     {
-      if (actual.has_effort())
+      if (actual.has_effort() && std::isfinite(actual.effort.value()))
       {
         prev_command_.effort = actual.effort;
       }
-      else if (!std::isnan(desired.effort.value()))
+      else if (std::isfinite(desired.effort.value()))
       {
         prev_command_.effort = desired.effort;
       }
     }
     if (desired.has_acceleration())
     {
-      if (actual.has_acceleration())
+      if (actual.has_acceleration() && std::isfinite(actual.acceleration.value()))
       {
         prev_command_.acceleration = actual.acceleration;
       }
-      else if (!std::isnan(desired.acceleration.value()))
+      else if (std::isfinite(desired.acceleration.value()))
       {
         prev_command_.acceleration = desired.acceleration;
       }
     }
     if (desired.has_jerk())
     {
-      if (actual.has_jerk())
+      if (actual.has_jerk() && std::isfinite(actual.jerk.value()))
       {
         prev_command_.jerk = actual.jerk;
       }
-      else if (!std::isnan(desired.jerk.value()))
+      else if (std::isfinite(desired.jerk.value()))
       {
         prev_command_.jerk = desired.jerk;
       }
@@ -268,7 +268,8 @@ bool JointSoftLimiter::on_enforce(
       std::clamp(desired.acceleration.value(), limits.lower_limit, limits.upper_limit);
   }
 
-  if (desired.has_jerk() && !std::isnan(desired.jerk.value()))
+  if (
+    hard_limits.has_jerk_limits && desired.has_jerk() && !std::isnan(desired.jerk.value()))
   {
     limits_enforced =
       is_limited(desired.jerk.value(), -hard_limits.max_jerk, hard_limits.max_jerk) ||
-- 
2.43.0


From e90fded6d54b4c4731b23a3063f2ed817cc295ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:09 +0000
Subject: [PATCH 10/71] fix: respect the hard limits in the soft limiter when
 soft and hard bounds do not overlap

---
 joint_limits/src/joint_soft_limiter.cpp | 39 +++++++++++++++++--------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/joint_limits/src/joint_soft_limiter.cpp b/joint_limits/src/joint_soft_limiter.cpp
index 7e83a00..776ac2d 100644
--- a/joint_limits/src/joint_soft_limiter.cpp
+++ b/joint_limits/src/joint_soft_limiter.cpp
@@ -115,7 +115,7 @@ bool JointSoftLimiter::on_enforce(
   double soft_min_vel = -std::numeric_limits<double>::infinity();
   double soft_max_vel = std::numeric_limits<double>::infinity();
   const double act_position =
-    actual.has_position()
+    (actual.has_position() && !std::isnan(actual.position.value()))
       ? actual.position.value()
       : ((prev_command_.has_position() && std::isfinite(prev_command_.position.value()))
            ? prev_command_.position.value()
@@ -198,6 +198,11 @@ bool JointSoftLimiter::on_enforce(
     {
       pos_low = vel_clamped_pos_low;
       pos_high = vel_clamped_pos_high;
+      if (hard_limits.has_position_limits)
+      {
+        pos_low = std::clamp(pos_low, hard_limits.min_position, hard_limits.max_position);
+        pos_high = std::clamp(pos_high, hard_limits.min_position, hard_limits.max_position);
+      }
     }
 
     limits_enforced = is_limited(desired.position.value(), pos_low, pos_high);
@@ -212,16 +217,24 @@ bool JointSoftLimiter::on_enforce(
 
     if (
       hard_limits.has_velocity_limits && hard_limits.has_acceleration_limits &&
-      actual.has_velocity())
+      actual.has_velocity() && std::isfinite(actual.velocity.value()))
     {
-      soft_min_vel =
-        std::max(actual.velocity.value() - hard_limits.max_acceleration * dt_seconds, soft_min_vel);
-      soft_max_vel =
-        std::min(actual.velocity.value() + hard_limits.max_acceleration * dt_seconds, soft_max_vel);
+      // If the soft range cannot be reached with the acceleration limit, then its closest bound is
+      // used, so that std::clamp always gets a valid [lo, hi] pair
+      const double delta_vel = hard_limits.max_acceleration * dt_seconds;
+      const double reachable_min_vel =
+        std::clamp(actual.velocity.value() - delta_vel, soft_min_vel, soft_max_vel);
+      const double reachable_max_vel =
+        std::clamp(actual.velocity.value() + delta_vel, soft_min_vel, soft_max_vel);
+      soft_min_vel = reachable_min_vel;
+      soft_max_vel = reachable_max_vel;
     }
 
-    soft_min_vel = std::max(soft_min_vel, velocity_limits.lower_limit);
-    soft_max_vel = std::min(soft_max_vel, velocity_limits.upper_limit);
+    // the hard limits have to be respected in any case
+    soft_min_vel =
+      std::clamp(soft_min_vel, velocity_limits.lower_limit, velocity_limits.upper_limit);
+    soft_max_vel =
+      std::clamp(soft_max_vel, velocity_limits.lower_limit, velocity_limits.upper_limit);
 
     limits_enforced =
       is_limited(desired.velocity.value(), soft_min_vel, soft_max_vel) || limits_enforced;
@@ -237,8 +250,9 @@ bool JointSoftLimiter::on_enforce(
     double soft_max_eff = effort_limits.upper_limit;
 
     if (
-      hard_limits.has_effort_limits && std::isfinite(soft_joint_limits.k_velocity) &&
-      actual.has_velocity())
+      hard_limits.has_effort_limits && hard_limits.has_velocity_limits &&
+      std::isfinite(soft_joint_limits.k_velocity) && actual.has_velocity() &&
+      std::isfinite(actual.velocity.value()))
     {
       soft_min_eff = std::clamp(
         -soft_joint_limits.k_velocity * (actual.velocity.value() - soft_min_vel),
@@ -248,8 +262,9 @@ bool JointSoftLimiter::on_enforce(
         -soft_joint_limits.k_velocity * (actual.velocity.value() - soft_max_vel),
         -hard_limits.max_effort, hard_limits.max_effort);
 
-      soft_min_eff = std::max(soft_min_eff, effort_limits.lower_limit);
-      soft_max_eff = std::min(soft_max_eff, effort_limits.upper_limit);
+      // the hard limits have to be respected in any case
+      soft_min_eff = std::clamp(soft_min_eff, effort_limits.lower_limit, effort_limits.upper_limit);
+      soft_max_eff = std::clamp(soft_max_eff, effort_limits.lower_limit, effort_limits.upper_limit);
     }
 
     limits_enforced =
-- 
2.43.0


From 36e7d1b578d9da0813704f489241926d17d7b13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 11/71] fix: keep trajectory points inside the limits and do
 not turn a zero velocity into a motion

---
 joint_limits/src/joint_saturation_limiter.cpp | 45 ++++++++++++++++---
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/joint_limits/src/joint_saturation_limiter.cpp b/joint_limits/src/joint_saturation_limiter.cpp
index 53828de..b378d49 100644
--- a/joint_limits/src/joint_saturation_limiter.cpp
+++ b/joint_limits/src/joint_saturation_limiter.cpp
@@ -18,6 +18,7 @@
 
 #include <algorithm>
 
+#include "joint_limits/joint_limits_helpers.hpp"
 #include "rclcpp/duration.hpp"
 
 constexpr size_t ROS_LOG_THROTTLE_PERIOD = 1 * 1000;  // Milliseconds to throttle logs inside loops
@@ -120,7 +121,9 @@ bool JointSaturationLimiter<trajectory_msgs::msg::JointTrajectoryPoint>::on_enfo
     if (joint_limits_[index].has_velocity_limits)
     {
       // if desired velocity is not defined calculate it from positions
-      if (std::fabs(desired_vel[index]) <= VALUE_CONSIDERED_ZERO || std::isnan(desired_vel[index]))
+      if (
+        has_desired_position &&
+        (std::fabs(desired_vel[index]) <= VALUE_CONSIDERED_ZERO || std::isnan(desired_vel[index])))
       {
         desired_vel[index] =
           (desired_pos[index] - current_joint_states.positions[index]) / dt_seconds;
@@ -236,6 +239,13 @@ bool JointSaturationLimiter<trajectory_msgs::msg::JointTrajectoryPoint>::on_enfo
           // zero)
           desired_vel[index] =
             (expected_pos[index] - current_joint_states.positions[index]) / dt_seconds;
+          // returning from outside of the position limits must not exceed the velocity limits
+          if (joint_limits_[index].has_velocity_limits)
+          {
+            desired_vel[index] = std::clamp(
+              desired_vel[index], -joint_limits_[index].max_velocity,
+              joint_limits_[index].max_velocity);
+          }
           limited_jnts_pos.emplace_back(joint_names_[index]);
           limits_enforced = true;
         }
@@ -302,6 +312,9 @@ bool JointSaturationLimiter<trajectory_msgs::msg::JointTrajectoryPoint>::on_enfo
     }
   }
 
+  const auto logger = has_logging_interface() ? node_logging_itf_->get_logger()
+                                              : rclcpp::get_logger("joint_limiter_interface");
+
   // update variables according to triggers
   if (braking_near_position_limit_triggered)
   {
@@ -344,12 +357,32 @@ bool JointSaturationLimiter<trajectory_msgs::msg::JointTrajectoryPoint>::on_enfo
     }
     ostr << "\b \b";  // erase last character
     RCLCPP_WARN_STREAM_THROTTLE(
-      node_logging_itf_->get_logger(), *clock_, ROS_LOG_THROTTLE_PERIOD,
+      logger, *clock_, ROS_LOG_THROTTLE_PERIOD,
       "Joint(s) [" << ostr.str().c_str()
                    << "] would exceed position limits"
                       " if continuing at current state, limiting all joints");
   }
 
+  // The integration of the limited accelerations must not lead out of the limits again
+  for (size_t index = 0; index < number_of_joints_; ++index)
+  {
+    if (has_desired_position && joint_limits_[index].has_position_limits)
+    {
+      const double current_pos = current_joint_states.positions[index];
+      const double min_pos = std::min(joint_limits_[index].min_position, current_pos);
+      const double max_pos = std::max(joint_limits_[index].max_position, current_pos);
+      limits_enforced |= is_limited(desired_pos[index], min_pos, max_pos);
+      desired_pos[index] = std::clamp(desired_pos[index], min_pos, max_pos);
+    }
+    if (has_desired_velocity && joint_limits_[index].has_velocity_limits)
+    {
+      const double max_vel =
+        std::max(joint_limits_[index].max_velocity, std::fabs(current_joint_velocities[index]));
+      limits_enforced |= is_limited(desired_vel[index], -max_vel, max_vel);
+      desired_vel[index] = std::clamp(desired_vel[index], -max_vel, max_vel);
+    }
+  }
+
   // display limitations
 
   // if position limiting
@@ -362,7 +395,7 @@ bool JointSaturationLimiter<trajectory_msgs::msg::JointTrajectoryPoint>::on_enfo
     }
     ostr << "\b \b";  // erase last character
     RCLCPP_WARN_STREAM_THROTTLE(
-      node_logging_itf_->get_logger(), *clock_, ROS_LOG_THROTTLE_PERIOD,
+      logger, *clock_, ROS_LOG_THROTTLE_PERIOD,
       "Joint(s) [" << ostr.str().c_str() << "] would exceed position limits, limiting");
   }
 
@@ -375,7 +408,7 @@ bool JointSaturationLimiter<trajectory_msgs::msg::JointTrajectoryPoint>::on_enfo
     }
     ostr << "\b \b";  // erase last character
     RCLCPP_WARN_STREAM_THROTTLE(
-      node_logging_itf_->get_logger(), *clock_, ROS_LOG_THROTTLE_PERIOD,
+      logger, *clock_, ROS_LOG_THROTTLE_PERIOD,
       "Joint(s) [" << ostr.str().c_str() << "] would exceed velocity limits, limiting");
   }
 
@@ -388,7 +421,7 @@ bool JointSaturationLimiter<trajectory_msgs::msg::JointTrajectoryPoint>::on_enfo
     }
     ostr << "\b \b";  // erase last character
     RCLCPP_WARN_STREAM_THROTTLE(
-      node_logging_itf_->get_logger(), *clock_, ROS_LOG_THROTTLE_PERIOD,
+      logger, *clock_, ROS_LOG_THROTTLE_PERIOD,
       "Joint(s) [" << ostr.str().c_str() << "] would exceed acceleration limits, limiting");
   }
 
@@ -401,7 +434,7 @@ bool JointSaturationLimiter<trajectory_msgs::msg::JointTrajectoryPoint>::on_enfo
     }
     ostr << "\b \b";  // erase last character
     RCLCPP_WARN_STREAM_THROTTLE(
-      node_logging_itf_->get_logger(), *clock_, ROS_LOG_THROTTLE_PERIOD,
+      logger, *clock_, ROS_LOG_THROTTLE_PERIOD,
       "Joint(s) [" << ostr.str().c_str() << "] would exceed deceleration limits, limiting");
   }
 
-- 
2.43.0


From fddcf3c10eab5eabc15897aefd8a46b1acda7ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 12/71] fix: do not lose changes of joint limits when
 parameters are updated

---
 .../joint_limits/joint_limiter_interface.hpp  |  3 ++-
 .../joint_limits/joint_limits_rosparam.hpp    | 26 +++++++++++--------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/joint_limits/include/joint_limits/joint_limiter_interface.hpp b/joint_limits/include/joint_limits/joint_limiter_interface.hpp
index 0d1245e..61e3050 100644
--- a/joint_limits/include/joint_limits/joint_limiter_interface.hpp
+++ b/joint_limits/include/joint_limits/joint_limiter_interface.hpp
@@ -100,7 +100,8 @@ public:
         rcl_interfaces::msg::SetParametersResult set_parameters_result;
         set_parameters_result.successful = true;
 
-        std::vector<joint_limits::JointLimits> updated_joint_limits = joint_limits_;
+        std::vector<joint_limits::JointLimits> updated_joint_limits =
+          *(updated_limits_.readFromNonRT());
         bool changed = false;
 
         for (size_t i = 0; i < number_of_joints_; ++i)
diff --git a/joint_limits/include/joint_limits/joint_limits_rosparam.hpp b/joint_limits/include/joint_limits/joint_limits_rosparam.hpp
index 6009cb9..3f4d11b 100644
--- a/joint_limits/include/joint_limits/joint_limits_rosparam.hpp
+++ b/joint_limits/include/joint_limits/joint_limits_rosparam.hpp
@@ -452,37 +452,37 @@ inline bool check_for_limits_update(
     {
       if (param_name == param_base_name + ".min_position")
       {
-        changed = updated_limits.min_position != parameter.get_value<double>();
+        changed |= updated_limits.min_position != parameter.get_value<double>();
         updated_limits.min_position = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".max_position")
       {
-        changed = updated_limits.max_position != parameter.get_value<double>();
+        changed |= updated_limits.max_position != parameter.get_value<double>();
         updated_limits.max_position = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".max_velocity")
       {
-        changed = updated_limits.max_velocity != parameter.get_value<double>();
+        changed |= updated_limits.max_velocity != parameter.get_value<double>();
         updated_limits.max_velocity = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".max_acceleration")
       {
-        changed = updated_limits.max_acceleration != parameter.get_value<double>();
+        changed |= updated_limits.max_acceleration != parameter.get_value<double>();
         updated_limits.max_acceleration = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".max_deceleration")
       {
-        changed = updated_limits.max_deceleration != parameter.get_value<double>();
+        changed |= updated_limits.max_deceleration != parameter.get_value<double>();
         updated_limits.max_deceleration = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".max_jerk")
       {
-        changed = updated_limits.max_jerk != parameter.get_value<double>();
+        changed |= updated_limits.max_jerk != parameter.get_value<double>();
         updated_limits.max_jerk = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".max_effort")
       {
-        changed = updated_limits.max_effort != parameter.get_value<double>();
+        changed |= updated_limits.max_effort != parameter.get_value<double>();
         updated_limits.max_effort = parameter.get_value<double>();
       }
     }
@@ -525,6 +525,10 @@ inline bool check_for_limits_update(
             changed = true;
           }
         }
+        else
+        {
+          changed = true;
+        }
       }
       else if (param_name == param_base_name + ".has_velocity_limits")
       {
@@ -818,22 +822,22 @@ inline bool check_for_limits_update(
     {
       if (param_name == param_base_name + ".k_position")
       {
-        changed = updated_limits.k_position != parameter.get_value<double>();
+        changed |= updated_limits.k_position != parameter.get_value<double>();
         updated_limits.k_position = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".k_velocity")
       {
-        changed = updated_limits.k_velocity != parameter.get_value<double>();
+        changed |= updated_limits.k_velocity != parameter.get_value<double>();
         updated_limits.k_velocity = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".soft_lower_limit")
       {
-        changed = updated_limits.min_position != parameter.get_value<double>();
+        changed |= updated_limits.min_position != parameter.get_value<double>();
         updated_limits.min_position = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".soft_upper_limit")
       {
-        changed = updated_limits.max_position != parameter.get_value<double>();
+        changed |= updated_limits.max_position != parameter.get_value<double>();
         updated_limits.max_position = parameter.get_value<double>();
       }
     }
-- 
2.43.0


From 08d1a93140e4e92cf3ecc0efff85e70dcc3a6b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 13/71] fix: do not switch on joint limits whose declared
 parameters have no value

---
 .../joint_limits/joint_limits_rosparam.hpp    | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/joint_limits/include/joint_limits/joint_limits_rosparam.hpp b/joint_limits/include/joint_limits/joint_limits_rosparam.hpp
index 3f4d11b..6796a2b 100644
--- a/joint_limits/include/joint_limits/joint_limits_rosparam.hpp
+++ b/joint_limits/include/joint_limits/joint_limits_rosparam.hpp
@@ -19,6 +19,7 @@
 
 #include <fmt/compile.h>
 
+#include <cmath>
 #include <limits>
 #include <string>
 #include <vector>
@@ -267,14 +268,21 @@ inline bool get_joint_limits(
     return false;
   }
 
+  // parameters that are declared but not set can not be used as limits
+  const auto has_value = [&param_itf](const std::string & name)
+  {
+    return param_itf->has_parameter(name) &&
+           !std::isnan(param_itf->get_parameter(name).as_double());
+  };
+
   // Position limits
   if (param_itf->has_parameter(param_base_name + ".has_position_limits"))
   {
     limits.has_position_limits =
       param_itf->get_parameter(param_base_name + ".has_position_limits").as_bool();
     if (
-      limits.has_position_limits && param_itf->has_parameter(param_base_name + ".min_position") &&
-      param_itf->has_parameter(param_base_name + ".max_position"))
+      limits.has_position_limits && has_value(param_base_name + ".min_position") &&
+      has_value(param_base_name + ".max_position"))
     {
       limits.min_position = param_itf->get_parameter(param_base_name + ".min_position").as_double();
       limits.max_position = param_itf->get_parameter(param_base_name + ".max_position").as_double();
@@ -298,7 +306,7 @@ inline bool get_joint_limits(
   {
     limits.has_velocity_limits =
       param_itf->get_parameter(param_base_name + ".has_velocity_limits").as_bool();
-    if (limits.has_velocity_limits && param_itf->has_parameter(param_base_name + ".max_velocity"))
+    if (limits.has_velocity_limits && has_value(param_base_name + ".max_velocity"))
     {
       limits.max_velocity = param_itf->get_parameter(param_base_name + ".max_velocity").as_double();
     }
@@ -315,7 +323,7 @@ inline bool get_joint_limits(
       param_itf->get_parameter(param_base_name + ".has_acceleration_limits").as_bool();
     if (
       limits.has_acceleration_limits &&
-      param_itf->has_parameter(param_base_name + ".max_acceleration"))
+      has_value(param_base_name + ".max_acceleration"))
     {
       limits.max_acceleration =
         param_itf->get_parameter(param_base_name + ".max_acceleration").as_double();
@@ -333,7 +341,7 @@ inline bool get_joint_limits(
       param_itf->get_parameter(param_base_name + ".has_deceleration_limits").as_bool();
     if (
       limits.has_deceleration_limits &&
-      param_itf->has_parameter(param_base_name + ".max_deceleration"))
+      has_value(param_base_name + ".max_deceleration"))
     {
       limits.max_deceleration =
         param_itf->get_parameter(param_base_name + ".max_deceleration").as_double();
@@ -349,7 +357,7 @@ inline bool get_joint_limits(
   {
     limits.has_jerk_limits =
       param_itf->get_parameter(param_base_name + ".has_jerk_limits").as_bool();
-    if (limits.has_jerk_limits && param_itf->has_parameter(param_base_name + ".max_jerk"))
+    if (limits.has_jerk_limits && has_value(param_base_name + ".max_jerk"))
     {
       limits.max_jerk = param_itf->get_parameter(param_base_name + ".max_jerk").as_double();
     }
@@ -364,7 +372,7 @@ inline bool get_joint_limits(
   {
     limits.has_effort_limits =
       param_itf->get_parameter(param_base_name + ".has_effort_limits").as_bool();
-    if (limits.has_effort_limits && param_itf->has_parameter(param_base_name + ".max_effort"))
+    if (limits.has_effort_limits && has_value(param_base_name + ".max_effort"))
     {
       limits.has_effort_limits = true;
       limits.max_effort = param_itf->get_parameter(param_base_name + ".max_effort").as_double();
-- 
2.43.0


From c219ae9eb07ad96ba4c008051b50c8f287aa1fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:41 +0000
Subject: [PATCH 14/71] fix: do not exceed the velocity limit when returning
 into the position limits

---
 joint_limits/src/joint_limits_helpers.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/joint_limits/src/joint_limits_helpers.cpp b/joint_limits/src/joint_limits_helpers.cpp
index 5b06a84..178629c 100644
--- a/joint_limits/src/joint_limits_helpers.cpp
+++ b/joint_limits/src/joint_limits_helpers.cpp
@@ -165,8 +165,10 @@ VelocityLimits compute_velocity_limits(
     const double actual_pos = act_pos.value();
     const double max_vel_with_pos_limits = (limits.max_position - actual_pos) / dt;
     const double min_vel_with_pos_limits = (limits.min_position - actual_pos) / dt;
-    vel_limits.lower_limit = std::max(min_vel_with_pos_limits, vel_limits.lower_limit);
-    vel_limits.upper_limit = std::min(max_vel_with_pos_limits, vel_limits.upper_limit);
+    vel_limits.lower_limit =
+      std::clamp(min_vel_with_pos_limits, -limits.max_velocity, limits.max_velocity);
+    vel_limits.upper_limit =
+      std::clamp(max_vel_with_pos_limits, -limits.max_velocity, limits.max_velocity);
 
     if (actual_pos > limits.max_position || actual_pos < limits.min_position)
     {
-- 
2.43.0


From 1bb205ff7d5833c31f86c844e1770727f78bac61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 15/71] fix: report limits switched off because their flag was
 set without valid values

---
 .../include/joint_limits/joint_limits_rosparam.hpp    | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/joint_limits/include/joint_limits/joint_limits_rosparam.hpp b/joint_limits/include/joint_limits/joint_limits_rosparam.hpp
index 6796a2b..54e155f 100644
--- a/joint_limits/include/joint_limits/joint_limits_rosparam.hpp
+++ b/joint_limits/include/joint_limits/joint_limits_rosparam.hpp
@@ -450,6 +450,7 @@ inline bool check_for_limits_update(
   JointLimits & updated_limits)
 {
   const std::string param_base_name = fmt::format(FMT_COMPILE("joint_limits.{}"), joint_name);
+  const JointLimits previous_limits = updated_limits;
   bool changed = false;
 
   // update first numerical values to make later checks for "has" limits members
@@ -643,7 +644,15 @@ inline bool check_for_limits_update(
     }
   }
 
-  return changed;
+  // limits are also switched off if their flag is set without valid values
+  return changed ||
+         updated_limits.has_position_limits != previous_limits.has_position_limits ||
+         updated_limits.has_velocity_limits != previous_limits.has_velocity_limits ||
+         updated_limits.has_acceleration_limits != previous_limits.has_acceleration_limits ||
+         updated_limits.has_deceleration_limits != previous_limits.has_deceleration_limits ||
+         updated_limits.has_jerk_limits != previous_limits.has_jerk_limits ||
+         updated_limits.has_effort_limits != previous_limits.has_effort_limits ||
+         updated_limits.angle_wraparound != previous_limits.angle_wraparound;
 }
 
 /**
-- 
2.43.0


From 68fdeca9ab0b058d95fe26fc57c2fa76c2b131e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:09 +0000
Subject: [PATCH 16/71] fix: refuse descriptions without root element and sdf
 without model

---
 hardware_interface/src/component_parser.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hardware_interface/src/component_parser.cpp b/hardware_interface/src/component_parser.cpp
index 0dc752b..6cb3644 100644
--- a/hardware_interface/src/component_parser.cpp
+++ b/hardware_interface/src/component_parser.cpp
@@ -993,6 +993,10 @@ std::vector<HardwareInfo> parse_control_resources_from_urdf(const std::string &
 
   // Find robot or sdf tag
   const tinyxml2::XMLElement * robot_it = doc.RootElement();
+  if (!robot_it)
+  {
+    throw std::runtime_error("no root element found in the URDF");
+  }
   const tinyxml2::XMLElement * ros2_control_it;
 
   if (std::string(kRobotTag) == robot_it->Name())
@@ -1003,6 +1007,11 @@ std::vector<HardwareInfo> parse_control_resources_from_urdf(const std::string &
   {
     // find model tag in sdf tag
     const tinyxml2::XMLElement * model_it = robot_it->FirstChildElement(kModelTag);
+    if (!model_it)
+    {
+      throw std::runtime_error(
+        fmt::format(FMT_COMPILE("no '{}' tag found in the SDF"), kModelTag));
+    }
     ros2_control_it = model_it->FirstChildElement(kROS2ControlTag);
   }
   else
-- 
2.43.0


From d49f5c33cd08a47eacd9b38b14f1f2e0b2d3776c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 17/71] fix: refuse rates with trailing text and convert sizes
 and priorities without regular expressions

---
 hardware_interface/src/component_parser.cpp | 44 +++++++++++++--------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/hardware_interface/src/component_parser.cpp b/hardware_interface/src/component_parser.cpp
index 6cb3644..938f514 100644
--- a/hardware_interface/src/component_parser.cpp
+++ b/hardware_interface/src/component_parser.cpp
@@ -15,8 +15,8 @@
 #include <fmt/compile.h>
 #include <tinyxml2.h>
 
+#include <charconv>
 #include <iostream>
-#include <regex>
 #include <stdexcept>
 #include <string>
 #include <unordered_map>
@@ -187,6 +187,19 @@ double get_parameter_value_or(
   return default_value;
 }
 
+/// Parse a text that consists of nothing but a positive, non-zero integer
+/**
+ * \param[in] text text to be parsed.
+ * \param[out] value the integer, if the text is valid.
+ * \return true if the text is a positive integer that fits into the type.
+ */
+bool parse_positive_integer(const std::string & text, int & value)
+{
+  const auto result = std::from_chars(text.data(), text.data() + text.size(), value);
+  return !text.empty() && text.front() != '0' && result.ec == std::errc() &&
+         result.ptr == text.data() + text.size() && value > 0;
+}
+
 /// Parse optional size attribute
 /**
  * Parses an XMLElement and returns the value of the size attribute.
@@ -205,15 +218,9 @@ std::size_t parse_size_attribute(const tinyxml2::XMLElement * elem)
     return 1;
   }
 
-  std::size_t size;
-  // Regex used to check for non-zero positive int
+  int size;
   std::string s = ros2_control::strip(attr->Value());
-  std::regex int_re("[1-9][0-9]*");
-  if (std::regex_match(s, int_re))
-  {
-    size = static_cast<size_t>(std::stoi(s));
-  }
-  else
+  if (!parse_positive_integer(s, size))
   {
     throw std::runtime_error(
       fmt::format(
@@ -223,7 +230,7 @@ std::size_t parse_size_attribute(const tinyxml2::XMLElement * elem)
         elem->Name(), s));
   }
 
-  return size;
+  return static_cast<std::size_t>(size);
 }
 
 /// Parse data_type attribute
@@ -263,7 +270,13 @@ unsigned int parse_rw_rate_attribute(const tinyxml2::XMLElement * elem)
   const tinyxml2::XMLAttribute * attr = elem->FindAttribute(kReadWriteRateAttribute);
   try
   {
-    const auto rw_rate = attr ? std::stoi(ros2_control::strip(attr->Value())) : 0;
+    const std::string text = attr ? ros2_control::strip(attr->Value()) : "0";
+    std::size_t parsed_characters = 0;
+    const auto rw_rate = std::stoi(text, &parsed_characters);
+    if (parsed_characters != text.size())
+    {
+      throw std::invalid_argument("trailing characters");
+    }
     if (rw_rate < 0)
     {
       throw std::runtime_error(
@@ -323,13 +336,9 @@ int parse_thread_priority_attribute(const tinyxml2::XMLElement * elem)
   {
     return 50;
   }
+  int priority;
   std::string s = ros2_control::strip(attr->Value());
-  std::regex int_re("[1-9][0-9]*");
-  if (std::regex_match(s, int_re))
-  {
-    return std::stoi(s);
-  }
-  else
+  if (!parse_positive_integer(s, priority))
   {
     throw std::runtime_error(
       fmt::format(
@@ -338,6 +347,7 @@ int parse_thread_priority_attribute(const tinyxml2::XMLElement * elem)
           "positive integer."),
         elem->Name(), s));
   }
+  return priority;
 }
 
 /// Search XML snippet from URDF for parameters.
-- 
2.43.0


From 07b5e26ffe93d1331b072ca078d4d244175c72c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 18/71] fix: do not run the error handling of finalized
 hardware components

---
 hardware_interface/src/hardware_component.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/src/hardware_component.cpp b/hardware_interface/src/hardware_component.cpp
index ac579ff..1efdad8 100644
--- a/hardware_interface/src/hardware_component.cpp
+++ b/hardware_interface/src/hardware_component.cpp
@@ -223,7 +223,8 @@ const rclcpp_lifecycle::State & HardwareComponent::error()
   impl_->enable_introspection(false);
   if (
     impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_UNKNOWN &&
-    impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED)
+    impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED &&
+    impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_FINALIZED)
   {
     impl_->pause_async_operations();
     switch (impl_->on_error(impl_->get_lifecycle_state()))
-- 
2.43.0


From 4ea5627d06f0dfcc0c3a584bf66d497207dd6b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:49 +0000
Subject: [PATCH 19/71] fix: run the error handling when configuring a hardware
 component fails with an error

---
 .../hardware_interface/hardware_component.hpp |  3 ++
 hardware_interface/src/hardware_component.cpp | 47 ++++++++++---------
 2 files changed, 29 insertions(+), 21 deletions(-)

diff --git a/hardware_interface/include/hardware_interface/hardware_component.hpp b/hardware_interface/include/hardware_interface/hardware_component.hpp
index ba25c63..26bddf9 100644
--- a/hardware_interface/include/hardware_interface/hardware_component.hpp
+++ b/hardware_interface/include/hardware_interface/hardware_component.hpp
@@ -101,6 +101,9 @@ public:
   std::recursive_mutex & get_mutex();
 
 private:
+  /// Call the error handling of the hardware and set the lifecycle state it leads to.
+  void process_error();
+
   std::unique_ptr<HardwareComponentInterface> impl_;
   mutable std::recursive_mutex component_mutex_;
   // Last read cycle time
diff --git a/hardware_interface/src/hardware_component.cpp b/hardware_interface/src/hardware_component.cpp
index 1efdad8..0a1147a 100644
--- a/hardware_interface/src/hardware_component.cpp
+++ b/hardware_interface/src/hardware_component.cpp
@@ -99,7 +99,7 @@ const rclcpp_lifecycle::State & HardwareComponent::configure()
             lifecycle_state_names::UNCONFIGURED));
         break;
       case CallbackReturn::ERROR:
-        impl_->set_lifecycle_state(error());
+        process_error();
         break;
     }
   }
@@ -123,7 +123,7 @@ const rclcpp_lifecycle::State & HardwareComponent::cleanup()
         break;
       case CallbackReturn::FAILURE:
       case CallbackReturn::ERROR:
-        impl_->set_lifecycle_state(error());
+        process_error();
         break;
     }
   }
@@ -148,7 +148,7 @@ const rclcpp_lifecycle::State & HardwareComponent::shutdown()
         break;
       case CallbackReturn::FAILURE:
       case CallbackReturn::ERROR:
-        impl_->set_lifecycle_state(error());
+        process_error();
         break;
     }
   }
@@ -183,7 +183,7 @@ const rclcpp_lifecycle::State & HardwareComponent::activate()
             lifecycle_msgs::msg::State::PRIMARY_STATE_INACTIVE, lifecycle_state_names::INACTIVE));
         break;
       case CallbackReturn::ERROR:
-        impl_->set_lifecycle_state(error());
+        process_error();
         break;
     }
   }
@@ -210,7 +210,7 @@ const rclcpp_lifecycle::State & HardwareComponent::deactivate()
             lifecycle_msgs::msg::State::PRIMARY_STATE_ACTIVE, lifecycle_state_names::ACTIVE));
         break;
       case CallbackReturn::ERROR:
-        impl_->set_lifecycle_state(error());
+        process_error();
         break;
     }
   }
@@ -226,26 +226,31 @@ const rclcpp_lifecycle::State & HardwareComponent::error()
     impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED &&
     impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_FINALIZED)
   {
-    impl_->pause_async_operations();
-    switch (impl_->on_error(impl_->get_lifecycle_state()))
-    {
-      case CallbackReturn::SUCCESS:
-        impl_->set_lifecycle_state(
-          rclcpp_lifecycle::State(
-            lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED,
-            lifecycle_state_names::UNCONFIGURED));
-        break;
-      case CallbackReturn::FAILURE:
-      case CallbackReturn::ERROR:
-        impl_->set_lifecycle_state(
-          rclcpp_lifecycle::State(
-            lifecycle_msgs::msg::State::PRIMARY_STATE_FINALIZED, lifecycle_state_names::FINALIZED));
-        break;
-    }
+    process_error();
   }
   return impl_->get_lifecycle_state();
 }
 
+void HardwareComponent::process_error()
+{
+  impl_->pause_async_operations();
+  switch (impl_->on_error(impl_->get_lifecycle_state()))
+  {
+    case CallbackReturn::SUCCESS:
+      impl_->set_lifecycle_state(
+        rclcpp_lifecycle::State(
+          lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED,
+          lifecycle_state_names::UNCONFIGURED));
+      break;
+    case CallbackReturn::FAILURE:
+    case CallbackReturn::ERROR:
+      impl_->set_lifecycle_state(
+        rclcpp_lifecycle::State(
+          lifecycle_msgs::msg::State::PRIMARY_STATE_FINALIZED, lifecycle_state_names::FINALIZED));
+      break;
+  }
+}
+
 std::vector<StateInterface::ConstSharedPtr> HardwareComponent::export_state_interfaces()
 {
 // BEGIN (Handle export change): for backward compatibility, can be removed if
-- 
2.43.0


From 0cdf79d4430b89d0d81c6c4eec22dcfd460c90f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:12 +0000
Subject: [PATCH 20/71] fix: do not list interfaces as available after a failed
 hardware transition

---
 hardware_interface/src/resource_manager.cpp | 22 ++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 6da74e5..70680fb 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -442,6 +442,19 @@ public:
     }
   }
 
+  /// Remove the interfaces of a hardware that left the inactive and active states, also when it
+  /// did so because the requested transition failed.
+  template <class HardwareT>
+  void remove_interfaces_if_not_configured(HardwareT & hardware)
+  {
+    if (
+      hardware.get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_INACTIVE &&
+      hardware.get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_ACTIVE)
+    {
+      remove_all_hardware_interfaces_from_available_list(hardware.get_name());
+    }
+  }
+
   template <class HardwareT>
   bool cleanup_hardware(HardwareT & hardware)
   {
@@ -467,10 +480,7 @@ public:
       handle_exception_ ? void() : throw;
     }
 
-    if (result)
-    {
-      remove_all_hardware_interfaces_from_available_list(hardware.get_name());
-    }
+    remove_interfaces_if_not_configured(hardware);
     if (!hardware.get_group_name().empty())
     {
       hw_group_state_[hardware.get_group_name()] = return_type::OK;
@@ -503,9 +513,9 @@ public:
       handle_exception_ ? void() : throw;
     }
 
+    remove_interfaces_if_not_configured(hardware);
     if (result)
     {
-      remove_all_hardware_interfaces_from_available_list(hardware.get_name());
       // TODO(destogl): change this - deimport all things if there is there are interfaces there
       // deimport_non_movement_command_interfaces(hardware);
       // deimport_state_interfaces(hardware);
@@ -542,6 +552,7 @@ public:
         hardware.get_name().c_str());
       handle_exception_ ? void() : throw;
     }
+    remove_interfaces_if_not_configured(hardware);
     return result;
   }
 
@@ -570,6 +581,7 @@ public:
       handle_exception_ ? void() : throw;
     }
 
+    remove_interfaces_if_not_configured(hardware);
     if (result)
     {
       // TODO(destogl): make all command interfaces unavailable that should be present only
-- 
2.43.0


From c52d3e53dbdb2e7033cc1d742682f26624c03703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:13 +0000
Subject: [PATCH 21/71] fix: propagate exceptions, but not deactivation, of a
 hardware component to its group

---
 hardware_interface/src/resource_manager.cpp | 26 ++++++++++-----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 70680fb..8478922 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -1357,8 +1357,8 @@ public:
   }
 
   /**
-   * Returns the return type of the hardware component group state, if the return type is other
-   * than OK, then updates the return type of the group to the respective one
+   * Returns ERROR if the group of the hardware component is in error, otherwise the given return
+   * type. An ERROR of one component puts its whole group in error.
    */
   return_type update_hardware_component_group_state(
     const std::string & group_name, const return_type & value)
@@ -1368,13 +1368,11 @@ public:
     {
       return value;
     }
-    // If it is anything other than OK, change the return type of the hardware group state
-    // to the respective return type
-    if (value != return_type::OK)
+    if (value == return_type::ERROR)
     {
-      hw_group_state_.at(group_name) = value;
+      hw_group_state_[group_name] = value;
     }
-    return hw_group_state_.at(group_name);
+    return hw_group_state_[group_name] == return_type::ERROR ? return_type::ERROR : value;
   }
 
   /// Gets the logger for the resource storage
@@ -2468,9 +2466,6 @@ HardwareReadWriteStatus ResourceManager::read(
           hardware_component_info.read_statistics->periodicity.update_statistics(
             read_statistics_collector.periodicity);
         }
-        const auto component_group = component.get_group_name();
-        ret_val =
-          resource_storage_->update_hardware_component_group_state(component_group, ret_val);
       }
       catch (const std::exception & e)
       {
@@ -2491,6 +2486,12 @@ HardwareReadWriteStatus ResourceManager::read(
       RCLCPP_WARN_EXPRESSION(
         get_logger(), ret_val == hardware_interface::return_type::DEACTIVATE,
         "DEACTIVATE returned from read cycle is treated the same as ERROR.");
+      if (ret_val == return_type::DEACTIVATE)
+      {
+        ret_val = return_type::ERROR;
+      }
+      ret_val = resource_storage_->update_hardware_component_group_state(
+        component.get_group_name(), ret_val);
       if (ret_val != return_type::OK)
       {
         component.error();
@@ -2570,9 +2571,6 @@ HardwareReadWriteStatus ResourceManager::write(
           hardware_component_info.write_statistics->periodicity.update_statistics(
             write_statistics_collector.periodicity);
         }
-        const auto component_group = component.get_group_name();
-        ret_val =
-          resource_storage_->update_hardware_component_group_state(component_group, ret_val);
       }
       catch (const std::exception & e)
       {
@@ -2590,6 +2588,8 @@ HardwareReadWriteStatus ResourceManager::write(
         handle_exceptions ? void() : throw;
         ret_val = return_type::ERROR;
       }
+      ret_val = resource_storage_->update_hardware_component_group_state(
+        component.get_group_name(), ret_val);
       if (ret_val == return_type::ERROR)
       {
         component.error();
-- 
2.43.0


From f9fb8371d1978e794ba294734cff2e4a2636a9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:13 +0000
Subject: [PATCH 22/71] fix: do not hide the write error of a hardware
 component behind the deactivation of another

---
 hardware_interface/src/resource_manager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 8478922..bedb115 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -2602,7 +2602,11 @@ HardwareReadWriteStatus ResourceManager::write(
         rclcpp_lifecycle::State inactive_state(
           lifecycle_msgs::msg::State::PRIMARY_STATE_INACTIVE, lifecycle_state_names::INACTIVE);
         set_component_state(component_name, inactive_state);
-        read_write_status.result = ret_val;
+        // an error of another component in this cycle has to stay visible
+        if (read_write_status.result != return_type::ERROR)
+        {
+          read_write_status.result = ret_val;
+        }
         if (return_failed_hardware_names_on_return_deactivate_write_cycle_)
         {
           read_write_status.failed_hardware_names.push_back(component_name);
-- 
2.43.0


From 890d8c5f49d7902d054e6d59e5f0375b7fa3f383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 23/71] fix: report limited commands of joints that belong to
 several hardware components

---
 hardware_interface/src/resource_manager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index bedb115..9c87733 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -950,9 +950,9 @@ public:
       {
         joint_limits::JointInterfacesCommandLimiterData & data = limiters_data_[joint_name];
         update_joint_limiters_data(data);
-        enforce_result = limiters[joint_name]->enforce(data.actual, data.limited, period);
-        if (enforce_result)
+        if (limiters[joint_name]->enforce(data.actual, data.limited, period))
         {
+          enforce_result = true;
           update_joint_limiters_commands(data.limited, command_interface_map_);
         }
       }
-- 
2.43.0


From 6606b1c25658b4bf742a62d96842532246a5d7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:05 +0000
Subject: [PATCH 24/71] fix: refuse descriptions whose interfaces cannot be
 imported and forget limits and groups of refused ones

---
 hardware_interface/src/resource_manager.cpp | 64 +++++++++++----------
 1 file changed, 33 insertions(+), 31 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 9c87733..e3d3425 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -694,8 +694,9 @@ public:
   }
 
   template <class HardwareT>
-  void import_state_interfaces(HardwareT & hardware)
+  bool import_state_interfaces(HardwareT & hardware)
   {
+    bool result = false;
     try
     {
       auto interfaces = hardware.export_state_interfaces();
@@ -706,6 +707,7 @@ public:
         get_logger(), interface_names.empty(),
         "Importing state interfaces for the hardware '%s' returned no state interfaces.",
         hardware.get_name().c_str());
+      result = true;
     }
     catch (const std::exception & ex)
     {
@@ -724,6 +726,7 @@ public:
         hardware.get_name().c_str());
       handle_exception_ ? void() : throw;
     }
+    return result;
   }
 
   void insert_command_interface(const CommandInterface::SharedPtr command_interface)
@@ -762,8 +765,9 @@ public:
   // END: for backward compatibility
 
   template <class HardwareT>
-  void import_command_interfaces(HardwareT & hardware)
+  bool import_command_interfaces(HardwareT & hardware)
   {
+    bool result = false;
     try
     {
       auto interfaces = hardware.export_command_interfaces();
@@ -772,6 +776,7 @@ public:
       start_interfaces_buffer_.reserve(start_interfaces_buffer_.capacity() + interfaces.size());
       stop_interfaces_buffer_.reserve(stop_interfaces_buffer_.capacity() + interfaces.size());
       // TODO(Manuel) END: for backward compatibility
+      result = true;
     }
     catch (const std::exception & ex)
     {
@@ -790,6 +795,7 @@ public:
         hardware.get_name().c_str());
       handle_exception_ ? void() : throw;
     }
+    return result;
   }
 
   void import_joint_limiters(const std::vector<HardwareInfo> & hardware_infos)
@@ -1207,17 +1213,13 @@ public:
       }
       if (initialize_hardware(params, container.back()))
       {
-        import_state_interfaces(container.back());
-        import_command_interfaces(container.back());
-      }
-      else
-      {
-        RCLCPP_WARN(
-          get_logger(), "Actuator hardware component '%s' from plugin '%s' failed to initialize.",
-          params.hardware_info.name.c_str(), params.hardware_info.hardware_plugin_name.c_str());
-        return false;
+        return import_state_interfaces(container.back()) &&
+               import_command_interfaces(container.back());
       }
-      return true;
+      RCLCPP_WARN(
+        get_logger(), "Actuator hardware component '%s' from plugin '%s' failed to initialize.",
+        params.hardware_info.name.c_str(), params.hardware_info.hardware_plugin_name.c_str());
+      return false;
     };
     return load_and_init_actuators(actuators_);
   }
@@ -1232,16 +1234,12 @@ public:
       }
       if (initialize_hardware(params, container.back()))
       {
-        import_state_interfaces(container.back());
+        return import_state_interfaces(container.back());
       }
-      else
-      {
-        RCLCPP_WARN(
-          get_logger(), "Sensor hardware component '%s' from plugin '%s' failed to initialize.",
-          params.hardware_info.name.c_str(), params.hardware_info.hardware_plugin_name.c_str());
-        return false;
-      }
-      return true;
+      RCLCPP_WARN(
+        get_logger(), "Sensor hardware component '%s' from plugin '%s' failed to initialize.",
+        params.hardware_info.name.c_str(), params.hardware_info.hardware_plugin_name.c_str());
+      return false;
     };
 
     return load_and_init_sensors(sensors_);
@@ -1257,17 +1255,13 @@ public:
       }
       if (initialize_hardware(params, container.back()))
       {
-        import_state_interfaces(container.back());
-        import_command_interfaces(container.back());
+        return import_state_interfaces(container.back()) &&
+               import_command_interfaces(container.back());
       }
-      else
-      {
-        RCLCPP_WARN(
-          get_logger(), "System hardware component '%s' from plugin '%s' failed to initialize.",
-          params.hardware_info.name.c_str(), params.hardware_info.hardware_plugin_name.c_str());
-        return false;
-      }
-      return true;
+      RCLCPP_WARN(
+        get_logger(), "System hardware component '%s' from plugin '%s' failed to initialize.",
+        params.hardware_info.name.c_str(), params.hardware_info.hardware_plugin_name.c_str());
+      return false;
     };
     return load_and_init_systems(systems_);
   }
@@ -1354,6 +1348,14 @@ public:
     available_command_interfaces_.clear();
 
     claimed_command_interface_map_.clear();
+
+    hw_group_state_.clear();
+    hardware_used_by_controllers_.clear();
+
+    joint_limiters_interface_.clear();
+    limiters_data_.clear();
+    hard_joint_limits_.clear();
+    soft_joint_limits_.clear();
   }
 
   /**
-- 
2.43.0


From a3ed2ba3c482b26e2c346f27c95fc6a5631f2e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:48 +0000
Subject: [PATCH 25/71] fix: take the interfaces of a removed controller out of
 the available lists

---
 hardware_interface/src/resource_manager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index e3d3425..7df2f58 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -1029,6 +1029,7 @@ public:
     {
       state_interface_map_[interface]->unregisterIntrospection();
       state_interface_map_.erase(interface);
+      std::ignore = ros2_control::remove_item(available_state_interfaces_, interface);
     }
   }
 
@@ -1199,6 +1200,7 @@ public:
       command_interface_map_[interface]->unregisterIntrospection();
       command_interface_map_.erase(interface);
       claimed_command_interface_map_.erase(interface);
+      std::ignore = ros2_control::remove_item(available_command_interfaces_, interface);
     }
   }
 
-- 
2.43.0


From d8c29d0b374b9ce73a8f5e8f0d54ece4e7e2d246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:48 +0000
Subject: [PATCH 26/71] fix: refuse hardware components of unknown type instead
 of leaving them out

---
 hardware_interface/src/resource_manager.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 7df2f58..e0890c7 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -1581,6 +1581,17 @@ bool ResourceManager::load_and_initialize_components(
       components_are_loaded_and_initialized_ = false;
       break;
     }
+    // Check for unknown types, which would be left out otherwise
+    if (
+      individual_hardware_info.type != actuator_type &&
+      individual_hardware_info.type != sensor_type && individual_hardware_info.type != system_type)
+    {
+      RCUTILS_LOG_ERROR_NAMED(
+        "resource_manager", "Hardware '%s' has the unknown type '%s'.",
+        individual_hardware_info.name.c_str(), individual_hardware_info.type.c_str());
+      components_are_loaded_and_initialized_ = false;
+      break;
+    }
     hardware_interface::HardwareComponentParams interface_params;
     interface_params.hardware_info = individual_hardware_info;
     interface_params.executor = params.executor;
-- 
2.43.0


From 99ac71721e11e71234e1281177ebcdeed46ebbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:48 +0000
Subject: [PATCH 27/71] fix: put exactly the controllers whose references are
 claimed after a switch in chained mode

---
 .../controller_manager/controller_manager.hpp |  10 +-
 controller_manager/src/controller_manager.cpp | 150 ++++++++----------
 2 files changed, 67 insertions(+), 93 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 2174ea0..6dc63aa 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -412,12 +412,13 @@ private:
     const std::string & rt_cycle_name);
 
   /**
-   * If a controller is deactivated all following controllers (if any exist) should be switched
-   * 'from' the chained mode.
+   * Determine the controllers that have to be switched 'to' or 'from' chained mode by the requested
+   * switch: a chainable controller is in chained mode if, after the switch, another active
+   * controller claims its reference interfaces.
    *
    * \param[in] controllers list with controllers.
    */
-  void propagate_deactivation_of_chained_mode(const std::vector<ControllerSpec> & controllers);
+  void determine_chained_mode_requests(const std::vector<ControllerSpec> & controllers);
 
   /// Check if all the following controllers will be in active state and in the chained mode
   /// after controllers' switch.
@@ -426,8 +427,7 @@ private:
    * - are already active,
    * - will not be deactivated,
    * - or will be activated.
-   * The following controllers are added to the request to switch in the chained mode or removed
-   * from the request to switch from the chained mode.
+   * The exported interfaces of the following controllers that will be activated are made available.
    *
    * For each controller the whole chain of following controllers is checked.
    *
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 32d3e5d..7be9d50 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2038,11 +2038,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
 
   const std::vector<ControllerSpec> & controllers = rt_controllers_wrapper_.get_updated_list(guard);
 
-  // if a preceding controller is deactivated, all first-level controllers should be switched 'from'
-  // chained mode
-  propagate_deactivation_of_chained_mode(controllers);
-
-  // check if controllers should be switched 'to' chained mode when controllers are activated
+  // check if the controllers to activate can be activated
   for (auto ctrl_it = switch_params_.activate_request.begin();
        ctrl_it != switch_params_.activate_request.end(); ++ctrl_it)
   {
@@ -2186,6 +2182,9 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
   }
   message.clear();
 
+  // determine the controllers that have to be switched 'to' or 'from' chained mode by the switch
+  determine_chained_mode_requests(controllers);
+
   for (const auto & controller : controllers)
   {
     auto to_chained_mode_list_it = std::find(
@@ -3834,57 +3833,64 @@ void ControllerManager::perform_hardware_command_mode_change(
   }
 }
 
-void ControllerManager::propagate_deactivation_of_chained_mode(
+void ControllerManager::determine_chained_mode_requests(
   const std::vector<ControllerSpec> & controllers)
 {
-  for (const auto & controller : controllers)
+  switch_params_.to_chained_mode_request.clear();
+  switch_params_.from_chained_mode_request.clear();
+
+  const auto will_be_active = [this](const ControllerSpec & controller)
   {
-    // get pointers to places in deactivate and activate lists ((de)activate lists have changed)
-    auto deactivate_list_it = std::find(
-      switch_params_.deactivate_request.begin(), switch_params_.deactivate_request.end(),
-      controller.info.name);
+    return ros2_control::has_item(switch_params_.activate_request, controller.info.name) ||
+           (is_controller_active(controller.c) &&
+            !ros2_control::has_item(switch_params_.deactivate_request, controller.info.name));
+  };
 
-    if (deactivate_list_it != switch_params_.deactivate_request.end())
+  // controllers whose reference interfaces will be claimed by another active controller
+  std::vector<std::string> referenced_controllers;
+  for (const auto & controller : controllers)
+  {
+    if (!will_be_active(controller))
     {
-      // if controller is not active then skip adding following-controllers to "from" chained mode
-      // request
-      if (!is_controller_active(controller.c))
+      continue;
+    }
+    for (const auto & cmd_itf_name : get_command_interfaces_names(controller.c, resource_manager_))
+    {
+      ControllersListIterator following_ctrl_it;
+      if (
+        is_interface_a_chained_interface(cmd_itf_name, controllers, following_ctrl_it) &&
+        following_ctrl_it->info.name != controller.info.name)
       {
-        RCLCPP_DEBUG(
-          get_logger(),
-          "Controller with name '%s' can not be deactivated since is not active. "
-          "The controller will be removed from the list later."
-          "Skipping adding following controllers to 'from' chained mode request.",
-          controller.info.name.c_str());
-        break;
+        ros2_control::add_item(referenced_controllers, following_ctrl_it->info.name);
       }
+    }
+  }
 
-      const auto ctrl_cmd_itf_names = get_command_interfaces_names(controller.c, resource_manager_);
-      const auto ctrl_state_itf_names = get_state_interfaces_names(controller.c, resource_manager_);
-      auto ctrl_itf_names = ctrl_cmd_itf_names;
-      ctrl_itf_names.insert(
-        ctrl_itf_names.end(), ctrl_state_itf_names.begin(), ctrl_state_itf_names.end());
-      for (const auto & ctrl_itf_name : ctrl_itf_names)
-      {
-        // controller that 'cmd_tf_name' belongs to
-        ControllersListIterator following_ctrl_it;
-        if (is_interface_a_chained_interface(ctrl_itf_name, controllers, following_ctrl_it))
-        {
-          // currently iterated "controller" is preceding controller --> add following controller
-          // with matching interface name to "from" chained mode list (if not already in it)
-          if (
-            std::find(
-              switch_params_.from_chained_mode_request.begin(),
-              switch_params_.from_chained_mode_request.end(),
-              following_ctrl_it->info.name) == switch_params_.from_chained_mode_request.end())
-          {
-            switch_params_.from_chained_mode_request.push_back(following_ctrl_it->info.name);
-            RCLCPP_DEBUG(
-              get_logger(), "Adding controller '%s' in 'from chained mode' request.",
-              following_ctrl_it->info.name.c_str());
-          }
-        }
-      }
+  for (const auto & controller : controllers)
+  {
+    if (!controller.c->is_chainable() || !will_be_active(controller))
+    {
+      continue;
+    }
+    // a controller that is deactivated in this switch leaves the chained mode with it
+    const bool is_chained =
+      is_controller_active(controller.c) && controller.c->is_in_chained_mode() &&
+      !ros2_control::has_item(switch_params_.deactivate_request, controller.info.name);
+    const bool is_referenced =
+      ros2_control::has_item(referenced_controllers, controller.info.name);
+    if (is_referenced && !is_chained)
+    {
+      switch_params_.to_chained_mode_request.push_back(controller.info.name);
+      RCLCPP_DEBUG(
+        get_logger(), "Adding controller '%s' in 'to chained mode' request.",
+        controller.info.name.c_str());
+    }
+    else if (!is_referenced && is_chained)
+    {
+      switch_params_.from_chained_mode_request.push_back(controller.info.name);
+      RCLCPP_DEBUG(
+        get_logger(), "Adding controller '%s' in 'from chained mode' request.",
+        controller.info.name.c_str());
     }
   }
 }
@@ -4003,47 +4009,15 @@ controller_interface::return_type ControllerManager::check_following_controllers
     //   switch_params_.activate_request.insert(switch_params_.activate_request.begin(),
     //   following_ctrl_name);
     // }
-    if (!following_ctrl_it->c->is_in_chained_mode())
+    if (is_controller_inactive(following_ctrl_it->c))
     {
-      auto found_it = std::find(
-        switch_params_.to_chained_mode_request.begin(),
-        switch_params_.to_chained_mode_request.end(), following_ctrl_it->info.name);
-      if (found_it == switch_params_.to_chained_mode_request.end())
-      {
-        // if it is a chainable controller, make the reference interfaces available on preactivation
-        // (This is needed when you activate a couple of chainable controller altogether)
-        // make all the exported interfaces of the controller available
-        resource_manager_->make_controller_exported_state_interfaces_available(
-          following_ctrl_it->info.name);
-        if (
-          std::find(
-            controller_cmd_interfaces.begin(), controller_cmd_interfaces.end(), ctrl_itf_name) !=
-          controller_cmd_interfaces.end())
-        {
-          resource_manager_->make_controller_reference_interfaces_available(
-            following_ctrl_it->info.name);
-          switch_params_.to_chained_mode_request.push_back(following_ctrl_it->info.name);
-          RCLCPP_DEBUG(
-            get_logger(), "Adding controller '%s' in 'to chained mode' request.",
-            following_ctrl_it->info.name.c_str());
-        }
-      }
-    }
-    else
-    {
-      // Check if following controller is in 'from' chained mode list and remove it, if so
-      auto found_it = std::find(
-        switch_params_.from_chained_mode_request.begin(),
-        switch_params_.from_chained_mode_request.end(), following_ctrl_it->info.name);
-      if (found_it != switch_params_.from_chained_mode_request.end())
-      {
-        switch_params_.from_chained_mode_request.erase(found_it);
-        RCLCPP_DEBUG(
-          get_logger(),
-          "Removing controller '%s' in 'from chained mode' request because it "
-          "should stay in chained mode.",
-          following_ctrl_it->info.name.c_str());
-      }
+      // if it is a chainable controller, make the reference interfaces available on preactivation
+      // (This is needed when you activate a couple of chainable controller altogether)
+      // make all the exported interfaces of the controller available
+      resource_manager_->make_controller_exported_state_interfaces_available(
+        following_ctrl_it->info.name);
+      resource_manager_->make_controller_reference_interfaces_available(
+        following_ctrl_it->info.name);
     }
   }
   return controller_interface::return_type::OK;
-- 
2.43.0


From 371cb32d020afbb567b94c1a8116051d5efb4b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:00 +0000
Subject: [PATCH 28/71] fix: leave the interfaces of inactive chainable
 controllers unavailable after a switch request

---
 controller_manager/src/controller_manager.cpp | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 7be9d50..a36d672 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2038,6 +2038,27 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
 
   const std::vector<ControllerSpec> & controllers = rt_controllers_wrapper_.get_updated_list(guard);
 
+  // the interfaces of chainable controllers become available while the request is checked; whatever
+  // the outcome is, those of the controllers that are not active must not stay available
+  struct ExportedInterfacesReset
+  {
+    ~ExportedInterfacesReset()
+    {
+      for (const auto & controller : cm.rt_controllers_wrapper_.get_updated_list(lock))
+      {
+        if (controller.c->is_chainable() && is_controller_inactive(controller.c))
+        {
+          cm.resource_manager_->make_controller_exported_state_interfaces_unavailable(
+            controller.info.name);
+          cm.resource_manager_->make_controller_reference_interfaces_unavailable(
+            controller.info.name);
+        }
+      }
+    }
+    ControllerManager & cm;
+    const std::lock_guard<RTControllerListWrapper::controllers_lock_type> & lock;
+  } exported_interfaces_reset{*this, guard};
+
   // check if the controllers to activate can be activated
   for (auto ctrl_it = switch_params_.activate_request.begin();
        ctrl_it != switch_params_.activate_request.end(); ++ctrl_it)
-- 
2.43.0


From 01e21ecde917e2f0c0e7ebe6cb4069ce82b6a34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:05 +0000
Subject: [PATCH 29/71] fix: unload finalized controllers and leave no
 interfaces of an unloaded controller behind

---
 controller_manager/src/controller_manager.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index a36d672..7c92844 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -79,6 +79,12 @@ inline bool is_controller_inactive(
   return is_controller_inactive(*controller);
 }
 
+inline bool is_controller_finalized(
+  const controller_interface::ControllerInterfaceBase & controller)
+{
+  return controller.get_lifecycle_id() == lifecycle_msgs::msg::State::PRIMARY_STATE_FINALIZED;
+}
+
 inline bool is_controller_active(const controller_interface::ControllerInterfaceBase & controller)
 {
   return controller.get_lifecycle_id() == lifecycle_msgs::msg::State::PRIMARY_STATE_ACTIVE;
@@ -1449,11 +1455,17 @@ controller_interface::return_type ControllerManager::unload_controller(
     return controller_interface::return_type::ERROR;
   }
 
-  // call cleanup transition, if it is inactive
-  if (cleanup_controller(controller_name) != controller_interface::return_type::OK)
+  // call cleanup transition, if it is inactive; there is nothing to clean up in a finalized one
+  if (
+    !is_controller_finalized(*controller.c) &&
+    cleanup_controller(controller_name) != controller_interface::return_type::OK)
   {
+    to.clear();
     return controller_interface::return_type::ERROR;
   }
+  // the exported interfaces may still exist, if the controller has left the inactive state by an
+  // error
+  cleanup_controller_exported_interfaces(controller);
 
   RCLCPP_DEBUG(get_logger(), "Shutdown controller");
   controller_chain_spec_cleanup(controller_chain_spec_, controller_name);
-- 
2.43.0


From 4de0bb7fc026de29a2fa34383e758a2e76b564d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:00 +0000
Subject: [PATCH 30/71] fix: check the followers of restarted controllers and
 all dependents of controllers dropped from a switch

---
 controller_manager/src/controller_manager.cpp | 33 +++++++++++++------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 7c92844..6469ac4 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2073,7 +2073,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
 
   // check if the controllers to activate can be activated
   for (auto ctrl_it = switch_params_.activate_request.begin();
-       ctrl_it != switch_params_.activate_request.end(); ++ctrl_it)
+       ctrl_it != switch_params_.activate_request.end();)
   {
     auto controller_it = std::find_if(
       controllers.begin(), controllers.end(),
@@ -2104,6 +2104,12 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         RCLCPP_WARN(get_logger(), "%s", message.c_str());
         status = controller_interface::return_type::ERROR;
       }
+      else
+      {
+        // a controller that is restarted needs its following controllers as well
+        status =
+          check_following_controllers_for_activate(controllers, strictness, controller_it, message);
+      }
     }
     else if (!is_controller_inactive(controller_it->c))
     {
@@ -2139,11 +2145,12 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         // TODO(destogl): automatic manipulation of the chain:
         // || strictness ==
         //  controller_manager_msgs::srv::SwitchController::Request::MANIPULATE_CONTROLLERS_CHAIN);
-        // remove controller that can not be activated from the activation request and step-back
-        // iterator to correctly step to the next element in the list in the loop
+        // remove controller that can not be activated from the activation request and check the
+        // remaining ones again, since they may depend on it
         switch_params_.activate_request.erase(ctrl_it);
         message.clear();
-        --ctrl_it;
+        ctrl_it = switch_params_.activate_request.begin();
+        continue;
       }
       if (strictness == controller_manager_msgs::srv::SwitchController::Request::STRICT)
       {
@@ -2153,11 +2160,12 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         return controller_interface::return_type::ERROR;
       }
     }
+    ++ctrl_it;
   }
 
   // check if controllers should be deactivated if used in chained mode
   for (auto ctrl_it = switch_params_.deactivate_request.begin();
-       ctrl_it != switch_params_.deactivate_request.end(); ++ctrl_it)
+       ctrl_it != switch_params_.deactivate_request.end();)
   {
     auto controller_it = std::find_if(
       controllers.begin(), controllers.end(),
@@ -2189,11 +2197,12 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         (*ctrl_it).c_str());
       if (strictness == controller_manager_msgs::srv::SwitchController::Request::BEST_EFFORT)
       {
-        // remove controller that can not be activated from the activation request and step-back
-        // iterator to correctly step to the next element in the list in the loop
+        // remove controller that can not be deactivated from the deactivation request and check the
+        // remaining ones again, since what they depend on may not be deactivated anymore
         switch_params_.deactivate_request.erase(ctrl_it);
         message.clear();
-        --ctrl_it;
+        ctrl_it = switch_params_.deactivate_request.begin();
+        continue;
       }
       if (strictness == controller_manager_msgs::srv::SwitchController::Request::STRICT)
       {
@@ -2203,6 +2212,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         return controller_interface::return_type::ERROR;
       }
     }
+    ++ctrl_it;
   }
 
   // Check after the check if the activate and deactivate list is empty or not
@@ -3982,11 +3992,14 @@ controller_interface::return_type ControllerManager::check_following_controllers
 
     if (is_controller_active(following_ctrl_it->c))
     {
-      // will following controller be deactivated?
+      // will following controller be deactivated, and not activated again?
       if (
         std::find(
           switch_params_.deactivate_request.begin(), switch_params_.deactivate_request.end(),
-          following_ctrl_it->info.name) != switch_params_.deactivate_request.end())
+          following_ctrl_it->info.name) != switch_params_.deactivate_request.end() &&
+        std::find(
+          switch_params_.activate_request.begin(), switch_params_.activate_request.end(),
+          following_ctrl_it->info.name) == switch_params_.activate_request.end())
       {
         if (
           (ros2_control::has_item(controller_state_interfaces, ctrl_itf_name) &&
-- 
2.43.0


From 7f01da435b28435af2f82ae57cf8a43fa6bd0cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:00 +0000
Subject: [PATCH 31/71] fix: refuse to activate a controller with command
 interfaces of a controller that is only restarted

---
 controller_manager/src/controller_manager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 6469ac4..c013c05 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -4346,6 +4346,11 @@ controller_interface::return_type ControllerManager::check_for_interfaces_availa
   std::vector<std::string> future_available_cmd_interfaces = {};
   for (const auto & controller_name : deactivation_list)
   {
+    if (ros2_control::has_item(activation_list, controller_name))
+    {
+      // the interfaces of controllers that are restarted do not become available for others
+      continue;
+    }
     auto controller_it = std::find_if(
       controllers.begin(), controllers.end(),
       std::bind(controller_name_compare, std::placeholders::_1, controller_name));
-- 
2.43.0


From 6a92c3c22a7eac5dbb968a5418294716a8d74292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:38 +0000
Subject: [PATCH 32/71] fix: report a switch as failed when the hardware
 refuses to perform it

---
 .../include/controller_manager/controller_manager.hpp    | 3 +++
 controller_manager/src/controller_manager.cpp            | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 6dc63aa..b5663ea 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -732,10 +732,13 @@ private:
       strictness = 0;
       activate_asap = false;
       ready_to_switch = false;
+      mode_switch_failed = false;
     }
 
     std::atomic_bool do_switch{false};
     std::atomic_bool ready_to_switch{false};
+    // the hardware refused to perform the switch
+    std::atomic_bool mode_switch_failed{false};
 
     // Switch options
     int strictness;
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index c013c05..942a76d 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2467,6 +2467,14 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
     manage_switch();
   }
 
+  if (switch_params_.mode_switch_failed)
+  {
+    message = "Could not switch controllers since perform command mode switch was rejected.";
+    RCLCPP_ERROR(get_logger(), "%s", message.c_str());
+    clear_requests();
+    return controller_interface::return_type::ERROR;
+  }
+
   // copy the controllers spec from the used to the unused list
   std::vector<ControllerSpec> & to = rt_controllers_wrapper_.get_unused_list(guard);
   to = controllers;
@@ -3375,6 +3383,7 @@ void ControllerManager::manage_switch()
   {
     RCLCPP_ERROR(get_logger(), "Error while performing mode switch.");
     // If the hardware switching fails, there is no point in continuing to switch controllers
+    switch_params_.mode_switch_failed = true;
     switch_params_.do_switch = false;
     switch_params_.cv.notify_all();
     return;
-- 
2.43.0


From 88c3a346cd1eee3f3d98430047dd73bee1288b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:21 +0000
Subject: [PATCH 33/71] fix: stop what depends on controllers stopped by
 failing hardware, and only them

---
 .../controller_manager/controller_manager.hpp |  11 ++
 controller_manager/src/controller_manager.cpp | 143 +++++++++++-------
 2 files changed, 101 insertions(+), 53 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index b5663ea..04e2c63 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -395,6 +395,17 @@ private:
    */
   void clear_requests();
 
+  /**
+   * Determine the active controllers that have to stop because of failing or deactivated hardware
+   * components, including the ones that use the interfaces of those controllers. The result is
+   * stored in the list of controllers to deactivate of the real-time buffer.
+   * \param[in] rt_controller_list list of controllers in the real-time list.
+   * \param[in] hardware_names names of the hardware components that failed or were deactivated.
+   */
+  void determine_controllers_to_stop_for_hardware(
+    const std::vector<ControllerSpec> & rt_controller_list,
+    const std::vector<std::string> & hardware_names);
+
   /**
    * Perform hardware command mode change for the given list of controllers to activate and
    * deactivate.
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 942a76d..9ab0147 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -322,6 +322,42 @@ void get_active_controllers_using_command_interfaces_of_controller(
   }
 }
 
+// Extends the list by the active controllers that need interfaces exported by a controller of the
+// list, directly or through other controllers
+void add_active_controllers_depending_on_controllers(
+  const std::vector<controller_manager::ControllerSpec> & controllers,
+  std::vector<std::string> & controllers_list)
+{
+  const auto needs_interface_of_list =
+    [&](const controller_interface::InterfaceConfiguration & configuration)
+  {
+    return configuration.type ==
+             controller_interface::interface_configuration_type::INDIVIDUAL &&
+           std::any_of(
+             configuration.names.begin(), configuration.names.end(),
+             [&](const std::string & interface) {
+               return ros2_control::has_item(
+                 controllers_list, interface.substr(0, interface.find_first_of('/')));
+             });
+  };
+  for (bool extended = true; extended;)
+  {
+    extended = false;
+    for (const auto & controller : controllers)
+    {
+      if (
+        is_controller_active(controller.c) &&
+        !ros2_control::has_item(controllers_list, controller.info.name) &&
+        (needs_interface_of_list(controller.c->command_interface_configuration()) ||
+         needs_interface_of_list(controller.c->state_interface_configuration())))
+      {
+        controllers_list.push_back(controller.info.name);
+        extended = true;
+      }
+    }
+  }
+}
+
 void extract_command_interfaces_for_controller(
   const controller_manager::ControllerSpec & ctrl,
   const std::unique_ptr<hardware_interface::ResourceManager> & resource_manager,
@@ -3338,14 +3374,9 @@ void ControllerManager::read(const rclcpp::Time & time, const rclcpp::Duration &
 
   if (result != hardware_interface::return_type::OK)
   {
-    rt_buffer_.deactivate_controllers_list.clear();
-    // Determine controllers to stop
-    for (const auto & hardware_name : failed_hardware_names)
-    {
-      auto controllers = resource_manager_->get_cached_controllers_to_hardware(hardware_name);
-      rt_buffer_.deactivate_controllers_list.insert(
-        rt_buffer_.deactivate_controllers_list.end(), controllers.begin(), controllers.end());
-    }
+    std::vector<ControllerSpec> & rt_controller_list =
+      rt_controllers_wrapper_.update_and_get_used_by_rt_list();
+    determine_controllers_to_stop_for_hardware(rt_controller_list, failed_hardware_names);
     RCLCPP_ERROR(
       get_logger(),
       "Deactivating following hardware components as their read cycle resulted in an error: [ %s]",
@@ -3355,8 +3386,6 @@ void ControllerManager::read(const rclcpp::Time & time, const rclcpp::Duration &
       "Deactivating following controllers as their hardware components read cycle resulted in an "
       "error: [ %s]",
       rt_buffer_.get_concatenated_string(rt_buffer_.deactivate_controllers_list).c_str());
-    std::vector<ControllerSpec> & rt_controller_list =
-      rt_controllers_wrapper_.update_and_get_used_by_rt_list();
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "read");
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
@@ -3661,14 +3690,9 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
 
   if (result == hardware_interface::return_type::ERROR)
   {
-    rt_buffer_.deactivate_controllers_list.clear();
-    // Determine controllers to stop
-    for (const auto & hardware_name : failed_hardware_names)
-    {
-      auto controllers = resource_manager_->get_cached_controllers_to_hardware(hardware_name);
-      rt_buffer_.deactivate_controllers_list.insert(
-        rt_buffer_.deactivate_controllers_list.end(), controllers.begin(), controllers.end());
-    }
+    std::vector<ControllerSpec> & rt_controller_list =
+      rt_controllers_wrapper_.update_and_get_used_by_rt_list();
+    determine_controllers_to_stop_for_hardware(rt_controller_list, failed_hardware_names);
     RCLCPP_ERROR(
       get_logger(),
       "Deactivating following hardware components as their write cycle resulted in an error: [ "
@@ -3679,8 +3703,6 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
       "Deactivating following controllers as their hardware components write cycle resulted in an "
       "error: [ %s]",
       rt_buffer_.get_concatenated_string(rt_buffer_.deactivate_controllers_list).c_str());
-    std::vector<ControllerSpec> & rt_controller_list =
-      rt_controllers_wrapper_.update_and_get_used_by_rt_list();
 
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "write");
@@ -3689,44 +3711,14 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
   }
   else if (result == hardware_interface::return_type::DEACTIVATE)
   {
-    rt_buffer_.deactivate_controllers_list.clear();
-    auto loaded_controllers = get_loaded_controllers();
-    // Only stop controllers with active command interfaces to the failed_hardware_names
-    for (const auto & hardware_name : failed_hardware_names)
-    {
-      auto controllers = resource_manager_->get_cached_controllers_to_hardware(hardware_name);
-      for (const auto & controller : controllers)
-      {
-        auto controller_spec = std::find_if(
-          loaded_controllers.begin(), loaded_controllers.end(),
-          [&](const controller_manager::ControllerSpec & spec)
-          { return spec.c->get_name() == controller; });
-        if (controller_spec == loaded_controllers.end())
-        {
-          RCLCPP_WARN(
-            get_logger(),
-            "Deactivate failed to find controller [%s] in loaded controllers. "
-            "This can happen due to multiple returns of 'DEACTIVATE' from [%s] write()",
-            controller.c_str(), hardware_name.c_str());
-          continue;
-        }
-        std::vector<std::string> command_interface_names;
-        extract_command_interfaces_for_controller(
-          *controller_spec, resource_manager_, command_interface_names);
-        // if this controller has command interfaces add it to the deactivate_controllers_list
-        if (!command_interface_names.empty())
-        {
-          rt_buffer_.deactivate_controllers_list.push_back(controller);
-        }
-      }
-    }
+    std::vector<ControllerSpec> & rt_controller_list =
+      rt_controllers_wrapper_.update_and_get_used_by_rt_list();
+    determine_controllers_to_stop_for_hardware(rt_controller_list, failed_hardware_names);
     RCLCPP_ERROR_EXPRESSION(
       get_logger(), !rt_buffer_.deactivate_controllers_list.empty(),
       "Deactivating controllers [%s] as their command interfaces are tied to DEACTIVATEing "
       "hardware components",
       rt_buffer_.get_concatenated_string(rt_buffer_.deactivate_controllers_list).c_str());
-    std::vector<ControllerSpec> & rt_controller_list =
-      rt_controllers_wrapper_.update_and_get_used_by_rt_list();
 
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "write");
@@ -3857,6 +3849,51 @@ unsigned int ControllerManager::get_update_rate() const { return update_rate_; }
 
 rclcpp::Clock::SharedPtr ControllerManager::get_trigger_clock() const { return trigger_clock_; }
 
+void ControllerManager::determine_controllers_to_stop_for_hardware(
+  const std::vector<ControllerSpec> & rt_controller_list,
+  const std::vector<std::string> & hardware_names)
+{
+  rt_buffer_.deactivate_controllers_list.clear();
+  const auto & components = resource_manager_->get_components_status();
+  for (const auto & hardware_name : hardware_names)
+  {
+    // a component that was only deactivated still provides its states
+    const auto component_it = components.find(hardware_name);
+    const bool only_commanding_controllers =
+      component_it != components.end() && component_it->second.state.id() ==
+                                            lifecycle_msgs::msg::State::PRIMARY_STATE_INACTIVE;
+    const auto controllers = resource_manager_->get_cached_controllers_to_hardware(hardware_name);
+    for (const auto & controller_name : controllers)
+    {
+      const auto controller_it = std::find_if(
+        rt_controller_list.begin(), rt_controller_list.end(),
+        std::bind(controller_name_compare, std::placeholders::_1, controller_name));
+      if (controller_it == rt_controller_list.end() || !is_controller_active(controller_it->c))
+      {
+        continue;
+      }
+      if (only_commanding_controllers)
+      {
+        const auto interfaces = get_command_interfaces_names(controller_it->c, resource_manager_);
+        if (
+          std::none_of(
+            interfaces.begin(), interfaces.end(),
+            [&](const std::string & interface)
+            {
+              return ros2_control::has_item(component_it->second.command_interfaces, interface);
+            }))
+        {
+          continue;
+        }
+      }
+      ros2_control::add_item(rt_buffer_.deactivate_controllers_list, controller_name);
+    }
+  }
+  // and the controllers that use the interfaces of the ones above
+  add_active_controllers_depending_on_controllers(
+    rt_controller_list, rt_buffer_.deactivate_controllers_list);
+}
+
 void ControllerManager::perform_hardware_command_mode_change(
   const std::vector<ControllerSpec> & rt_controller_list,
   const std::vector<std::string> & activate_controllers_list,
-- 
2.43.0


From 49094e5a532758d960c5d1adc7ec17b260cc2b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 34/71] fix: leave no controller active that needs a controller
 whose activation failed

---
 controller_manager/src/controller_manager.cpp | 79 ++++++++++++++++---
 1 file changed, 67 insertions(+), 12 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 9ab0147..ca93f5d 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2738,7 +2738,7 @@ void ControllerManager::activate_controllers(
       std::bind(controller_name_compare, std::placeholders::_1, controller_name));
     if (found_it != rt_controller_list.end())
     {
-      if (found_it->c->is_chainable())
+      if (found_it->c->is_chainable() && is_controller_inactive(found_it->c))
       {
         RCLCPP_DEBUG(
           get_logger(),
@@ -2764,6 +2764,14 @@ void ControllerManager::activate_controllers(
       continue;
     }
     auto controller = found_it->c;
+    if (!is_controller_inactive(controller))
+    {
+      RCLCPP_ERROR(
+        get_logger(), "Could not activate controller '%s' since it is in '%s' state",
+        controller_name.c_str(), controller->get_lifecycle_state().label().c_str());
+      is_successful = false;
+      continue;
+    }
     // reset the last update cycle time for newly activated controllers
     *found_it->last_update_cycle_time =
       rclcpp::Time(0, 0, this->get_trigger_clock()->get_clock_type());
@@ -2873,6 +2881,7 @@ void ControllerManager::activate_controllers(
       ros2_control::add_items(failed_controllers_command_interfaces, command_interface_names);
       if (controller->is_chainable())
       {
+        controller->set_chained_mode(false);
         // make all the exported interfaces of the controller unavailable
         resource_manager_->make_controller_exported_state_interfaces_unavailable(controller_name);
         resource_manager_->make_controller_reference_interfaces_unavailable(controller_name);
@@ -2888,6 +2897,35 @@ void ControllerManager::activate_controllers(
       resource_manager_->make_controller_reference_interfaces_available(controller_name);
     }
   }
+  std::vector<std::string> controllers_to_stop;
+  if (!is_successful)
+  {
+    for (const auto & controller_name : controllers_to_activate)
+    {
+      auto found_it = std::find_if(
+        rt_controller_list.begin(), rt_controller_list.end(),
+        std::bind(controller_name_compare, std::placeholders::_1, controller_name));
+      if (found_it == rt_controller_list.end())
+      {
+        continue;
+      }
+      if (is_controller_inactive(found_it->c) && found_it->c->is_chainable())
+      {
+        // the interfaces of the controllers that could not be activated are not available
+        found_it->c->set_chained_mode(false);
+        resource_manager_->make_controller_exported_state_interfaces_unavailable(controller_name);
+        resource_manager_->make_controller_reference_interfaces_unavailable(controller_name);
+      }
+      if (
+        strictness == controller_manager_msgs::srv::SwitchController::Request::STRICT ||
+        !is_controller_active(found_it->c))
+      {
+        ros2_control::add_item(controllers_to_stop, controller_name);
+      }
+    }
+    // the controllers that use interfaces of the ones that are not active have to stop as well
+    add_active_controllers_depending_on_controllers(rt_controller_list, controllers_to_stop);
+  }
   if (
     !is_successful && strictness == controller_manager_msgs::srv::SwitchController::Request::STRICT)
   {
@@ -2896,7 +2934,7 @@ void ControllerManager::activate_controllers(
       "At least one controller failed to be activated. Releasing all interfaces and stopping all "
       "activated controllers because the switch strictness is set to STRICT.");
     // deactivate all controllers that were activated in this switch
-    deactivate_controllers(rt_controller_list, controllers_to_activate);
+    deactivate_controllers(rt_controller_list, controllers_to_stop);
     if (
       !resource_manager_->prepare_command_mode_switch(
         {}, switch_params_.activate_command_interface_request) ||
@@ -2909,17 +2947,34 @@ void ControllerManager::activate_controllers(
         "failed.");
     }
   }
-  // Now prepare and perform the stop interface switching as this is needed for exclusive
-  // interfaces
-  else if (
-    !failed_controllers_command_interfaces.empty() &&
-    (!resource_manager_->prepare_command_mode_switch({}, failed_controllers_command_interfaces) ||
-     !resource_manager_->perform_command_mode_switch({}, failed_controllers_command_interfaces)))
+  else if (!is_successful)
   {
-    RCLCPP_ERROR(
-      get_logger(),
-      "Error switching back the interfaces in the hardware when the controller activation "
-      "failed.");
+    for (const auto & controller_name : controllers_to_stop)
+    {
+      auto found_it = std::find_if(
+        rt_controller_list.begin(), rt_controller_list.end(),
+        std::bind(controller_name_compare, std::placeholders::_1, controller_name));
+      if (found_it != rt_controller_list.end() && is_controller_active(found_it->c))
+      {
+        ros2_control::add_items(
+          failed_controllers_command_interfaces,
+          get_command_interfaces_names(found_it->c, resource_manager_));
+      }
+    }
+    deactivate_controllers(rt_controller_list, controllers_to_stop);
+    // Now prepare and perform the stop interface switching as this is needed for exclusive
+    // interfaces
+    if (
+      !failed_controllers_command_interfaces.empty() &&
+      (!resource_manager_->prepare_command_mode_switch(
+         {}, failed_controllers_command_interfaces) ||
+       !resource_manager_->perform_command_mode_switch({}, failed_controllers_command_interfaces)))
+    {
+      RCLCPP_ERROR(
+        get_logger(),
+        "Error switching back the interfaces in the hardware when the controller activation "
+        "failed.");
+    }
   }
 }
 
-- 
2.43.0


From 37a587148a0bd80432387b78c8dabbbf1ab45a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:08 +0000
Subject: [PATCH 35/71] fix: start fallback controllers in the right chained
 mode and leave running and unrelated ones alone

---
 .../controller_manager/controller_manager.hpp | 10 +++
 controller_manager/src/controller_manager.cpp | 61 ++++++++++++++++++-
 2 files changed, 70 insertions(+), 1 deletion(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 04e2c63..3b587ab 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -281,6 +281,16 @@ protected:
     const std::vector<std::string> & chained_mode_switch_list, bool to_chained_mode);
 
   /// Activate chosen controllers from real-time controller list.
+  /**
+   * Put the fallback controllers that are going to be activated in chained mode if their reference
+   * interfaces are claimed by a controller that is active or by another fallback controller.
+   * \param[in] rt_controller_list controllers in the real-time list.
+   * \param[in] fallback_controllers_list names of the fallback controllers to be activated.
+   */
+  void set_chained_mode_of_fallback_controllers(
+    const std::vector<ControllerSpec> & rt_controller_list,
+    const std::vector<std::string> & fallback_controllers_list);
+
   /**
    * Activate controllers with names \p controllers_to_activate from list \p rt_controller_list.
    * The controller list will be iterated as many times as there are controller names.
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index ca93f5d..8c5b195 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2724,6 +2724,40 @@ void ControllerManager::switch_chained_mode(
   }
 }
 
+void ControllerManager::set_chained_mode_of_fallback_controllers(
+  const std::vector<ControllerSpec> & rt_controller_list,
+  const std::vector<std::string> & fallback_controllers_list)
+{
+  // controllers whose reference interfaces are claimed by an active or another fallback controller
+  std::vector<std::string> referenced_controllers;
+  for (const auto & controller : rt_controller_list)
+  {
+    if (
+      is_controller_active(controller.c) ||
+      ros2_control::has_item(fallback_controllers_list, controller.info.name))
+    {
+      for (const auto & interface : get_command_interfaces_names(controller.c, resource_manager_))
+      {
+        ControllersListIterator following_ctrl_it;
+        if (is_interface_a_chained_interface(interface, rt_controller_list, following_ctrl_it))
+        {
+          ros2_control::add_item(referenced_controllers, following_ctrl_it->info.name);
+        }
+      }
+    }
+  }
+  for (const auto & controller : rt_controller_list)
+  {
+    if (
+      controller.c->is_chainable() && is_controller_inactive(controller.c) &&
+      ros2_control::has_item(fallback_controllers_list, controller.info.name))
+    {
+      controller.c->set_chained_mode(
+        ros2_control::has_item(referenced_controllers, controller.info.name));
+    }
+  }
+}
+
 void ControllerManager::activate_controllers(
   const std::vector<ControllerSpec> & rt_controller_list,
   const std::vector<std::string> & controllers_to_activate, int strictness)
@@ -3653,7 +3687,16 @@ controller_interface::return_type ControllerManager::update(
             loaded_controller.info.name.c_str(), controller_chain.size());
           for (const auto & chained_controller : controller_chain)
           {
-            ros2_control::add_item(rt_buffer_.deactivate_controllers_list, chained_controller);
+            const auto chained_controller_it = std::find_if(
+              rt_controller_list.begin(), rt_controller_list.end(),
+              std::bind(controller_name_compare, std::placeholders::_1, chained_controller));
+            // the members of the chain that are not active are not affected
+            if (
+              chained_controller_it != rt_controller_list.end() &&
+              is_controller_active(chained_controller_it->c))
+            {
+              ros2_control::add_item(rt_buffer_.deactivate_controllers_list, chained_controller);
+            }
           }
           ret = controller_ret;
         }
@@ -3674,6 +3717,16 @@ controller_interface::return_type ControllerManager::update(
       {
         for (const auto & fallback_controller : ctrl_it->info.fallback_controllers_names)
         {
+          const auto fallback_it = std::find_if(
+            rt_controller_list.begin(), rt_controller_list.end(),
+            std::bind(controller_name_compare, std::placeholders::_1, fallback_controller));
+          if (
+            fallback_it != rt_controller_list.end() && is_controller_active(fallback_it->c) &&
+            !ros2_control::has_item(rt_buffer_.deactivate_controllers_list, fallback_controller))
+          {
+            // it is running already and goes on
+            continue;
+          }
           ros2_control::add_item(rt_buffer_.fallback_controllers_list, fallback_controller);
           get_active_controllers_using_command_interfaces_of_controller(
             fallback_controller, rt_controller_list,
@@ -3682,6 +3735,10 @@ controller_interface::return_type ControllerManager::update(
       }
     }
 
+    // the controllers that use interfaces exported by the ones to deactivate have to stop as well
+    add_active_controllers_depending_on_controllers(
+      rt_controller_list, rt_buffer_.activate_controllers_using_interfaces_list);
+
     RCLCPP_ERROR(
       get_logger(), "Deactivating controllers : [ %s] as their update resulted in an error!",
       rt_buffer_.get_concatenated_string(rt_buffer_.deactivate_controllers_list).c_str());
@@ -3707,6 +3764,8 @@ controller_interface::return_type ControllerManager::update(
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
     if (!rt_buffer_.fallback_controllers_list.empty())
     {
+      set_chained_mode_of_fallback_controllers(
+        rt_controller_list, rt_buffer_.fallback_controllers_list);
       activate_controllers(
         rt_controller_list, rt_buffer_.fallback_controllers_list,
         controller_manager_msgs::srv::SwitchController::Request::STRICT);
-- 
2.43.0


From 1515f4632785f8187f2fb6e3c2a99bc2fdbd8484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:23 +0000
Subject: [PATCH 36/71] fix: refuse to activate a controller whose fallback
 needs an unconfigured controller

---
 controller_manager/src/controller_manager.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 8c5b195..1b5db3e 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -4346,9 +4346,10 @@ ControllerManager::check_fallback_controllers_state_pre_activation(
             // if following_ctrl_it is inactive and it is in the fallback list of the
             // controller_it and then check it it's exported reference interface names list if
             // it's available
-            if (is_controller_inactive(following_ctrl_it->c))
+            if (!is_controller_active(following_ctrl_it->c))
             {
               if (
+                is_controller_inactive(following_ctrl_it->c) &&
                 std::find(
                   controller_it->info.fallback_controllers_names.begin(),
                   controller_it->info.fallback_controllers_names.end(),
@@ -4408,9 +4409,10 @@ ControllerManager::check_fallback_controllers_state_pre_activation(
             // if following_ctrl_it is inactive and it is in the fallback list of the
             // controller_it and then check it it's exported reference interface names list if
             // it's available
-            if (is_controller_inactive(following_ctrl_it->c))
+            if (!is_controller_active(following_ctrl_it->c))
             {
               if (
+                is_controller_inactive(following_ctrl_it->c) &&
                 std::find(
                   controller_it->info.fallback_controllers_names.begin(),
                   controller_it->info.fallback_controllers_names.end(),
-- 
2.43.0


From f70b0823249a65e14289b1929dc53acae5b145e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:40 +0000
Subject: [PATCH 37/71] fix: keep the interfaces of a controller that refuses
 to be cleaned up

---
 controller_manager/src/controller_manager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 1b5db3e..284f9be 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1534,8 +1534,12 @@ controller_interface::return_type ControllerManager::cleanup_controller(
 {
   try
   {
-    cleanup_controller_exported_interfaces(controller);
     const auto new_state = controller.c->get_node()->cleanup();
+    if (new_state.id() != lifecycle_msgs::msg::State::PRIMARY_STATE_INACTIVE)
+    {
+      // a controller that refuses to be cleaned up stays inactive and keeps its interfaces
+      cleanup_controller_exported_interfaces(controller);
+    }
     if (new_state.id() != lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED)
     {
       RCLCPP_ERROR(
-- 
2.43.0


From 2ca95350ebc567786888df6fb13300217149fc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:40 +0000
Subject: [PATCH 38/71] fix: switch a controller named twice in a request only
 once

---
 controller_manager/src/controller_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 284f9be..a01024d 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2053,7 +2053,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         RCLCPP_DEBUG(
           get_logger(), "Found controller '%s' that needs to be %sed in list of controllers",
           controller.c_str(), action.c_str());
-        request_list.push_back(controller);
+        ros2_control::add_item(request_list, controller);
       }
     }
     RCLCPP_DEBUG(
-- 
2.43.0


From b3af70758d9a68796bf0a7ea8b003228421d3e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:12 +0000
Subject: [PATCH 39/71] fix: take a raised update rate of a controller over
 when it is configured again

---
 controller_interface/src/controller_interface_base.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/controller_interface/src/controller_interface_base.cpp b/controller_interface/src/controller_interface_base.cpp
index 43ee52e..225c381 100644
--- a/controller_interface/src/controller_interface_base.cpp
+++ b/controller_interface/src/controller_interface_base.cpp
@@ -204,7 +204,11 @@ const rclcpp_lifecycle::State & ControllerInterfaceBase::configure()
       RCLCPP_ERROR(get_node()->get_logger(), "Update rate cannot be a negative value!");
       return get_lifecycle_state();
     }
-    if (params.update_rate != 0u && update_rate > params.update_rate)
+    // the current update rate may be the one of an earlier configuration
+    const unsigned int max_update_rate = params.controller_manager_update_rate > 0
+                                           ? params.controller_manager_update_rate
+                                           : params.update_rate;
+    if (max_update_rate != 0u && update_rate > max_update_rate)
     {
       RCLCPP_WARN(
         get_node()->get_logger(), "%s",
@@ -212,8 +216,9 @@ const rclcpp_lifecycle::State & ControllerInterfaceBase::configure()
           "The update rate of the controller : '{} Hz' cannot be higher than the update rate of "
           "the controller manager : '{} Hz'. Setting it to the update rate of the controller "
           "manager.",
-          update_rate, params.update_rate)
+          update_rate, max_update_rate)
           .c_str());
+      params.update_rate = max_update_rate;
     }
     else
     {
-- 
2.43.0


From dfd1f0e4fc35be1ec30b0310da20e0b28b770af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:07 +0000
Subject: [PATCH 40/71] fix: guard the interface lists against requests that
 change them beside the control loop

---
 hardware_interface/src/resource_manager.cpp | 42 ++++++++++++++++-----
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index e0890c7..49da2a2 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -167,9 +167,12 @@ public:
     }
   }
 
-  explicit ResourceStorage(const hardware_interface::ResourceManagerParams & rm_param)
+  ResourceStorage(
+    const hardware_interface::ResourceManagerParams & rm_param,
+    std::recursive_mutex & resource_interfaces_lock)
   : ResourceStorage(rm_param.clock, rm_param.logger)
   {
+    resource_interfaces_lock_ = &resource_interfaces_lock;
     handle_exception_ = rm_param.handle_exceptions;
     robot_description_ = rm_param.robot_description;
     cm_update_rate_ = rm_param.update_rate;
@@ -332,6 +335,7 @@ public:
       // happened and only then trigger this part of the code?
       // On the other side this part of the code should never be executed in real-time critical
       // thread, so it could be also OK as it is...
+      const auto guard = lock_interfaces();
       for (const auto & interface : hardware_info_map_[hardware.get_name()].state_interfaces)
       {
         // add all state interfaces to available list
@@ -392,6 +396,7 @@ public:
 
   void remove_all_hardware_interfaces_from_available_list(const std::string & hardware_name)
   {
+    const auto guard = lock_interfaces();
     // remove all command interfaces from available list
     for (const auto & interface : hardware_info_map_[hardware_name].command_interfaces)
     {
@@ -871,6 +876,15 @@ public:
     }
   }
 
+  /// The interface lists and maps may be changed by another thread, e.g., by importing the
+  /// interfaces of a controller.
+  std::unique_lock<std::recursive_mutex> lock_interfaces() const
+  {
+    return resource_interfaces_lock_
+             ? std::unique_lock<std::recursive_mutex>(*resource_interfaces_lock_)
+             : std::unique_lock<std::recursive_mutex>();
+  }
+
   template <typename T>
   void update_joint_limiters_data(
     const std::string & joint_name, const std::map<std::string, T> & interface_map,
@@ -949,6 +963,7 @@ public:
    */
   bool enforce_command_limits(const std::string & joint_name, const rclcpp::Duration & period)
   {
+    const auto guard = lock_interfaces();
     bool enforce_result = false;
     for (auto & [hw_name, limiters] : joint_limiters_interface_)
     {
@@ -1122,7 +1137,10 @@ public:
             is_limited = false;
             joint_limits::JointInterfacesCommandLimiterData data;
             data.set_joint_name(joint_name);
-            update_joint_limiters_data(data.joint_name, state_interface_map_, data.actual);
+            {
+              const auto guard = lock_interfaces();
+              update_joint_limiters_data(data.joint_name, state_interface_map_, data.actual);
+            }
             if (interface_name == hardware_interface::HW_IF_POSITION)
             {
               data.command.position = value;
@@ -1406,6 +1424,9 @@ public:
   std::vector<System> systems_;
 
   std::unordered_map<std::string, HardwareComponentInfo> hardware_info_map_;
+
+  // lock of the interfaces of the resource manager
+  std::recursive_mutex * resource_interfaces_lock_ = nullptr;
   std::unordered_map<std::string, hardware_interface::return_type> hw_group_state_;
 
   /// Mapping between hardware and controllers that are using it (accessing data from it)
@@ -1490,7 +1511,8 @@ ResourceManager::ResourceManager(
 
 ResourceManager::ResourceManager(
   const hardware_interface::ResourceManagerParams & params, bool load)
-: resource_storage_(std::make_unique<ResourceStorage>(params)), params_(params)
+: resource_storage_(std::make_unique<ResourceStorage>(params, resource_interfaces_lock_)),
+  params_(params)
 {
   RCLCPP_WARN_EXPRESSION(
     params.logger, params.allow_controller_activation_with_inactive_hardware,
@@ -1525,6 +1547,8 @@ ResourceManager::ResourceManager(
 
 bool ResourceManager::shutdown_components()
 {
+  std::lock_guard<std::recursive_mutex> resource_guard(resources_lock_);
+  std::lock_guard<std::recursive_mutex> limiters_guard(joint_limiters_lock_);
   std::unique_lock<std::recursive_mutex> guard(resource_interfaces_lock_);
   bool shutdown_status = true;
   for (auto const & hw_info : resource_storage_->hardware_info_map_)
@@ -1732,9 +1756,9 @@ std::vector<std::string> ResourceManager::get_controller_exported_state_interfac
 void ResourceManager::make_controller_exported_state_interfaces_available(
   const std::string & controller_name)
 {
+  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   auto interface_names =
     resource_storage_->controllers_exported_state_interfaces_map_.at(controller_name);
-  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   ros2_control::add_items(resource_storage_->available_state_interfaces_, interface_names);
 }
 
@@ -1742,10 +1766,10 @@ void ResourceManager::make_controller_exported_state_interfaces_available(
 void ResourceManager::make_controller_exported_state_interfaces_unavailable(
   const std::string & controller_name)
 {
+  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   auto interface_names =
     resource_storage_->controllers_exported_state_interfaces_map_.at(controller_name);
 
-  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   for (const auto & interface : interface_names)
   {
     auto found_it = std::find(
@@ -1764,6 +1788,7 @@ void ResourceManager::make_controller_exported_state_interfaces_unavailable(
 void ResourceManager::remove_controller_exported_state_interfaces(
   const std::string & controller_name)
 {
+  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   if (
     resource_storage_->controllers_exported_state_interfaces_map_.find(controller_name) ==
     resource_storage_->controllers_exported_state_interfaces_map_.end())
@@ -1774,7 +1799,6 @@ void ResourceManager::remove_controller_exported_state_interfaces(
     resource_storage_->controllers_exported_state_interfaces_map_.at(controller_name);
   resource_storage_->controllers_exported_state_interfaces_map_.erase(controller_name);
 
-  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   resource_storage_->remove_state_interfaces(interface_names);
 }
 
@@ -1799,9 +1823,9 @@ std::vector<std::string> ResourceManager::get_controller_reference_interface_nam
 void ResourceManager::make_controller_reference_interfaces_available(
   const std::string & controller_name)
 {
+  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   auto interface_names =
     resource_storage_->controllers_reference_interfaces_map_.at(controller_name);
-  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   ros2_control::add_items(resource_storage_->available_command_interfaces_, interface_names);
 }
 
@@ -1809,10 +1833,10 @@ void ResourceManager::make_controller_reference_interfaces_available(
 void ResourceManager::make_controller_reference_interfaces_unavailable(
   const std::string & controller_name)
 {
+  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   auto interface_names =
     resource_storage_->controllers_reference_interfaces_map_.at(controller_name);
 
-  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   for (const auto & interface : interface_names)
   {
     auto found_it = std::find(
@@ -1830,6 +1854,7 @@ void ResourceManager::make_controller_reference_interfaces_unavailable(
 // CM API: Called in "callback/slow"-thread
 void ResourceManager::remove_controller_reference_interfaces(const std::string & controller_name)
 {
+  std::scoped_lock guard(resource_interfaces_lock_, claimed_command_interfaces_lock_);
   if (
     resource_storage_->controllers_reference_interfaces_map_.find(controller_name) ==
     resource_storage_->controllers_reference_interfaces_map_.end())
@@ -1840,7 +1865,6 @@ void ResourceManager::remove_controller_reference_interfaces(const std::string &
     resource_storage_->controllers_reference_interfaces_map_.at(controller_name);
   resource_storage_->controllers_reference_interfaces_map_.erase(controller_name);
 
-  std::scoped_lock guard(resource_interfaces_lock_, claimed_command_interfaces_lock_);
   resource_storage_->remove_command_interfaces(interface_names);
 }
 
-- 
2.43.0


From 0acf3f638cbdbc667a1697ce63baee36b4c9c35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:13 +0000
Subject: [PATCH 41/71] fix: update controllers of branched chains in the order
 of their interfaces

---
 controller_manager/src/controller_manager.cpp | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index a01024d..c133acf 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1842,6 +1842,28 @@ controller_interface::return_type ControllerManager::configure_controller(
       update_list_with_controller_chain(ctrl_name, ordered_controllers_names_.end(), false);
     }
   }
+  // with several branches a controller may still be placed ahead of one of its preceding controllers
+  std::vector<std::string> unsorted_names;
+  unsorted_names.swap(ordered_controllers_names_);
+  while (!unsorted_names.empty())
+  {
+    auto next_it = std::find_if(
+      unsorted_names.begin(), unsorted_names.end(),
+      [&](const std::string & name)
+      {
+        const auto & preceding = controller_chain_spec_[name].preceding_controllers;
+        return std::none_of(
+          preceding.begin(), preceding.end(), [&](const std::string & preceding_controller)
+          { return ros2_control::has_item(unsorted_names, preceding_controller); });
+      });
+    if (next_it == unsorted_names.end())
+    {
+      // there is no such order for controllers in a loop
+      next_it = unsorted_names.begin();
+    }
+    ordered_controllers_names_.push_back(*next_it);
+    unsorted_names.erase(next_it);
+  }
 
   std::vector<ControllerSpec> new_list;
   for (const auto & ctrl : ordered_controllers_names_)
-- 
2.43.0


From 50bedd7818a439783af29f9bd56c6dfb8b5fa437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:39 +0000
Subject: [PATCH 42/71] fix: publish the activity of failing controllers
 without waiting for a pending switch

---
 .../controller_manager/controller_manager.hpp |  5 +++
 controller_manager/src/controller_manager.cpp | 33 ++++++++++---------
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 3b587ab..02c1588 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -558,6 +558,11 @@ private:
    */
   void publish_activity();
 
+  /**
+   * @brief Method to publish the state of the given controllers and of the hardware components.
+   */
+  void publish_activity_of_controllers(const std::vector<ControllerSpec> & controllers);
+
   void controller_activity_diagnostic_callback(diagnostic_updater::DiagnosticStatusWrapper & stat);
 
   void hardware_components_diagnostic_callback(diagnostic_updater::DiagnosticStatusWrapper & stat);
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index c133acf..4bbacc5 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3796,8 +3796,9 @@ controller_interface::return_type ControllerManager::update(
         rt_controller_list, rt_buffer_.fallback_controllers_list,
         controller_manager_msgs::srv::SwitchController::Request::STRICT);
     }
-    // To publish the activity of the failing controllers and the fallback controllers
-    publish_activity();
+    // To publish the activity of the failing controllers and the fallback controllers. The lock of
+    // the controllers may be held by a switch that waits for this thread.
+    publish_activity_of_controllers(rt_controller_list);
   }
   resource_manager_->enforce_command_limits(period);
 
@@ -4494,23 +4495,25 @@ ControllerManager::check_fallback_controllers_state_pre_activation(
 }
 
 void ControllerManager::publish_activity()
+{
+  // lock controllers
+  std::lock_guard<RTControllerListWrapper::controllers_lock_type> guard(
+    rt_controllers_wrapper_.controllers_lock_);
+  publish_activity_of_controllers(rt_controllers_wrapper_.get_updated_list(guard));
+}
+
+void ControllerManager::publish_activity_of_controllers(
+  const std::vector<ControllerSpec> & controllers)
 {
   controller_manager_msgs::msg::ControllerManagerActivity status_msg;
   status_msg.header.stamp = get_clock()->now();
+  for (const auto & controller : controllers)
   {
-    // lock controllers
-    std::lock_guard<RTControllerListWrapper::controllers_lock_type> guard(
-      rt_controllers_wrapper_.controllers_lock_);
-    const std::vector<ControllerSpec> & controllers =
-      rt_controllers_wrapper_.get_updated_list(guard);
-    for (const auto & controller : controllers)
-    {
-      controller_manager_msgs::msg::NamedLifecycleState lifecycle_info;
-      lifecycle_info.name = controller.info.name;
-      lifecycle_info.state.id = controller.c->get_lifecycle_state().id();
-      lifecycle_info.state.label = controller.c->get_lifecycle_state().label();
-      status_msg.controllers.push_back(lifecycle_info);
-    }
+    controller_manager_msgs::msg::NamedLifecycleState lifecycle_info;
+    lifecycle_info.name = controller.info.name;
+    lifecycle_info.state.id = controller.c->get_lifecycle_state().id();
+    lifecycle_info.state.label = controller.c->get_lifecycle_state().label();
+    status_msg.controllers.push_back(lifecycle_info);
   }
   {
     const auto hw_components_info = resource_manager_->get_components_status();
-- 
2.43.0


From 527e43d564ffa8431553cd5d06bb0f311f561095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:35 +0000
Subject: [PATCH 43/71] fix: stop fallback controllers when the hardware they
 use fails

---
 .../controller_manager/controller_manager.hpp |  6 ++++
 controller_manager/src/controller_manager.cpp | 29 +++++++++++++------
 hardware_interface/src/resource_manager.cpp   |  2 ++
 3 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 02c1588..a580bcc 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -280,6 +280,12 @@ protected:
   void switch_chained_mode(
     const std::vector<std::string> & chained_mode_switch_list, bool to_chained_mode);
 
+  /**
+   * Caches the hardware whose interfaces the controller uses, in order to stop the controller when
+   * that hardware fails.
+   */
+  void cache_controller_to_hardware(const ControllerSpec & controller);
+
   /// Activate chosen controllers from real-time controller list.
   /**
    * Put the fallback controllers that are going to be activated in chained mode if their reference
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 4bbacc5..c250426 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2409,15 +2409,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
     // to a hardware when error in hardware happens
     if (in_activate_list)
     {
-      std::vector<std::string> interface_names =
-        get_command_interfaces_names(controller.c, resource_manager_);
-
-      std::vector<std::string> state_interfaces =
-        get_state_interfaces_names(controller.c, resource_manager_);
-      interface_names.insert(
-        interface_names.end(), state_interfaces.begin(), state_interfaces.end());
-
-      resource_manager_->cache_controller_to_hardware(controller.info.name, interface_names);
+      cache_controller_to_hardware(controller);
     }
   }
 
@@ -2750,6 +2742,18 @@ void ControllerManager::switch_chained_mode(
   }
 }
 
+void ControllerManager::cache_controller_to_hardware(const ControllerSpec & controller)
+{
+  std::vector<std::string> interface_names =
+    get_command_interfaces_names(controller.c, resource_manager_);
+
+  std::vector<std::string> state_interfaces =
+    get_state_interfaces_names(controller.c, resource_manager_);
+  interface_names.insert(interface_names.end(), state_interfaces.begin(), state_interfaces.end());
+
+  resource_manager_->cache_controller_to_hardware(controller.info.name, interface_names);
+}
+
 void ControllerManager::set_chained_mode_of_fallback_controllers(
   const std::vector<ControllerSpec> & rt_controller_list,
   const std::vector<std::string> & fallback_controllers_list)
@@ -3792,6 +3796,13 @@ controller_interface::return_type ControllerManager::update(
     {
       set_chained_mode_of_fallback_controllers(
         rt_controller_list, rt_buffer_.fallback_controllers_list);
+      for (const auto & controller : rt_controller_list)
+      {
+        if (ros2_control::has_item(rt_buffer_.fallback_controllers_list, controller.info.name))
+        {
+          cache_controller_to_hardware(controller);
+        }
+      }
       activate_controllers(
         rt_controller_list, rt_buffer_.fallback_controllers_list,
         controller_manager_msgs::srv::SwitchController::Request::STRICT);
diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 49da2a2..4784007 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -1872,6 +1872,7 @@ void ResourceManager::remove_controller_reference_interfaces(const std::string &
 void ResourceManager::cache_controller_to_hardware(
   const std::string & controller_name, const std::vector<std::string> & interfaces)
 {
+  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   for (const auto & interface : interfaces)
   {
     bool found = false;
@@ -1912,6 +1913,7 @@ void ResourceManager::cache_controller_to_hardware(
 std::vector<std::string> ResourceManager::get_cached_controllers_to_hardware(
   const std::string & hardware_name)
 {
+  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   return resource_storage_->hardware_used_by_controllers_[hardware_name];
 }
 
-- 
2.43.0


From 5272554c12be0c9acb38210fe8ed234859a5017a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:12 +0000
Subject: [PATCH 44/71] fix: list for every chain connection only the
 interfaces of that connection

---
 controller_manager/src/controller_manager.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index c250426..b4a015f 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3056,8 +3056,9 @@ void ControllerManager::list_controllers_srv_cb(
     rt_controllers_wrapper_.controllers_lock_);
   const std::vector<ControllerSpec> & controllers = rt_controllers_wrapper_.get_updated_list(guard);
   // create helper containers to create chained controller connections
-  std::unordered_map<std::string, std::vector<std::string>> controller_chain_interface_map;
-  std::unordered_map<std::string, std::set<std::string>> controller_chain_map;
+  // (the interfaces used of every chained controller, by the name of the controller that uses them)
+  std::unordered_map<std::string, std::map<std::string, std::vector<std::string>>>
+    controller_chain_map;
   std::vector<size_t> chained_controller_indices;
   for (size_t i = 0; i < controllers.size(); ++i)
   {
@@ -3094,8 +3095,7 @@ void ControllerManager::list_controllers_srv_cb(
         auto interface_type = prefix_interface_type_pair.second;
         if (controller_chain_map.find(prefix) != controller_chain_map.end())
         {
-          controller_chain_map[controller_state.name].insert(prefix);
-          controller_chain_interface_map[controller_state.name].push_back(interface_type);
+          controller_chain_map[controller_state.name][prefix].push_back(interface_type);
         }
       }
       // check reference interfaces only if controller is inactive or active
@@ -3125,8 +3125,7 @@ void ControllerManager::list_controllers_srv_cb(
     response->controller.push_back(controller_state);
     // keep track of controllers that are part of a chain
     if (
-      !controller_chain_interface_map[controller_state.name].empty() ||
-      controllers[i].c->is_chainable())
+      !controller_chain_map[controller_state.name].empty() || controllers[i].c->is_chainable())
     {
       chained_controller_indices.push_back(i);
     }
@@ -3136,12 +3135,11 @@ void ControllerManager::list_controllers_srv_cb(
   for (const auto & index : chained_controller_indices)
   {
     auto & controller_state = response->controller[index];
-    auto chained_set = controller_chain_map[controller_state.name];
-    for (const auto & chained_name : chained_set)
+    for (const auto & [chained_name, interfaces] : controller_chain_map[controller_state.name])
     {
       controller_manager_msgs::msg::ChainConnection connection;
       connection.name = chained_name;
-      connection.reference_interfaces = controller_chain_interface_map[controller_state.name];
+      connection.reference_interfaces = interfaces;
       controller_state.chain_connections.push_back(connection);
     }
   }
-- 
2.43.0


From acc82428aef06eb41ca8d88cb7816d09b381584d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:12 +0000
Subject: [PATCH 45/71] fix: list the interfaces claimed by controllers that
 were stopped or started by failures

---
 controller_manager/src/controller_manager.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index b4a015f..ea9199c 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3074,7 +3074,12 @@ void ControllerManager::list_controllers_srv_cb(
     controller_state.type = controllers[i].info.type;
     controller_state.is_async = controllers[i].c->is_async();
     controller_state.update_rate = static_cast<uint16_t>(controllers[i].c->get_update_rate());
-    controller_state.claimed_interfaces = controllers[i].info.claimed_interfaces;
+    if (is_controller_active(controllers[i].c))
+    {
+      // controllers are also stopped and started by failures, not only by switch requests
+      controller_state.claimed_interfaces =
+        get_command_interfaces_names(controllers[i].c, resource_manager_);
+    }
     controller_state.state = controllers[i].c->get_lifecycle_state().label();
     controller_state.is_chainable = controllers[i].c->is_chainable();
     controller_state.is_chained = controllers[i].c->is_in_chained_mode();
-- 
2.43.0


From 259e2336411e13dd3e34508c75377729980a8491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:30 +0000
Subject: [PATCH 46/71] fix: keep the settings of the hardware when a
 description had to be refused

---
 controller_manager/src/controller_manager.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index ea9199c..97c9825 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -834,8 +834,9 @@ void ControllerManager::robot_description_callback(const std_msgs::msg::String &
     // The RM failed to init AFTER we received the description - a critical error.
     // don't finalize controller manager, instead keep waiting for robot description - fallback
     // state
-    resource_manager_ =
-      std::make_unique<hardware_interface::ResourceManager>(trigger_clock_, get_logger());
+    // (an empty description only creates the resource manager, with the settings of this node)
+    resource_manager_.reset();
+    init_resource_manager("");
     return;
   }
   set_initial_hardware_components_state();
-- 
2.43.0


From 1b58f9c8fe446891e49b66ceba3fe0a71c4e6b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:08 +0000
Subject: [PATCH 47/71] fix: match joints of the mock system by their whole
 name in mode switches

The joint of an interface was the first one whose name occurs anywhere in the
name of the interface, so 'joint10/velocity' was taken for 'joint1': the switch
was refused, or accepted without changing the mode of joint10.
---
 .../src/mock_components/generic_system.cpp           | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hardware_interface/src/mock_components/generic_system.cpp b/hardware_interface/src/mock_components/generic_system.cpp
index 034c9bd..55300df 100644
--- a/hardware_interface/src/mock_components/generic_system.cpp
+++ b/hardware_interface/src/mock_components/generic_system.cpp
@@ -203,7 +203,11 @@ return_type GenericSystem::prepare_command_mode_switch(
     // check if interface is joint
     auto joint_it_found = std::find_if(
       info.joints.begin(), info.joints.end(),
-      [key](const auto & joint) { return (key.find(joint.name) != std::string::npos); });
+      [&key](const auto & joint)
+      {
+        return key.size() > joint.name.size() && key[joint.name.size()] == '/' &&
+               key.compare(0, joint.name.size(), joint.name) == 0;
+      });
 
     if (joint_it_found != info.joints.end())
     {
@@ -276,7 +280,11 @@ return_type GenericSystem::perform_command_mode_switch(
     const auto & info = get_hardware_info();
     auto joint_it_found = std::find_if(
       info.joints.begin(), info.joints.end(),
-      [key](const auto & joint) { return (key.find(joint.name) != std::string::npos); });
+      [&key](const auto & joint)
+      {
+        return key.size() > joint.name.size() && key[joint.name.size()] == '/' &&
+               key.compare(0, joint.name.size(), joint.name) == 0;
+      });
 
     if (joint_it_found != info.joints.end())
     {
-- 
2.43.0


From 96155a97caee7fc7ce688703aca9a5490ea14dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:42 +0000
Subject: [PATCH 48/71] fix: do not require a position command for the custom
 offset interface

A joint of the mock system with the custom interface but without a position
command interface made every read throw, and the component was deactivated.
---
 .../src/mock_components/generic_system.cpp            | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hardware_interface/src/mock_components/generic_system.cpp b/hardware_interface/src/mock_components/generic_system.cpp
index 55300df..7988efd 100644
--- a/hardware_interface/src/mock_components/generic_system.cpp
+++ b/hardware_interface/src/mock_components/generic_system.cpp
@@ -524,12 +524,13 @@ return_type GenericSystem::read(const rclcpp::Time & /*time*/, const rclcpp::Dur
         return return_type::ERROR;
       }
     }
-    if (custom_interface_with_following_offset_ == joint_state.get()->get_interface_name())
+    const std::string position_name =
+      joint_state.get()->get_prefix_name() + "/" + hardware_interface::HW_IF_POSITION;
+    if (
+      custom_interface_with_following_offset_ == joint_state.get()->get_interface_name() &&
+      has_command(position_name))
     {
-      const auto cmd =
-        get_command(
-          joint_state.get()->get_prefix_name() + "/" + hardware_interface::HW_IF_POSITION) +
-        position_state_following_offset_;
+      const auto cmd = get_command(position_name) + position_state_following_offset_;
       if (std::isfinite(cmd))
       {
         set_state(full_interface_name, cmd);
-- 
2.43.0


From 727e67eaba076e9500881a804860da240606a711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:12 +0000
Subject: [PATCH 49/71] fix: mimic only the states that the mimicked joint of
 the mock system has

A mimic joint with e.g. a velocity state whose mimicked joint has none made
every read throw, and the component was deactivated.
---
 .../src/mock_components/generic_system.cpp           | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hardware_interface/src/mock_components/generic_system.cpp b/hardware_interface/src/mock_components/generic_system.cpp
index 7988efd..16f6550 100644
--- a/hardware_interface/src/mock_components/generic_system.cpp
+++ b/hardware_interface/src/mock_components/generic_system.cpp
@@ -544,7 +544,9 @@ return_type GenericSystem::read(const rclcpp::Time & /*time*/, const rclcpp::Dur
   {
     const auto & mimic_joint_name = joints.at(mimic_joint.joint_index).name;
     const auto & mimicked_joint_name = joints.at(mimic_joint.mimicked_joint_index).name;
-    if (has_state(mimic_joint_name + "/" + hardware_interface::HW_IF_POSITION))
+    if (
+      has_state(mimic_joint_name + "/" + hardware_interface::HW_IF_POSITION) &&
+      has_state(mimicked_joint_name + "/" + hardware_interface::HW_IF_POSITION))
     {
       set_state(
         mimic_joint_name + "/" + hardware_interface::HW_IF_POSITION,
@@ -552,14 +554,18 @@ return_type GenericSystem::read(const rclcpp::Time & /*time*/, const rclcpp::Dur
           mimic_joint.multiplier *
             get_state(mimicked_joint_name + "/" + hardware_interface::HW_IF_POSITION));
     }
-    if (has_state(mimic_joint_name + "/" + hardware_interface::HW_IF_VELOCITY))
+    if (
+      has_state(mimic_joint_name + "/" + hardware_interface::HW_IF_VELOCITY) &&
+      has_state(mimicked_joint_name + "/" + hardware_interface::HW_IF_VELOCITY))
     {
       set_state(
         mimic_joint_name + "/" + hardware_interface::HW_IF_VELOCITY,
         mimic_joint.multiplier *
           get_state(mimicked_joint_name + "/" + hardware_interface::HW_IF_VELOCITY));
     }
-    if (has_state(mimic_joint_name + "/" + hardware_interface::HW_IF_ACCELERATION))
+    if (
+      has_state(mimic_joint_name + "/" + hardware_interface::HW_IF_ACCELERATION) &&
+      has_state(mimicked_joint_name + "/" + hardware_interface::HW_IF_ACCELERATION))
     {
       set_state(
         mimic_joint_name + "/" + hardware_interface::HW_IF_ACCELERATION,
-- 
2.43.0


From 0f4e16c497f6b616c7a2fd4ecc4d9de8b8290cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:06 +0000
Subject: [PATCH 50/71] fix: do not add the following offset in every cycle to
 an integrated position

Without a finite velocity the whole offset was added to the position of a joint
of the mock system in velocity mode in each read, so that it drifted away.
---
 .../src/mock_components/generic_system.cpp         | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/hardware_interface/src/mock_components/generic_system.cpp b/hardware_interface/src/mock_components/generic_system.cpp
index 16f6550..2455416 100644
--- a/hardware_interface/src/mock_components/generic_system.cpp
+++ b/hardware_interface/src/mock_components/generic_system.cpp
@@ -421,12 +421,11 @@ return_type GenericSystem::read(const rclcpp::Time & /*time*/, const rclcpp::Dur
             std::isnan(joint_state_values_[ACCELERATION_INTERFACE_INDEX])
               ? 0.0
               : joint_state_values_[ACCELERATION_INTERFACE_INDEX] * period.seconds();
-          joint_state_values_[POSITION_INTERFACE_INDEX] +=  // apply offset to positions only
+          // the offset is part of the integrated position already
+          joint_state_values_[POSITION_INTERFACE_INDEX] +=
             std::isfinite(joint_state_values_[VELOCITY_INTERFACE_INDEX])
               ? joint_state_values_[VELOCITY_INTERFACE_INDEX] * period.seconds()
-              : 0.0 + (custom_interface_with_following_offset_.empty()
-                         ? position_state_following_offset_
-                         : 0.0);
+              : 0.0;
           break;
         }
         case VELOCITY_INTERFACE_INDEX:
@@ -443,12 +442,11 @@ return_type GenericSystem::read(const rclcpp::Time & /*time*/, const rclcpp::Dur
               (joint_state_values_[VELOCITY_INTERFACE_INDEX] - old_velocity) / period.seconds();
           }
           // currently we do backward Euler integration
-          joint_state_values_[POSITION_INTERFACE_INDEX] +=  // apply offset to positions only
+          // the offset is part of the integrated position already
+          joint_state_values_[POSITION_INTERFACE_INDEX] +=
             std::isfinite(joint_state_values_[VELOCITY_INTERFACE_INDEX])
               ? joint_state_values_[VELOCITY_INTERFACE_INDEX] * period.seconds()
-              : 0.0 + (custom_interface_with_following_offset_.empty()
-                         ? position_state_following_offset_
-                         : 0.0);
+              : 0.0;
           break;
         }
         case POSITION_INTERFACE_INDEX:
-- 
2.43.0


From d7b2340f70bf8b016c75a38d8dff1da891dbc40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:54 +0000
Subject: [PATCH 51/71] fix: take each interface only once when ordering
 interfaces

State interfaces may be loaned more than once. One offered twice was added
twice, which hid a missing one (success was reported) or turned a complete set
into a failure, and shifted the references after it.
---
 controller_interface/include/controller_interface/helpers.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/controller_interface/include/controller_interface/helpers.hpp b/controller_interface/include/controller_interface/helpers.hpp
index 74a5b31..283c759 100644
--- a/controller_interface/include/controller_interface/helpers.hpp
+++ b/controller_interface/include/controller_interface/helpers.hpp
@@ -74,6 +74,7 @@ bool get_ordered_interfaces(
           ((name + "/" + interface_type) == interface.get_name()))
         {
           ordered_interfaces.push_back(std::ref(interface));
+          break;
         }
       }
       else
@@ -81,6 +82,7 @@ bool get_ordered_interfaces(
         if (name == interface.get_name())
         {
           ordered_interfaces.push_back(std::ref(interface));
+          break;
         }
       }
     }
-- 
2.43.0


From c59e86f76688b5a4b1b59c845891acc0beb51f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:27 +0000
Subject: [PATCH 52/71] fix: drop earlier bindings when interfaces are assigned
 to a semantic component

After an incomplete assignment the next one added to what had been found before:
it was reported as failed although complete, and the fields referred to
interfaces that had been released meanwhile.
---
 .../semantic_component_command_interface.hpp                    | 2 ++
 .../semantic_components/semantic_component_interface.hpp        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/controller_interface/include/semantic_components/semantic_component_command_interface.hpp b/controller_interface/include/semantic_components/semantic_component_command_interface.hpp
index e210609..0e535ea 100644
--- a/controller_interface/include/semantic_components/semantic_component_command_interface.hpp
+++ b/controller_interface/include/semantic_components/semantic_component_command_interface.hpp
@@ -47,6 +47,8 @@ public:
   bool assign_loaned_command_interfaces(
     std::vector<hardware_interface::LoanedCommandInterface> & command_interfaces)
   {
+    // an earlier assignment, e.g. an incomplete one, must not remain
+    command_interfaces_.clear();
     return controller_interface::get_ordered_interfaces(
       command_interfaces, interface_names_, "", command_interfaces_);
   }
diff --git a/controller_interface/include/semantic_components/semantic_component_interface.hpp b/controller_interface/include/semantic_components/semantic_component_interface.hpp
index c502a41..e44b1c6 100644
--- a/controller_interface/include/semantic_components/semantic_component_interface.hpp
+++ b/controller_interface/include/semantic_components/semantic_component_interface.hpp
@@ -52,6 +52,8 @@ public:
   bool assign_loaned_state_interfaces(
     std::vector<hardware_interface::LoanedStateInterface> & state_interfaces)
   {
+    // an earlier assignment, e.g. an incomplete one, must not remain
+    state_interfaces_.clear();
     return controller_interface::get_ordered_interfaces(
       state_interfaces, interface_names_, "", state_interfaces_);
   }
-- 
2.43.0


From ecf563cbfd39553c2ab15836f1876160e08c973c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:57 +0000
Subject: [PATCH 53/71] fix: refuse colours that are not a number in the LED
 device

NaN passed the check of the range [0, 1] and was written to the hardware.
---
 .../include/semantic_components/led_rgb_device.hpp          | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/controller_interface/include/semantic_components/led_rgb_device.hpp b/controller_interface/include/semantic_components/led_rgb_device.hpp
index 60c72dc..5a229d0 100644
--- a/controller_interface/include/semantic_components/led_rgb_device.hpp
+++ b/controller_interface/include/semantic_components/led_rgb_device.hpp
@@ -59,9 +59,9 @@ public:
    */
   bool set_values_from_message(const std_msgs::msg::ColorRGBA & message) override
   {
-    if (
-      message.r < 0 || message.r > 1 || message.g < 0 || message.g > 1 || message.b < 0 ||
-      message.b > 1)
+    // NaN is not in the range either
+    const auto in_range = [](const float value) { return value >= 0 && value <= 1; };
+    if (!in_range(message.r) || !in_range(message.g) || !in_range(message.b))
     {
       return false;
     }
-- 
2.43.0


From 29e14518e08ea6301b551f90d378e022febf4070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:33 +0000
Subject: [PATCH 54/71] fix: report a value that cannot be read by a semantic
 component

get_values threw std::bad_optional_access when a state interface was in use by
another thread, although it is documented to return false then.
---
 .../semantic_components/semantic_component_interface.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/controller_interface/include/semantic_components/semantic_component_interface.hpp b/controller_interface/include/semantic_components/semantic_component_interface.hpp
index e44b1c6..2107143 100644
--- a/controller_interface/include/semantic_components/semantic_component_interface.hpp
+++ b/controller_interface/include/semantic_components/semantic_component_interface.hpp
@@ -98,9 +98,16 @@ public:
       return false;
     }
     // insert all the values
+    const auto old_size = values.size();
     for (auto i = 0u; i < state_interfaces_.size(); ++i)
     {
-      values.emplace_back(state_interfaces_[i].get().get_optional().value());
+      const auto value = state_interfaces_[i].get().get_optional();
+      if (!value.has_value())
+      {
+        values.resize(old_size);
+        return false;
+      }
+      values.emplace_back(value.value());
     }
     return true;
   }
-- 
2.43.0


From a5a312e15b705cddddc578478944e4e41da9c5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:08 +0000
Subject: [PATCH 55/71] fix: start the orientation of the pose sensor with the
 identity

The initial data was copied from the IMU, whose quaternion comes first: until
the first value could be read the pose was turned by 180 degrees about x.
---
 .../include/semantic_components/pose_sensor.hpp                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_interface/include/semantic_components/pose_sensor.hpp b/controller_interface/include/semantic_components/pose_sensor.hpp
index 24adacd..c1faf9d 100644
--- a/controller_interface/include/semantic_components/pose_sensor.hpp
+++ b/controller_interface/include/semantic_components/pose_sensor.hpp
@@ -117,7 +117,7 @@ private:
   /**
    * @brief Array to store the data of the pose sensor
    */
-  mutable std::array<double, 7> data_{{0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0}};
+  mutable std::array<double, 7> data_{{0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0}};
 };
 
 }  // namespace semantic_components
-- 
2.43.0


From 7642f3faa1f32d0484d53af1ee14b2a4e2381dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:13 +0000
Subject: [PATCH 56/71] fix: wait for a running asynchronous update whenever a
 controller is deactivated

The controller manager deactivates controllers also when they fail, when the
hardware they use fails and on shutdown. In these cases nothing waited for an
asynchronous update in progress, so it went on while the controller was
deactivated and its interfaces were released.
---
 controller_interface/src/controller_interface_base.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controller_interface/src/controller_interface_base.cpp b/controller_interface/src/controller_interface_base.cpp
index 225c381..03495a2 100644
--- a/controller_interface/src/controller_interface_base.cpp
+++ b/controller_interface/src/controller_interface_base.cpp
@@ -142,6 +142,9 @@ return_type ControllerInterfaceBase::init(
   impl_->node_->register_on_deactivate(
     [this](const rclcpp_lifecycle::State & previous_state) -> CallbackReturn
     {
+      // an asynchronous update must not run while or after the controller is deactivated, whoever
+      // requested it
+      this->prepare_for_deactivation();
       enable_introspection(false);
       impl_->lifecycle_id_.store(this->get_lifecycle_state().id(), std::memory_order_release);
       return on_deactivate(previous_state);
-- 
2.43.0


From 5b71055fb2df571c3b1dfd447f69d8fe065799e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:27 +0000
Subject: [PATCH 57/71] fix: resume asynchronous controllers when a switch is
 abandoned

The controllers to deactivate are told not to start further updates before the
hardware is asked about the switch. When the hardware refused it, or when it
timed out, they stayed active but were never updated again.
---
 .../controller_interface_base.hpp             |  7 +++++++
 .../src/controller_interface_base.cpp         |  5 +++++
 controller_manager/src/controller_manager.cpp | 19 +++++++++++++++++++
 3 files changed, 31 insertions(+)

diff --git a/controller_interface/include/controller_interface/controller_interface_base.hpp b/controller_interface/include/controller_interface/controller_interface_base.hpp
index 7b3dc04..fe7a2fc 100644
--- a/controller_interface/include/controller_interface/controller_interface_base.hpp
+++ b/controller_interface/include/controller_interface/controller_interface_base.hpp
@@ -376,6 +376,13 @@ public:
    */
   void prepare_for_deactivation();
 
+  /**
+   * @brief Method to resume a controller that was prepared for deactivation but is not going to be
+   * deactivated, e.g., because the hardware refused the switch. This method is called by the
+   * controller manager. Its update is triggered again afterwards.
+   */
+  void cancel_deactivation();
+
   std::string get_name() const;
 
   /**
diff --git a/controller_interface/src/controller_interface_base.cpp b/controller_interface/src/controller_interface_base.cpp
index 03495a2..c9f10d7 100644
--- a/controller_interface/src/controller_interface_base.cpp
+++ b/controller_interface/src/controller_interface_base.cpp
@@ -437,6 +437,11 @@ void ControllerInterfaceBase::prepare_for_deactivation()
   this->wait_for_trigger_update_to_finish();
 }
 
+void ControllerInterfaceBase::cancel_deactivation()
+{
+  impl_->skip_async_triggers_.store(false, std::memory_order_release);
+}
+
 void ControllerInterfaceBase::stop_async_handler_thread()
 {
   if (is_async() && impl_->async_handler_ && impl_->async_handler_->is_running())
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 97c9825..1256c8a 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2454,6 +2454,21 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
     }
   }
 
+  // the async controllers go on if the switch is abandoned
+  const auto resume_controllers = [this, &controllers]()
+  {
+    for (const auto & controller : switch_params_.deactivate_request)
+    {
+      auto controller_it = std::find_if(
+        controllers.begin(), controllers.end(),
+        std::bind(controller_name_compare, std::placeholders::_1, controller));
+      if (controller_it != controllers.end())
+      {
+        controller_it->c->cancel_deactivation();
+      }
+    }
+  };
+
   if (
     !switch_params_.activate_command_interface_request.empty() ||
     !switch_params_.deactivate_command_interface_request.empty())
@@ -2464,6 +2479,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
     {
       message = "Could not switch controllers since prepare command mode switch was rejected.";
       RCLCPP_ERROR(get_logger(), "%s", message.c_str());
+      resume_controllers();
       clear_requests();
       return controller_interface::return_type::ERROR;
     }
@@ -2496,6 +2512,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         FMT_COMPILE("Switch controller timed out after {} seconds!"),
         static_cast<double>(switch_params_.timeout.count()) / 1e9);
       RCLCPP_ERROR(get_logger(), "%s", message.c_str());
+      resume_controllers();
       clear_requests();
       return controller_interface::return_type::ERROR;
     }
@@ -2511,6 +2528,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
           FMT_COMPILE("Switch controller timed out after {} seconds!"),
           static_cast<double>(switch_params_.timeout.count()) / 1e9);
         RCLCPP_ERROR(get_logger(), "%s", message.c_str());
+        resume_controllers();
         clear_requests();
         return controller_interface::return_type::ERROR;
       }
@@ -2526,6 +2544,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
   {
     message = "Could not switch controllers since perform command mode switch was rejected.";
     RCLCPP_ERROR(get_logger(), "%s", message.c_str());
+    resume_controllers();
     clear_requests();
     return controller_interface::return_type::ERROR;
   }
-- 
2.43.0


From c1e88d7db0d8ddfa37f9869f50634fab16da342a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:27 +0000
Subject: [PATCH 58/71] fix: forget the results of asynchronous cycles when
 hardware is configured

The cycle that was in progress when an error was handled may have stored another
error. It was reported in the first cycle after the component had been configured
again, which sent a healthy component back into the error handling.
---
 hardware_interface/src/hardware_component.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hardware_interface/src/hardware_component.cpp b/hardware_interface/src/hardware_component.cpp
index 0a1147a..195160a 100644
--- a/hardware_interface/src/hardware_component.cpp
+++ b/hardware_interface/src/hardware_component.cpp
@@ -85,6 +85,8 @@ const rclcpp_lifecycle::State & HardwareComponent::configure()
   if (impl_->get_lifecycle_id() == lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED)
   {
     impl_->pause_async_operations();
+    // results of asynchronous cycles before an error are not those of the new configuration
+    impl_->prepare_for_activation();
     switch (impl_->on_configure(impl_->get_lifecycle_state()))
     {
       case CallbackReturn::SUCCESS:
-- 
2.43.0


From 30608397727937743c086401714f7274553e2795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:27 +0000
Subject: [PATCH 59/71] fix: do not lose errors of asynchronous writes

The result of the last asynchronous write is reported by the next trigger_write. A
cycle that was finished between trigger_read and trigger_write replaced an error of
the cycle before, which then was never reported.
---
 hardware_interface/src/hardware_component_interface.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hardware_interface/src/hardware_component_interface.cpp b/hardware_interface/src/hardware_component_interface.cpp
index 26a845d..31c7e1f 100644
--- a/hardware_interface/src/hardware_component_interface.cpp
+++ b/hardware_interface/src/hardware_component_interface.cpp
@@ -108,7 +108,10 @@ CallbackReturn HardwareComponentInterface::init(
           const auto write_start_time = std::chrono::steady_clock::now();
           const auto ret_write = write(time, period);
           const auto write_end_time = std::chrono::steady_clock::now();
-          impl_->write_return_info_.store(ret_write, std::memory_order_release);
+          // a result that was not reported yet must not be lost if this cycle ends before the next
+          // call of trigger_write
+          return_type not_reported = return_type::OK;
+          impl_->write_return_info_.compare_exchange_strong(not_reported, ret_write);
           impl_->write_execution_time_.store(
             std::chrono::duration_cast<std::chrono::nanoseconds>(write_end_time - write_start_time),
             std::memory_order_release);
@@ -462,7 +465,7 @@ HardwareComponentCycleStatus HardwareComponentInterface::trigger_write(
     {
       status.execution_time = write_exec_time;
     }
-    status.result = impl_->write_return_info_.load(std::memory_order_acquire);
+    status.result = impl_->write_return_info_.exchange(return_type::OK);
   }
   else
   {
-- 
2.43.0


From f82f6a29a720164371ce7f567d1975681e89aa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:18 +0000
Subject: [PATCH 60/71] fix: accept empty files and nodes in the parameter
 files of the spawner

---
 .../controller_manager/controller_manager_services.py  | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/controller_manager/controller_manager/controller_manager_services.py b/controller_manager/controller_manager/controller_manager_services.py
index 4e64ffa..b4b002b 100644
--- a/controller_manager/controller_manager/controller_manager_services.py
+++ b/controller_manager/controller_manager/controller_manager_services.py
@@ -339,6 +339,12 @@ def cleanup_controller(
     )
 
 
+def load_parameters(parameter_file):
+    """Load the content of a parameter file, where empty files and nodes have no parameters."""
+    parameters = yaml.safe_load(parameter_file) or {}
+    return {key: value if value is not None else {} for key, value in parameters.items()}
+
+
 def get_params_files_with_controller_parameters(
     node, controller_name: str, namespace: str, parameter_files: list
 ):
@@ -352,7 +358,7 @@ def get_params_files_with_controller_parameters(
             )
             WILDCARD_KEY = "/**"
             ROS_PARAMS_KEY = "ros__parameters"
-            parameters = yaml.safe_load(f)
+            parameters = load_parameters(f)
             # check for the parameter in 'controller_name' or 'namespaced_controller' or '/**/namespaced_controller' or '/**/controller_name'
             for key in [
                 controller_name,
@@ -386,7 +392,7 @@ def get_parameter_from_param_files(
             )
             WILDCARD_KEY = "/**"
             ROS_PARAMS_KEY = "ros__parameters"
-            parameters = yaml.safe_load(f)
+            parameters = load_parameters(f)
             controller_param_dict = None
             # check for the parameter in 'controller_name' or 'namespaced_controller' or '/**/namespaced_controller' or '/**/controller_name'
             for key in [
-- 
2.43.0


From 2890cfcda9d37091ab36b669907e6f1ca81d09d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:18 +0000
Subject: [PATCH 61/71] fix: prefer a controller's own parameters over the ones
 for all nodes in the spawner

---
 .../controller_manager/controller_manager_services.py    | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/controller_manager/controller_manager/controller_manager_services.py b/controller_manager/controller_manager/controller_manager_services.py
index b4b002b..fde8353 100644
--- a/controller_manager/controller_manager/controller_manager_services.py
+++ b/controller_manager/controller_manager/controller_manager_services.py
@@ -411,8 +411,6 @@ def get_parameter_from_param_files(
 
                 elif WILDCARD_KEY in parameters and key in parameters[WILDCARD_KEY]:
                     controller_param_dict = parameters[WILDCARD_KEY][key]
-                elif WILDCARD_KEY in parameters and ROS_PARAMS_KEY in parameters[WILDCARD_KEY]:
-                    controller_param_dict = parameters[WILDCARD_KEY]
 
                 if controller_param_dict and (
                     not isinstance(controller_param_dict, dict)
@@ -427,6 +425,13 @@ def get_parameter_from_param_files(
                     and parameter_name in controller_param_dict[ROS_PARAMS_KEY]
                 ):
                     break
+            else:
+                # parameters of the controller itself take precedence over the ones for all nodes
+                if ROS_PARAMS_KEY in parameters.get(WILDCARD_KEY, {}) and not (
+                    controller_param_dict
+                    and parameter_name in controller_param_dict[ROS_PARAMS_KEY]
+                ):
+                    controller_param_dict = parameters[WILDCARD_KEY]
 
             if controller_param_dict and parameter_name in controller_param_dict[ROS_PARAMS_KEY]:
                 return controller_param_dict[ROS_PARAMS_KEY][parameter_name]
-- 
2.43.0


From 7991f82c86f2c5d26613f6c607f43775a46fe0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:18 +0000
Subject: [PATCH 62/71] fix: let later parameter files of the spawner override
 the type given by earlier ones

---
 .../controller_manager/controller_manager_services.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/controller_manager/controller_manager/controller_manager_services.py b/controller_manager/controller_manager/controller_manager_services.py
index fde8353..faac005 100644
--- a/controller_manager/controller_manager/controller_manager_services.py
+++ b/controller_manager/controller_manager/controller_manager_services.py
@@ -385,7 +385,8 @@ def get_params_files_with_controller_parameters(
 def get_parameter_from_param_files(
     node, controller_name: str, namespace: str, parameter_files: list, parameter_name: str
 ):
-    for parameter_file in parameter_files:
+    # later files override the parameters of earlier ones
+    for parameter_file in reversed(parameter_files):
         with open(parameter_file) as f:
             namespaced_controller = (
                 f"/{controller_name}" if namespace == "/" else f"{namespace}/{controller_name}"
-- 
2.43.0


From ec7147f1a644c58f73cbb4c9f77d1635fea9b248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:18 +0000
Subject: [PATCH 63/71] fix: report that the parameter files of a controller
 could not be set

---
 .../controller_manager/controller_manager_services.py        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/controller_manager/controller_manager/controller_manager_services.py b/controller_manager/controller_manager/controller_manager_services.py
index faac005..46ea3ed 100644
--- a/controller_manager/controller_manager/controller_manager_services.py
+++ b/controller_manager/controller_manager/controller_manager_services.py
@@ -498,13 +498,14 @@ def set_controller_parameters_from_param_files(
         node, controller_name, spawner_namespace, parameter_files
     )
     if controller_parameter_files:
-        set_controller_parameters(
+        if not set_controller_parameters(
             node,
             controller_manager_name,
             controller_name,
             "params_file",
             controller_parameter_files,
-        )
+        ):
+            return False
 
         controller_type = get_parameter_from_param_files(
             node, controller_name, spawner_namespace, controller_parameter_files, "type"
-- 
2.43.0


From fc46d94ff7372e7322b16b2485863efd97f5b1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:19 +0000
Subject: [PATCH 64/71] fix: do not change the list of controllers given to the
 launch helpers

---
 controller_manager/controller_manager/launch_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/controller_manager/launch_utils.py b/controller_manager/controller_manager/launch_utils.py
index 5811640..5cf49f5 100644
--- a/controller_manager/controller_manager/launch_utils.py
+++ b/controller_manager/controller_manager/launch_utils.py
@@ -54,7 +54,7 @@ def generate_controllers_spawner_launch_description(
         description="Wait until the node is interrupted and then unload controller",
     )
 
-    spawner_arguments = controller_names
+    spawner_arguments = list(controller_names)
     spawner_arguments.extend(
         [
             "--controller-manager",
-- 
2.43.0


From 5511c854a10da843652d58ef5d2e81b31fe137ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:59 +0000
Subject: [PATCH 65/71] fix: do not let an empty section of a parameter file
 hide the type of a controller

---
 .../controller_manager_services.py            | 41 +++++++++----------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/controller_manager/controller_manager/controller_manager_services.py b/controller_manager/controller_manager/controller_manager_services.py
index 46ea3ed..539b252 100644
--- a/controller_manager/controller_manager/controller_manager_services.py
+++ b/controller_manager/controller_manager/controller_manager_services.py
@@ -402,30 +402,27 @@ def get_parameter_from_param_files(
                 f"{WILDCARD_KEY}/{controller_name}",
                 f"{WILDCARD_KEY}{namespaced_controller}",
             ]:
-                if key in parameters:
-                    if key == controller_name and namespace != "/":
-                        node.get_logger().fatal(
-                            f"{bcolors.FAIL}Missing namespace : {namespace} or wildcard in parameter file for controller : {controller_name}{bcolors.ENDC}"
-                        )
-                        break
-                    controller_param_dict = parameters[key]
-
-                elif WILDCARD_KEY in parameters and key in parameters[WILDCARD_KEY]:
-                    controller_param_dict = parameters[WILDCARD_KEY][key]
-
-                if controller_param_dict and (
-                    not isinstance(controller_param_dict, dict)
-                    or ROS_PARAMS_KEY not in controller_param_dict
-                ):
-                    raise RuntimeError(
-                        f"YAML file : {parameter_file} is not a valid ROS parameter file for controller node : {namespaced_controller}"
+                if key in parameters and key == controller_name and namespace != "/":
+                    node.get_logger().fatal(
+                        f"{bcolors.FAIL}Missing namespace : {namespace} or wildcard in parameter file for controller : {controller_name}{bcolors.ENDC}"
                     )
-                if (
-                    controller_param_dict
-                    and ROS_PARAMS_KEY in controller_param_dict
-                    and parameter_name in controller_param_dict[ROS_PARAMS_KEY]
-                ):
                     break
+                # a section that does not give the parameter must not hide another one that does
+                for section in [
+                    parameters.get(key),
+                    parameters.get(WILDCARD_KEY, {}).get(key),
+                ]:
+                    if not section:
+                        continue
+                    if not isinstance(section, dict) or ROS_PARAMS_KEY not in section:
+                        raise RuntimeError(
+                            f"YAML file : {parameter_file} is not a valid ROS parameter file for controller node : {namespaced_controller}"
+                        )
+                    if (
+                        controller_param_dict is None
+                        or parameter_name not in controller_param_dict[ROS_PARAMS_KEY]
+                    ):
+                        controller_param_dict = section
             else:
                 # parameters of the controller itself take precedence over the ones for all nodes
                 if ROS_PARAMS_KEY in parameters.get(WILDCARD_KEY, {}) and not (
-- 
2.43.0


From 59fe2ca37ca87b6c41472af2c77930952f9365f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:36 +0000
Subject: [PATCH 66/71] fix: unload the controllers that were started when the
 spawner is killed early or loads others only

---
 .../controller_manager/spawner.py             | 30 ++++++++++++++++---
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/controller_manager/controller_manager/spawner.py b/controller_manager/controller_manager/spawner.py
index 28c11c6..ca078e9 100644
--- a/controller_manager/controller_manager/spawner.py
+++ b/controller_manager/controller_manager/spawner.py
@@ -359,6 +359,8 @@ def main(args=None):
     unload_on_kill = global_args.unload_on_kill
     node = None
     lock = None
+    # controllers that were asked to be activated, only these are unloaded on kill
+    started_controllers = []
 
     def _on_shutdown_signal(signum, frame):
         raise KeyboardInterrupt()
@@ -520,6 +522,7 @@ def main(args=None):
                     if activate_as_group:
                         controllers_to_activate.append(controller_name)
                     else:
+                        started_controllers.append(controller_name)
                         ret = switch_controllers(
                             node,
                             controller_manager_name,
@@ -545,6 +548,7 @@ def main(args=None):
                         )
 
         if activate_as_group and controllers_to_activate:
+            started_controllers.extend(controllers_to_activate)
             ret = switch_controllers(
                 node,
                 controller_manager_name,
@@ -591,8 +595,25 @@ def main(args=None):
         if unload_on_kill:
             logger.info("KeyboardInterrupt successfully captured!")
 
-            # Determine which controllers to deactivate
-            controllers_to_deactivate = [c["name"] for c in controllers if not c["inactive"]]
+            # Determine which controllers to deactivate, they might not all be active when killed early
+            controllers_to_unload = []
+            controllers_to_deactivate = []
+            if started_controllers:
+                controller_states = {
+                    c.name: c.state
+                    for c in list_controllers(
+                        node,
+                        controller_manager_name,
+                        controller_manager_timeout,
+                        service_call_timeout,
+                    ).controller
+                }
+                controllers_to_unload = [
+                    c for c in dict.fromkeys(started_controllers) if c in controller_states
+                ]
+                controllers_to_deactivate = [
+                    c for c in controllers_to_unload if controller_states[c] == "active"
+                ]
 
             if controllers_to_deactivate:
                 logger.info("Deactivating and unloading controllers...")
@@ -612,8 +633,9 @@ def main(args=None):
 
                 logger.info(f"Successfully deactivated controllers : {controllers_to_deactivate}")
 
+            if controllers_to_unload:
                 unload_status = True
-                for controller_name in controllers_to_deactivate:
+                for controller_name in controllers_to_unload:
                     ret = unload_controller(
                         node,
                         controller_manager_name,
@@ -630,7 +652,7 @@ def main(args=None):
                         )
 
                 if unload_status:
-                    logger.info(f"Successfully unloaded controllers : {controllers_to_deactivate}")
+                    logger.info(f"Successfully unloaded controllers : {controllers_to_unload}")
                 else:
                     return 1
             else:
-- 
2.43.0


From 089da352b75d0575dae653d8dd20709140a12ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:11 +0000
Subject: [PATCH 67/71] fix: separate all interfaces of a controller in the
 diagram of controller chains

---
 .../ros2controlcli/verb/view_controller_chains.py         | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ros2controlcli/ros2controlcli/verb/view_controller_chains.py b/ros2controlcli/ros2controlcli/verb/view_controller_chains.py
index dafe067..1d84355 100644
--- a/ros2controlcli/ros2controlcli/verb/view_controller_chains.py
+++ b/ros2controlcli/ros2controlcli/verb/view_controller_chains.py
@@ -41,7 +41,7 @@ def make_controller_node(
     inputs_str = ""
     for ind, state_interface in enumerate(state_interfaces):
         deliminator = "|"
-        if ind == len(state_interface) - 1:
+        if ind == len(state_interfaces) + len(input_controllers) - 1:
             deliminator = ""
         inputs_str += "<{}> {} {} ".format(
             "state_end_" + state_interface, state_interface, deliminator
@@ -49,7 +49,7 @@ def make_controller_node(
 
     for ind, input_controller in enumerate(input_controllers):
         deliminator = "|"
-        if ind == len(input_controller) - 1:
+        if ind == len(input_controllers) - 1:
             deliminator = ""
         inputs_str += "<{}> {} {} ".format(
             "controller_end_" + input_controller, input_controller, deliminator
@@ -59,7 +59,7 @@ def make_controller_node(
     outputs_str = ""
     for ind, command_interface in enumerate(command_interfaces):
         deliminator = "|"
-        if ind == len(command_interface) - 1:
+        if ind == len(command_interfaces) + len(output_controllers) - 1:
             deliminator = ""
         outputs_str += "<{}> {} {} ".format(
             "command_start_" + command_interface, command_interface, deliminator
@@ -67,7 +67,7 @@ def make_controller_node(
 
     for ind, output_controller in enumerate(output_controllers):
         deliminator = "|"
-        if ind == len(output_controller) - 1:
+        if ind == len(output_controllers) - 1:
             deliminator = ""
         outputs_str += "<{}> {} {} ".format(
             "controller_start_" + output_controller, output_controller, deliminator
-- 
2.43.0


From 7c02556a2039958dab3d19b556a7a9458a851f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:11 +0000
Subject: [PATCH 68/71] fix: join the right controllers in the diagram of
 controller chains

---
 .../verb/view_controller_chains.py            | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/ros2controlcli/ros2controlcli/verb/view_controller_chains.py b/ros2controlcli/ros2controlcli/verb/view_controller_chains.py
index 1d84355..b8e249c 100644
--- a/ros2controlcli/ros2controlcli/verb/view_controller_chains.py
+++ b/ros2controlcli/ros2controlcli/verb/view_controller_chains.py
@@ -31,7 +31,6 @@ def make_controller_node(
     command_interfaces,
     input_controllers,
     output_controllers,
-    port_map,
 ):
     state_interfaces = sorted(list(state_interfaces))
     command_interfaces = sorted(list(command_interfaces))
@@ -54,7 +53,6 @@ def make_controller_node(
         inputs_str += "<{}> {} {} ".format(
             "controller_end_" + input_controller, input_controller, deliminator
         )
-        port_map["controller_end_" + input_controller] = controller_name
 
     outputs_str = ""
     for ind, command_interface in enumerate(command_interfaces):
@@ -65,12 +63,12 @@ def make_controller_node(
             "command_start_" + command_interface, command_interface, deliminator
         )
 
-    for ind, output_controller in enumerate(output_controllers):
+    for ind, (output_name, output_interface) in enumerate(output_controllers):
         deliminator = "|"
         if ind == len(output_controllers) - 1:
             deliminator = ""
         outputs_str += "<{}> {} {} ".format(
-            "controller_start_" + output_controller, output_controller, deliminator
+            f"controller_start_{output_name}/{output_interface}", output_interface, deliminator
         )
 
     s.add_node(controller_name, label=f"{controller_name}|{{{{{inputs_str}}}|{{{outputs_str}}}}}")
@@ -118,7 +116,6 @@ def show_graph(
     s = pgz.AGraph(name="g", strict=False, directed=True, rankdir="LR")
     s.node_attr["shape"] = "record"
     s.node_attr["style"] = "rounded"
-    port_map = dict()
     # get all controller names
     controller_names = set()
     controller_names = controller_names.union({name for name in input_chain_connections})
@@ -134,19 +131,16 @@ def show_graph(
             command_connections[controller_name],
             input_chain_connections[controller_name],
             output_chain_connections[controller_name],
-            port_map,
         )
 
     make_state_node(s, state_interfaces)
     make_command_node(s, command_interfaces)
 
     for controller_name in controller_names:
-        for connection in output_chain_connections[controller_name]:
+        for output_name, output_interface in output_chain_connections[controller_name]:
             s.add_edge(
-                "{}:{}".format(controller_name, "controller_start_" + connection),
-                "{}:{}".format(
-                    port_map["controller_end_" + connection], "controller_end_" + connection
-                ),
+                f"{controller_name}:controller_start_{output_name}/{output_interface}",
+                f"{output_name}:controller_end_{output_interface}",
             )
         for state_connection in state_connections[controller_name]:
             s.add_edge(
@@ -176,7 +170,10 @@ def parse_response(list_controllers_response, list_hardware_response, visualize=
     for controller in list_controllers_response.controller:
         for chain_connection in controller.chain_connections:
             for reference_interface in chain_connection.reference_interfaces:
-                output_chain_connections[controller.name].add(reference_interface)
+                # interfaces of different controllers may have the same name
+                output_chain_connections[controller.name].add(
+                    (chain_connection.name, reference_interface)
+                )
         for reference_interface in controller.reference_interfaces:
             input_chain_connections[controller.name].add(reference_interface)
 
-- 
2.43.0


From 5399ea547019c80778f812f988f3180d686651ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:11 +0000
Subject: [PATCH 69/71] fix: read the switch timeout of ros2 control
 switch_controllers as a number

---
 ros2controlcli/ros2controlcli/verb/switch_controllers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ros2controlcli/ros2controlcli/verb/switch_controllers.py b/ros2controlcli/ros2controlcli/verb/switch_controllers.py
index 0e90925..0e6aeb8 100644
--- a/ros2controlcli/ros2controlcli/verb/switch_controllers.py
+++ b/ros2controlcli/ros2controlcli/verb/switch_controllers.py
@@ -55,6 +55,7 @@ class SwitchControllersVerb(VerbExtension):
         parser.add_argument("--activate-asap", action="store_true", help="Start asap controllers")
         parser.add_argument(
             "--switch-timeout",
+            type=float,
             default=5.0,
             required=False,
             help="Timeout for switching controllers",
-- 
2.43.0


From 52886ff8acf91b6844a08d6629ebd049a4190a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:22 +0000
Subject: [PATCH 70/71] fix: do not report success when ros2 control could not
 change the state of a controller

---
 .../ros2controlcli/verb/load_controller.py      |  9 ++++++++-
 .../ros2controlcli/verb/set_controller_state.py | 17 +++++++++++++++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/ros2controlcli/ros2controlcli/verb/load_controller.py b/ros2controlcli/ros2controlcli/verb/load_controller.py
index 5e29058..9f6db1a 100644
--- a/ros2controlcli/ros2controlcli/verb/load_controller.py
+++ b/ros2controlcli/ros2controlcli/verb/load_controller.py
@@ -20,6 +20,7 @@ from controller_manager import (
     set_controller_parameters_from_param_files,
     bcolors,
 )
+from controller_manager_msgs.srv import SwitchController
 
 from ros2cli.node.direct import add_arguments
 from ros2cli.node.strategy import NodeStrategy
@@ -101,7 +102,13 @@ class LoadControllerVerb(VerbExtension):
 
                 if args.set_state == "active":
                     response = switch_controllers(
-                        node, args.controller_manager, [], [args.controller_name], True, True, 5.0
+                        node,
+                        args.controller_manager,
+                        [],
+                        [args.controller_name],
+                        SwitchController.Request.STRICT,
+                        True,
+                        5.0,
                     )
                     if not response.ok:
                         print(
diff --git a/ros2controlcli/ros2controlcli/verb/set_controller_state.py b/ros2controlcli/ros2controlcli/verb/set_controller_state.py
index cf38e29..276bc10 100644
--- a/ros2controlcli/ros2controlcli/verb/set_controller_state.py
+++ b/ros2controlcli/ros2controlcli/verb/set_controller_state.py
@@ -18,6 +18,7 @@ from controller_manager import (
     list_controllers,
     switch_controllers,
 )
+from controller_manager_msgs.srv import SwitchController
 
 from ros2cli.node.direct import add_arguments
 from ros2cli.node.strategy import NodeStrategy
@@ -75,7 +76,13 @@ class SetControllerStateVerb(VerbExtension):
 
                 elif matched_controller.state == "active":
                     response = switch_controllers(
-                        node, args.controller_manager, [args.controller_name], [], True, True, 5.0
+                        node,
+                        args.controller_manager,
+                        [args.controller_name],
+                        [],
+                        SwitchController.Request.STRICT,
+                        True,
+                        5.0,
                     )
                     if not response.ok:
                         return "Error stopping controller, check controller_manager logs"
@@ -96,7 +103,13 @@ class SetControllerStateVerb(VerbExtension):
                         f"from its current state {matched_controller.state}"
                     )
                 response = switch_controllers(
-                    node, args.controller_manager, [], [args.controller_name], True, True, 5.0
+                    node,
+                    args.controller_manager,
+                    [],
+                    [args.controller_name],
+                    SwitchController.Request.STRICT,
+                    True,
+                    5.0,
                 )
                 if not response.ok:
                     return "Error activating controller, check controller_manager logs"
-- 
2.43.0


From ba65f3154e37c7d37f52db650bcc125417347bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:00 +0000
Subject: [PATCH 71/71] fix: keep commands within the velocity limits if the
 previous velocity is outside of them

---
 joint_limits/src/joint_limits_helpers.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/joint_limits/src/joint_limits_helpers.cpp b/joint_limits/src/joint_limits_helpers.cpp
index 178629c..e2ba100 100644
--- a/joint_limits/src/joint_limits_helpers.cpp
+++ b/joint_limits/src/joint_limits_helpers.cpp
@@ -205,8 +205,14 @@ VelocityLimits compute_velocity_limits(
   if (limits.has_acceleration_limits && internal::is_finite(prev_command_vel))
   {
     const double delta_vel = limits.max_acceleration * dt;
-    vel_limits.lower_limit = std::max(prev_command_vel.value() - delta_vel, vel_limits.lower_limit);
-    vel_limits.upper_limit = std::min(prev_command_vel.value() + delta_vel, vel_limits.upper_limit);
+    // The velocities reachable within the period must never extend beyond the velocity limits, even
+    // if the previous velocity is outside of them
+    const double min_reachable_vel = std::clamp(
+      prev_command_vel.value() - delta_vel, -limits.max_velocity, limits.max_velocity);
+    const double max_reachable_vel = std::clamp(
+      prev_command_vel.value() + delta_vel, -limits.max_velocity, limits.max_velocity);
+    vel_limits.lower_limit = std::max(min_reachable_vel, vel_limits.lower_limit);
+    vel_limits.upper_limit = std::min(max_reachable_vel, vel_limits.upper_limit);
   }
   internal::check_and_swap_limits(vel_limits.lower_limit, vel_limits.upper_limit);
   return vel_limits;
-- 
2.43.0

