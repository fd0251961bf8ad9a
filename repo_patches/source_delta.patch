From 548e0f3d29489f292f92c5f4f9b6c0ba28276e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:51 +0000
Subject: [PATCH 01/35] fix: barometer interpolation with no readings or
 several pending states

barometer_try_publish() accessed the front of an empty buffer if a state was
created before the first barometer reading arrived, and served only one pending
state per call so that states lagged forever behind a late barometer.
---
 serpent/src/front_end/frontend.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index 6de34bc..806358d 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -160,7 +160,7 @@ void Frontend::barometer_callback(const sensor_msgs::FluidPressure::ConstPtr& pr
 }
 
 void Frontend::barometer_try_publish() {
-    if (!barometer_timestamp_buffer.empty()) {
+    while (!barometer_timestamp_buffer.empty() && !barometer_buffer.empty()) {
         // Special case (first measurement) where barometer data might not preceded first state timestamp
         if (barometer_buffer.front()->header.stamp > barometer_timestamp_buffer.front()) {
             ROS_WARN_STREAM("No barometer measurement prior to new state timestamp. Approximating with measurement "
@@ -181,6 +181,9 @@ void Frontend::barometer_try_publish() {
             barometer_publisher.publish(interpolate_pressure(
                     *barometer_buffer.front(), *barometer_buffer.at(1), barometer_timestamp_buffer.front()));
             barometer_timestamp_buffer.pop_front();
+        } else {
+            // Barometer data past the state time is required
+            break;
         }
     }
 }
-- 
2.43.0


From 2205baf7c3c6cbb7eeae2d317bf1b36fbe5f9245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:51 +0000
Subject: [PATCH 02/35] fix: deadlock on shutdown while a callback is waiting

protected_sleep() returned false with the mutex still locked if leave_locked was
set. All callers return immediately in that case, so the next callback to take
the mutex blocked forever and the node could not exit.
---
 serpent/include/serpent/utils/utilities.hpp | 2 +-
 serpent/src/utils/utilities.cpp             | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/serpent/include/serpent/utils/utilities.hpp b/serpent/include/serpent/utils/utilities.hpp
index 38c4c23..3c41d92 100644
--- a/serpent/include/serpent/utils/utilities.hpp
+++ b/serpent/include/serpent/utils/utilities.hpp
@@ -78,7 +78,7 @@ sensor_msgs::FluidPressure interpolate_pressure(const sensor_msgs::FluidPressure
  *
  * @param mutex
  * @param sleep_period
- * @param leave_locked
+ * @param leave_locked leave the mutex locked if true is returned (it is always unlocked if false is returned)
  * @param condition
  * @return true if ROS is ok() (i.e. condition broke)
  * @return false if ROS is not ok()
diff --git a/serpent/src/utils/utilities.cpp b/serpent/src/utils/utilities.cpp
index 896fa96..3c1afab 100644
--- a/serpent/src/utils/utilities.cpp
+++ b/serpent/src/utils/utilities.cpp
@@ -82,10 +82,11 @@ bool protected_sleep(std::mutex& mutex, const double sleep_period_, const bool a
         sleep_period.sleep();
         mutex.lock();
     }
-    if (!leave_locked) {
+    const bool ok = ros::ok();
+    if (!leave_locked || !ok) {
         mutex.unlock();
     }
-    return ros::ok();
+    return ok;
 }
 
 void update_preintegration_params(gtsam::PreintegrationParams& params, const Eigen::Matrix3d& accelerometer_covariance,
-- 
2.43.0


From ed4655a9affe5322228f76736bd7905523ba3552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:51 +0000
Subject: [PATCH 03/35] fix: crash when an IMU measurement coincides with the
 end of integration

A measurement stamped exactly at the end of the interval was integrated over
dt = 0, which GTSAM rejects with an exception.
---
 serpent/include/serpent/utils/utilities.hpp | 2 +-
 serpent/src/utils/utilities.cpp             | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/serpent/include/serpent/utils/utilities.hpp b/serpent/include/serpent/utils/utilities.hpp
index 3c41d92..380a16c 100644
--- a/serpent/include/serpent/utils/utilities.hpp
+++ b/serpent/include/serpent/utils/utilities.hpp
@@ -33,7 +33,7 @@ void delete_old_measurements(const ros::Time& timestamp, std::deque<eigen_ros::I
 
 /**
  * @brief IMU preintegration assumes that the acceleration and angular velocity remain constant between t and t + dt.
- * Thus the buffer must contain at least one IMU measurment with timestamp <= start. Messages with timestamp > end are
+ * Thus the buffer must contain at least one IMU measurment with timestamp <= start. Messages with timestamp >= end are
  * ignored.
  *
  * @param preint
diff --git a/serpent/src/utils/utilities.cpp b/serpent/src/utils/utilities.cpp
index 3c1afab..6101c04 100644
--- a/serpent/src/utils/utilities.cpp
+++ b/serpent/src/utils/utilities.cpp
@@ -35,8 +35,8 @@ void integrate_imu(gtsam::PreintegratedCombinedMeasurements& preint, const std::
 
     ros::Time integration_time = start;
     for (auto it = buffer.cbegin(); it != buffer.cend(); ++it) {
-        // Ignore imu messages past end
-        if (it->timestamp > end) {
+        // Ignore imu messages at or past end
+        if (it->timestamp >= end) {
             break;
         }
         // If the next timestamp is after start time, we integrate
-- 
2.43.0


From c8884ed00b6391e2cb120c37e44b79ea91d1ce7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:51 +0000
Subject: [PATCH 04/35] fix: crash on an IMU gap longer than the time between
 states

A gap leaves a single measurement (the one before the start of the window) for
the interval. Integration holds each measurement until the next, so one is
sufficient, but integrate_imu() threw an exception.
---
 serpent/src/utils/utilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serpent/src/utils/utilities.cpp b/serpent/src/utils/utilities.cpp
index 6101c04..63d3fab 100644
--- a/serpent/src/utils/utilities.cpp
+++ b/serpent/src/utils/utilities.cpp
@@ -26,8 +26,8 @@ void integrate_imu(gtsam::PreintegratedCombinedMeasurements& preint, const std::
     }
 
     // Error handling
-    if (buffer.size() < 2) {
-        throw std::runtime_error("IMU buffer must contain at least 2 measurements for valid preintegration.");
+    if (buffer.empty()) {
+        throw std::runtime_error("IMU buffer must contain at least 1 measurement for valid preintegration.");
     } else if (buffer.front().timestamp > start) {
         throw std::runtime_error("IMU buffer must contain at least one IMU measurment with timestamp <= start for valid"
                                  " preintegration.");
-- 
2.43.0


From 642b1712aafab8cd67a8d557ec97d3439c009f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:51 +0000
Subject: [PATCH 05/35] fix: gyroscope bias was added to the IMU-rate odometry
 angular velocity

The bias must be subtracted from the measurement.
---
 serpent/src/front_end/frontend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index 806358d..f88d0a1 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -239,7 +239,7 @@ void Frontend::imu_callback(const sensor_msgs::Imu::ConstPtr& msg) {
         ROS_WARN_ONCE("TODO FIX: angular velocity must be converted from IMU frame to body frame - is this even "
                       "possible? A rotation may be a good approximation.");
         const Eigen::Vector3d angular_velocity =
-                body_frames.body_to_frame("imu").rotation() * (imu.angular_velocity + imu_biases.gyroscope());
+                body_frames.body_to_frame("imu").rotation() * imu_biases.correctGyroscope(imu.angular_velocity);
 
         // Publish current state as odometry output
         auto odometry = boost::make_shared<nav_msgs::Odometry>();
-- 
2.43.0


From 7c55b7479143817817059093ee121c8326d0706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:51 +0000
Subject: [PATCH 06/35] fix: output pose was the body frame pose instead of the
 base_link pose

---
 serpent/src/front_end/frontend.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index f88d0a1..5d049a3 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -294,8 +294,7 @@ void Frontend::optimised_odometry_callback(const serpent::ImuBiases::ConstPtr& i
         tf_broadcaster.sendTransform(map_to_base_link_tf);
 
         // Publish T_W^{BL} pose with covariance
-        auto map_to_base_link_pose = eigen_ros::to_ros<geometry_msgs::PoseWithCovarianceStamped>(
-                world_odometry.pose_stamped());  // map_to_base_link);
+        auto map_to_base_link_pose = eigen_ros::to_ros<geometry_msgs::PoseWithCovarianceStamped>(map_to_base_link);
         map_to_base_link_pose.header.frame_id = optimised_odometry_msg->header.frame_id;
         pose_publisher.publish(map_to_base_link_pose);
     } catch (const std::exception& ex) {
-- 
2.43.0


From 777093c794cc68e50b2ac63b943c62636382371d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:51 +0000
Subject: [PATCH 07/35] fix: deskewing used the inverse of the lidar extrinsic

The skew transform was converted from the body to the lidar frame with
body_to_frame instead of frame_to_body (compare Optimisation::imu_s2s_callback),
so that scans were corrupted unless the lidar extrinsic was identity.
---
 serpent/src/front_end/frontend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index 5d049a3..4b41626 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -498,7 +498,7 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
                 eigen_gtsam::to_eigen<Eigen::Isometry3d>(previous_pointcloud_end_state.pose());
 
         // Transform skew_transform from body frame into lidar frame
-        skew_transform = eigen_ext::change_relative_transform_frame(skew_transform, body_frames.body_to_frame("lidar"));
+        skew_transform = eigen_ext::change_relative_transform_frame(skew_transform, body_frames.frame_to_body("lidar"));
 
         // Deskew configuration
         skew_transform = eigen_ext::to_transform(
-- 
2.43.0


From 705191b5fe7e68956343bb8009d93003a813262f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:46 +0000
Subject: [PATCH 08/35] fix: crash on scans with zero sweep duration

Rounding in the start and end states could make the skew transform of a scan
without sweep duration (e.g. without a time field) differ from identity, for
which pct::deskew() throws an exception.
---
 serpent/src/front_end/frontend.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index 4b41626..dd7046b 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -500,6 +500,11 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
         // Transform skew_transform from body frame into lidar frame
         skew_transform = eigen_ext::change_relative_transform_frame(skew_transform, body_frames.frame_to_body("lidar"));
 
+        // An instantaneous sweep has no skew (do not depend on numerical precision of the transforms)
+        if (sweep_duration.isZero()) {
+            skew_transform = Eigen::Isometry3d::Identity();
+        }
+
         // Deskew configuration
         skew_transform = eigen_ext::to_transform(
                 (deskew_translation ? skew_transform.translation() : Eigen::Vector3d{0.0, 0.0, 0.0}),
-- 
2.43.0


From 97f0498e1cac391d32c19b4bea9e67d41019c409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:46 +0000
Subject: [PATCH 09/35] fix: crash when the first scan precedes the first IMU
 measurement

Starting the lidar before the IMU, or having exactly one IMU measurement at the
initial state time, threw an exception from interpolated_imu(). Scans before the
first IMU measurement are now skipped until the initial state can be created.
---
 serpent/src/front_end/frontend.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index dd7046b..58b32a4 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -406,10 +406,20 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
         } else {
             // Wait for IMU message after deskew timestamp (for safety, as should already be received).
             if (!protected_sleep(preintegration_mutex, 0.01, false, false,
-                        [this, new_state_time]() { return last_preint_imu_timestamp < new_state_time; })) {
+                        [this, new_state_time]() { return last_preint_imu_timestamp <= new_state_time; })) {
                 return;
             };
 
+            // The initial state can only be created once there is IMU data before it. Skip pointclouds prior to that.
+            imu_data_mutex.lock();
+            const bool imu_data_started = imu_buffer.front().timestamp <= previous_pointcloud_start;
+            imu_data_mutex.unlock();
+            if (!imu_data_started) {
+                ROS_WARN_STREAM("No IMU data prior to t = " << previous_pointcloud_start << ". Skipping pointcloud.");
+                previous_pointcloud = msg;
+                return;
+            }
+
             // Compute the interpolated IMU message at the deskew timestamp.
             const eigen_ros::Imu deskew_imu = interpolated_imu(new_state_time);
 
-- 
2.43.0


From fd1af377981ea89ebfcdc4ababd7d1a2a7164490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:20 +0000
Subject: [PATCH 10/35] fix: IMU windows could miss late measurements and
 deskewing could race

The IMU measurements between two states were published without waiting for the
measurements up to the new state time, so late IMU data was lost from the window
(or, with none at all, undefined behaviour resulted), and the back end could
optimise the new state before the front end had adopted the previous one. With
no registration factors the new state could then replace the biases and state
needed for deskewing, and the front end waited forever for the old one.

Wait for the previous optimised state and all required IMU data first, and take
a copy of the optimised data before publishing the IMU measurements.
---
 serpent/src/front_end/frontend.cpp | 87 ++++++++++++++++--------------
 1 file changed, 48 insertions(+), 39 deletions(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index 58b32a4..ddf70f7 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -378,32 +378,13 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
         }
         ROS_INFO_STREAM("New state time set to " << new_state_time << ".");
 
-        // Initialised: publish the IMU messages between the deskew times of the pointclouds.
+        // Compute point cloud sweep end time
+        const ros::Duration sweep_duration{
+                pct::has_field(*previous_pointcloud, "t") ? pct::max<float>(*previous_pointcloud, "t") : 0};
+        const ros::Time previous_pointcloud_end = previous_pointcloud_start + sweep_duration;
+
         // Not initialised: construct and publish the initial odometry at the deskew timestamp.
-        if (initialised) {
-            // Accumulate and publish the IMU measurements required for registration of the previous two pointclouds.
-            // This spans from the previous to the current state time. Remove any IMU measurements older
-            // than the first of these.
-            std::lock_guard<std::mutex> guard{imu_data_mutex};
-            auto imu_s2s = boost::make_shared<serpent::ImuArray>();
-            imu_s2s->start_timestamp = previous_state_time;
-            imu_s2s->end_timestamp = new_state_time;
-            if (imu_buffer.front().timestamp > previous_state_time) {
-                throw std::runtime_error("IMU measurement before the previous deskew timestamp was required.");
-            }
-            for (auto it = imu_buffer.cbegin(); it != imu_buffer.cend(); ++it) {
-                // Add the IMU measurement if it is between the pointcloud timestamps or is the first measurement before
-                // the previous pointcloud start time (and next measurement isn't exactly the start time).
-                if (it->timestamp < new_state_time &&
-                        (it->timestamp > previous_state_time || std::next(it)->timestamp > previous_state_time)) {
-                    imu_s2s->measurements.push_back(eigen_ros::to_ros<sensor_msgs::Imu>(*it));
-                }
-            }
-            delete_old_measurements(imu_s2s->measurements.front().header.stamp, imu_buffer);
-            imu_s2s_publisher.publish(imu_s2s);
-            ROS_DEBUG_STREAM(
-                    "Published IMU measurements from " << imu_s2s->start_timestamp << " to " << imu_s2s->end_timestamp);
-        } else {
+        if (!initialised) {
             // Wait for IMU message after deskew timestamp (for safety, as should already be received).
             if (!protected_sleep(preintegration_mutex, 0.01, false, false,
                         [this, new_state_time]() { return last_preint_imu_timestamp <= new_state_time; })) {
@@ -456,22 +437,50 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
             previous_state_time = new_state_time;
         }
 
-        // Compute point cloud sweep end time
-        const ros::Duration sweep_duration{
-                pct::has_field(*previous_pointcloud, "t") ? pct::max<float>(*previous_pointcloud, "t") : 0};
-        const ros::Time previous_pointcloud_end = previous_pointcloud_start + sweep_duration;
-
-        // Wait for previous imu_biases (& world_state) and IMU message past end of sweep and start of new point cloud.
-        // Then imu_biases, world_state, world_odometry and preintegration_params can be used without mutex locking
-        // because the optimised odometry callback cannot trigger until after the deskewed pointcloud is published.
-        if (!protected_sleep(preintegration_mutex, 0.01, false, false, [this, previous_pointcloud_end]() {
-                return imu_bias_timestamp != previous_state_time || last_preint_imu_timestamp < previous_pointcloud_end;
+        // Wait for previous imu_biases (& world_state) and IMU messages past end of sweep and past the new state time.
+        // The optimised odometry callback may trigger as soon as the IMU messages are published (if no other data is
+        // required for optimisation), so the IMU messages are published after taking a copy of the optimised data.
+        const ros::Time required_imu_time = std::max(previous_pointcloud_end, new_state_time);
+        if (!protected_sleep(preintegration_mutex, 0.01, false, true, [this, required_imu_time]() {
+                return imu_bias_timestamp != previous_state_time || last_preint_imu_timestamp < required_imu_time;
             })) {
             return;
         };
+        const gtsam::imuBias::ConstantBias previous_imu_biases = imu_biases;
+        const gtsam::NavState previous_world_state = world_state;
+        const auto previous_preintegration_params =
+                boost::make_shared<gtsam::PreintegrationCombinedParams>(*preintegration_params);
+        preintegration_mutex.unlock();
+
+        // Initialised: publish the IMU messages between the deskew times of the pointclouds.
+        if (initialised) {
+            // Accumulate and publish the IMU measurements required for registration of the previous two pointclouds.
+            // This spans from the previous to the current state time. Remove any IMU measurements older
+            // than the first of these.
+            std::lock_guard<std::mutex> guard{imu_data_mutex};
+            auto imu_s2s = boost::make_shared<serpent::ImuArray>();
+            imu_s2s->start_timestamp = previous_state_time;
+            imu_s2s->end_timestamp = new_state_time;
+            if (imu_buffer.front().timestamp > previous_state_time) {
+                throw std::runtime_error("IMU measurement before the previous deskew timestamp was required.");
+            }
+            for (auto it = imu_buffer.cbegin(); it != imu_buffer.cend(); ++it) {
+                // Add the IMU measurement if it is between the pointcloud timestamps or is the first measurement before
+                // the previous pointcloud start time (and next measurement isn't exactly the start time).
+                if (it->timestamp < new_state_time &&
+                        (it->timestamp > previous_state_time || std::next(it)->timestamp > previous_state_time)) {
+                    imu_s2s->measurements.push_back(eigen_ros::to_ros<sensor_msgs::Imu>(*it));
+                }
+            }
+            delete_old_measurements(imu_s2s->measurements.front().header.stamp, imu_buffer);
+            imu_s2s_publisher.publish(imu_s2s);
+            ROS_DEBUG_STREAM(
+                    "Published IMU measurements from " << imu_s2s->start_timestamp << " to " << imu_s2s->end_timestamp);
+        }
 
         // Create new IMU integrator for deskewing with updated parameters and biases
-        gtsam::PreintegratedCombinedMeasurements preintegrated_imu_skew{preintegration_params, imu_biases};
+        gtsam::PreintegratedCombinedMeasurements preintegrated_imu_skew{
+                previous_preintegration_params, previous_imu_biases};
 
         // Compute previous pointcloud start state (state at previous_pointcloud_start) from world_state (in body frame)
         imu_data_mutex.lock();
@@ -483,13 +492,13 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
                           "the timestamps. The correct fix is to perform backwards IMU integration from the initial "
                           "state to the pointcloud timestamp, however this is difficult.");
             // Generate an approximate start state
-            previous_pointcloud_start_state = world_state;
+            previous_pointcloud_start_state = previous_world_state;
         } else {
             // Integrate IMU messages from previous optimised state to previous pointcloud timestamp
             integrate_imu(preintegrated_imu_skew, imu_buffer, previous_state_time, previous_pointcloud_start);
 
             // Predict state at pointcloud start time (body frame)
-            previous_pointcloud_start_state = preintegrated_imu_skew.predict(world_state, imu_biases);
+            previous_pointcloud_start_state = preintegrated_imu_skew.predict(previous_world_state, previous_imu_biases);
 
             // Reset Integration for deskewing
             preintegrated_imu_skew.resetIntegration();
@@ -502,7 +511,7 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
         // Generate transform from preintegration, which is in the body frame.
         // T_{B_{i,s}}^{B_{i,e}} = T_{B_{i,s}}^{W} * T_{W}^{B_{i,e}}
         const gtsam::NavState previous_pointcloud_end_state =
-                preintegrated_imu_skew.predict(previous_pointcloud_start_state, imu_biases);
+                preintegrated_imu_skew.predict(previous_pointcloud_start_state, previous_imu_biases);
         Eigen::Isometry3d skew_transform =
                 eigen_gtsam::to_eigen<Eigen::Isometry3d>(previous_pointcloud_start_state.pose()).inverse() *
                 eigen_gtsam::to_eigen<Eigen::Isometry3d>(previous_pointcloud_end_state.pose());
-- 
2.43.0


From e99077b0053f99312b63614e0b1b96aecda1c50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:20 +0000
Subject: [PATCH 11/35] fix: deadlock with only_graph_frames when two scans
 have no stereo frame

The back end skips the stereo factors of a state when features with a later
timestamp arrive. With only_graph_frames no frame is published until a state
selects it, but that state is not created until the previous one is optimised.
Publish the next frame if there is none for the current state.
---
 serpent/include/serpent/front_end/frontend.hpp | 2 ++
 serpent/src/front_end/frontend.cpp             | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/serpent/include/serpent/front_end/frontend.hpp b/serpent/include/serpent/front_end/frontend.hpp
index 6fecaa4..880a771 100644
--- a/serpent/include/serpent/front_end/frontend.hpp
+++ b/serpent/include/serpent/front_end/frontend.hpp
@@ -231,6 +231,8 @@ private:
     //// Stereo data
     // Stereo FIFO buffer
     std::deque<StereoData> stereo_buffer;
+    // Timestamp of stereo data published before being selected for a state (only used with only_graph_frames)
+    ros::Time last_published_stereo_time;
 
     //// Barometer data
     // Barometer FIFO buffer
diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index ddf70f7..0f13057 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -368,11 +368,15 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
                 // Update the deskew time.
                 new_state_time = stereo_buffer.front().timestamp();
                 // Publish stereo data if it hasn't been already.
-                if (only_graph_frames) {
+                if (only_graph_frames && last_published_stereo_time != new_state_time) {
                     publish_stereo_data(stereo_buffer.front());
                 }
                 // Remove stereo data from queue.
                 stereo_buffer.pop_front();
+            } else if (only_graph_frames && last_published_stereo_time != stereo_buffer.front().timestamp()) {
+                // Publish the next stereo data early, so that the optimisation does not wait for data at this state.
+                last_published_stereo_time = stereo_buffer.front().timestamp();
+                publish_stereo_data(stereo_buffer.front());
             }
             stereo_data_mutex.unlock();
         }
-- 
2.43.0


From b0a6de2875ce31fac0ae1c75ae7ab3238a332161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:36 +0000
Subject: [PATCH 12/35] fix: crash in mapping with frame extraction method PAST

update_map() accessed the pose cloud, which only exists with method NEARBY.
---
 serpent/include/serpent/mapping/mapping-inl.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/serpent/include/serpent/mapping/mapping-inl.hpp b/serpent/include/serpent/mapping/mapping-inl.hpp
index 7dd2213..5424024 100644
--- a/serpent/include/serpent/mapping/mapping-inl.hpp
+++ b/serpent/include/serpent/mapping/mapping-inl.hpp
@@ -295,8 +295,10 @@ void Mapping<PointT>::update_map(const eigen_ros::PoseStamped& frame_pose_stampe
     auto it = map.find(frame_pose_stamped.timestamp);
     if (it != map.end()) {
         it->second.pose = frame_pose_stamped;
-        pose_cloud->at(pose_cloud_indices.at(it->second.pose.timestamp)) = PointAngleAxis{
-                frame_pose_stamped.data.position.cast<float>(), frame_pose_stamped.data.orientation.cast<float>()};
+        if (pose_cloud) {
+            pose_cloud->at(pose_cloud_indices.at(it->second.pose.timestamp)) = PointAngleAxis{
+                    frame_pose_stamped.data.position.cast<float>(), frame_pose_stamped.data.orientation.cast<float>()};
+        }
     }
 }
 
-- 
2.43.0


From 30bc302c4b7c12b31aef4f585bce07fa02b1d292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:36 +0000
Subject: [PATCH 13/35] fix: global map was downsampled according to the local
 map setting

---
 serpent/include/serpent/mapping/mapping-inl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/include/serpent/mapping/mapping-inl.hpp b/serpent/include/serpent/mapping/mapping-inl.hpp
index 5424024..caf4709 100644
--- a/serpent/include/serpent/mapping/mapping-inl.hpp
+++ b/serpent/include/serpent/mapping/mapping-inl.hpp
@@ -273,7 +273,7 @@ bool Mapping<PointT>::publish_map_service_callback(std_srvs::Empty::Request&, st
     }
 
     // Filtering/Downsampling
-    PointCloudPtr filtered_pointcloud = voxel_grid_enabled_local ? filter_pointcloud(pointcloud) : pointcloud;
+    PointCloudPtr filtered_pointcloud = voxel_grid_enabled_global ? filter_pointcloud(pointcloud) : pointcloud;
 
     // Publish
     global_map_publisher.publish(filtered_pointcloud);
-- 
2.43.0


From cfb305a4de200440fcc05689f90c49d22c590bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:36 +0000
Subject: [PATCH 14/35] fix: valid registration covariances were rejected

The check was inverted, so a covariance which happened to be exactly symmetric
terminated the node and invalid covariances were accepted.
---
 serpent/src/back_end/optimisation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/serpent/src/back_end/optimisation.cpp b/serpent/src/back_end/optimisation.cpp
index a834845..bbad5ea 100644
--- a/serpent/src/back_end/optimisation.cpp
+++ b/serpent/src/back_end/optimisation.cpp
@@ -273,8 +273,9 @@ void Optimisation::add_registration_factor(const geometry_msgs::PoseWithCovarian
     const gtsam::Pose3 registration_pose_gtsam =
             gtsam::Pose3(gtsam::Rot3(registration_pose.data.orientation), registration_pose.data.position);
 
-    // Check if valid covariance matrix
-    if (eigen_ext::is_valid_covariance(registration_pose.data.covariance)) {
+    // Check if valid covariance matrix (with tolerance for rounding errors in symmetry)
+    const double symmetry_precision = 1.0e-6 * registration_pose.data.covariance.cwiseAbs().maxCoeff();
+    if (!eigen_ext::is_valid_covariance(registration_pose.data.covariance, symmetry_precision)) {
         ROS_ERROR_STREAM("Registration covariance is invalid:\n" << registration_pose.data.covariance);
         throw std::runtime_error("Covariance matrix is not valid.");
     }
-- 
2.43.0


From 42cfdf92aa463b241653ba145f86011a372d9578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:36 +0000
Subject: [PATCH 15/35] fix: velocity was updated after being published for
 stereo optimisation

Without IMU factors the published velocity was that of the IMU prediction when
the stereo features were last to arrive, but that of the optimised poses when
the registration was (see registration_callback).
---
 serpent/src/back_end/optimisation.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/serpent/src/back_end/optimisation.cpp b/serpent/src/back_end/optimisation.cpp
index bbad5ea..ac8d6dd 100644
--- a/serpent/src/back_end/optimisation.cpp
+++ b/serpent/src/back_end/optimisation.cpp
@@ -744,12 +744,16 @@ void Optimisation::stereo_features_callback(const serpent::StereoFeatures::Const
 
             // Optimise and publish
             if (gm->minimum_key(0) == gm->key("stereo") && gm->key("stereo") > 0) {
-                optimise_and_publish(gm->key("stereo"));
+                // Optimise
+                const auto optimisation_result = optimise(gm->key("stereo"));
 
                 // Update velocity if no IMU factors
                 if (!imu_factors_enabled) {
                     update_velocity_from_transforms("stereo");
                 }
+
+                // Publish
+                publish(gm->key("stereo"), optimisation_result);
             }
         }
     } while (features_in_future);
-- 
2.43.0


From 4e941183fedfcfe8ebc9da92a110e82e72470d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:36 +0000
Subject: [PATCH 16/35] fix: stereo observation constrained the wrong state
 after a skipped state

The first observation of a landmark was attributed to the previous state even
if the features had been observed at an earlier one.
---
 serpent/src/back_end/graph_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index 5deb41e..55bcab5 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -168,7 +168,7 @@ void GraphManager::create_stereo_factors_and_values(
                         features_im2->second.find(id) == features_im2->second.end()) {
                     // Previous state factor
                     auto stereo_factor = boost::make_shared<gtsam::GenericStereoFactor<gtsam::Pose3, gtsam::Point3>>(
-                            features_im1->second.at(id), stereo_noise_model, X(key_ - 1), S(id), K,
+                            features_im1->second.at(id), stereo_noise_model, X(features_im1->first), S(id), K,
                             body_to_stereo_left_cam);
                     factors__.push_back(stereo_factor);
                     new_factors__.push_back(stereo_factor);
-- 
2.43.0


From cff36797c238ec2e57c94decd539912f74452ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:36 +0000
Subject: [PATCH 17/35] fix: read past the end of values

---
 serpent/src/back_end/graph_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index 55bcab5..13f02b3 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -454,7 +454,7 @@ void GraphManager::update_from_values(const gtsam::Values& updated_values_) {
 void add_values(
         gtsam::Values& extracted_values, const gtsam::Values& values_, const gtsam::Key first, const gtsam::Key last) {
     auto it = values_.lower_bound(first);
-    while (it->key >= first && it->key <= last) {
+    while (it != values_.end() && it->key >= first && it->key <= last) {
         extracted_values.insert(it->key, it->value);
         ++it;
     }
-- 
2.43.0


From edab733cfdd5b686e410b13aa17556a1ec3045d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:36 +0000
Subject: [PATCH 18/35] fix: stereo landmarks were left out of values if the
 first key had none

---
 serpent/src/back_end/graph_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index 13f02b3..724b091 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -467,7 +467,7 @@ gtsam::Values GraphManager::values(const int first, const int last) const {
     add_values(extracted_values, values_, V(first), V(last));
     add_values(extracted_values, values_, P(first), P(last));
     // Iterate over (ordered) map of stereo landmark ids
-    auto it = stereo_landmark_ids.find(first);
+    auto it = stereo_landmark_ids.lower_bound(first);
     while (it != stereo_landmark_ids.end() && it->first <= last) {
         for (const int id : it->second) {
             extracted_values.insert(S(id), values_.at(S(id)));
-- 
2.43.0


From ae57f94128ddd239b560fb5b582ae796629b71a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:36 +0000
Subject: [PATCH 19/35] fix: dynamic frames were looked up and published as
 static transforms

Their transform is provided by another node, which made start-up fail if it was
not available yet, and fixed it to its first value otherwise.
---
 eigen_ros/src/body_frames_tf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eigen_ros/src/body_frames_tf.cpp b/eigen_ros/src/body_frames_tf.cpp
index 09fcddf..12aef58 100644
--- a/eigen_ros/src/body_frames_tf.cpp
+++ b/eigen_ros/src/body_frames_tf.cpp
@@ -12,7 +12,8 @@ BodyFramesTf::BodyFramesTf(const std::string& node_namespace)
     std::vector<geometry_msgs::TransformStamped> transforms;
     for (const std::string& frame : body_frames.frames()) {
         const std::string frame_id = body_frames.frame_id(frame);
-        if (frame_id != body_frames.body_frame_id() && !body_frames.lookedup_tf(frame)) {
+        if (frame_id != body_frames.body_frame_id() && !body_frames.lookedup_tf(frame) &&
+                !body_frames.is_dynamic(frame)) {
             geometry_msgs::TransformStamped transform;
             transform.header.stamp = ros::Time(0);
             transform.header.frame_id = body_frames.body_frame_id();
-- 
2.43.0


From 03d757f2d206ce489f6c3110233dc59f21d85178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:36 +0000
Subject: [PATCH 20/35] fix: scan-to-map callback blocked a thread forever when
 s2m is disabled

It waits for scan-to-scan results that are only queued if s2m is enabled.
---
 serpent/include/serpent/front_end/lidar/registration-inl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serpent/include/serpent/front_end/lidar/registration-inl.hpp b/serpent/include/serpent/front_end/lidar/registration-inl.hpp
index cae8cbf..15ec737 100644
--- a/serpent/include/serpent/front_end/lidar/registration-inl.hpp
+++ b/serpent/include/serpent/front_end/lidar/registration-inl.hpp
@@ -79,10 +79,12 @@ Registration<PointT>::Registration() : nh("serpent"), s2s_sync(10), body_frames(
     transform_subscriber.subscribe(nh, "optimisation/imu_transform", 10);
     s2s_sync.connectInput(pointcloud_subscriber, transform_subscriber);
     s2s_sync.registerCallback(boost::bind(&Registration<PointT>::s2s_callback, this, _1, _2));
-    map_subscriber = nh.subscribe<PointCloud>("mapping/local_map", 10, &Registration<PointT>::s2m_callback, this);
 
     // Configuration
     nh.param<bool>("s2m/enabled", s2m_enabled, true);
+    if (s2m_enabled) {
+        map_subscriber = nh.subscribe<PointCloud>("mapping/local_map", 10, &Registration<PointT>::s2m_callback, this);
+    }
 
     // Create registration methods
     s2s = registration_method<PointT, PointT>(nh, "s2s/");
-- 
2.43.0


From 729d4964427fdfaec19a3bd15d26e178333d6d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:59 +0000
Subject: [PATCH 21/35] fix: deadlock with default number of threads

The point cloud, IMU, stereo features, barometer and scan-to-map callbacks each
occupy a thread while waiting for other callbacks. With four threads and both
stereo and barometer enabled all of them could be waiting at once.
---
 serpent/launch/load_parameters.launch | 2 +-
 serpent/launch/serpent.launch         | 2 +-
 serpent/launch/serpent_backend.launch | 2 +-
 serpent/src/nodes/backend_node.cpp    | 3 ++-
 serpent/src/nodes/node.cpp            | 3 ++-
 5 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/serpent/launch/load_parameters.launch b/serpent/launch/load_parameters.launch
index 6afa51b..b3371f2 100644
--- a/serpent/launch/load_parameters.launch
+++ b/serpent/launch/load_parameters.launch
@@ -6,7 +6,7 @@
     <arg name="normal_estimation_file"          default="$(find serpent)/config/normal_estimation_default.yaml"/>
     <arg name="tuning_file"                     default="$(find serpent)/config/tuning_default.yaml"/>
     <arg name="debug_file"                      default="$(find serpent)/config/debug_default.yaml"/>
-    <arg name="threads"                         default="4"/>
+    <arg name="threads"                         default="8"/>
 
     <!-- Robot -->
     <rosparam ns="serpent" if="$(eval robot_file != '')"                 file="$(arg robot_file)"/>
diff --git a/serpent/launch/serpent.launch b/serpent/launch/serpent.launch
index d7fe092..0db863b 100644
--- a/serpent/launch/serpent.launch
+++ b/serpent/launch/serpent.launch
@@ -14,7 +14,7 @@
     <arg name="normal_estimation_file"          default="$(find serpent)/config/normal_estimation_default.yaml"/>
     <arg name="tuning_file"                     default="$(find serpent)/config/tuning_default.yaml"/>
     <arg name="debug_file"                      default="$(find serpent)/config/debug_default.yaml"/>
-    <arg name="threads"                         default="4"/>
+    <arg name="threads"                         default="8"/>
 
     <!-- Visualisation Arguments -->
     <arg name="rviz"                            default="false"/>
diff --git a/serpent/launch/serpent_backend.launch b/serpent/launch/serpent_backend.launch
index bd9e690..12743cd 100644
--- a/serpent/launch/serpent_backend.launch
+++ b/serpent/launch/serpent_backend.launch
@@ -7,7 +7,7 @@
     <arg name="normal_estimation_file"          default="$(find serpent)/config/normal_estimation_default.yaml"/>
     <arg name="tuning_file"                     default="$(find serpent)/config/tuning_default.yaml"/>
     <arg name="debug_file"                      default="$(find serpent)/config/debug_default.yaml"/>
-    <arg name="threads"                         default="4"/>
+    <arg name="threads"                         default="8"/>
 
     <!-- Debugging Arguments -->
     <arg name="use_gdb"                         default="false"/>
diff --git a/serpent/src/nodes/backend_node.cpp b/serpent/src/nodes/backend_node.cpp
index 199b5cb..b4c96d2 100644
--- a/serpent/src/nodes/backend_node.cpp
+++ b/serpent/src/nodes/backend_node.cpp
@@ -40,7 +40,8 @@ int main(int argc, char** argv) {
     }
 
     // Start the Node
-    const int threads = nh.param<int>("threads", 4);
+    // Up to five callbacks can be waiting for data that has yet to be processed by other callbacks
+    const int threads = nh.param<int>("threads", 8);
     if (threads < 1) {
         throw std::runtime_error("Thread count must be >= 1, was " + std::to_string(threads));
     }
diff --git a/serpent/src/nodes/node.cpp b/serpent/src/nodes/node.cpp
index 24bfedb..0785d80 100644
--- a/serpent/src/nodes/node.cpp
+++ b/serpent/src/nodes/node.cpp
@@ -72,7 +72,8 @@ int main(int argc, char** argv) {
     }
 
     // Start the Node
-    const int threads = nh.param<int>("threads", 4);
+    // Up to five callbacks can be waiting for data that has yet to be processed by other callbacks
+    const int threads = nh.param<int>("threads", 8);
     if (threads < 1) {
         throw std::runtime_error("Thread count must be >= 1, was " + std::to_string(threads));
     }
-- 
2.43.0


From 870ae1a47e2e25a7ed886bf151587359679fc8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:50 +0000
Subject: [PATCH 22/35] fix: body filter removed all points except those within
 the body region

---
 serpent/src/front_end/lidar/pointcloud_filter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/serpent/src/front_end/lidar/pointcloud_filter.cpp b/serpent/src/front_end/lidar/pointcloud_filter.cpp
index c3b593a..47513ac 100644
--- a/serpent/src/front_end/lidar/pointcloud_filter.cpp
+++ b/serpent/src/front_end/lidar/pointcloud_filter.cpp
@@ -41,6 +41,7 @@ PointcloudFilter::PointcloudFilter(std::string input_topic)
     output_topic = (random_sample_enabled || sor_enabled || range_filter_enabled) ? "filter/body_filtered_pointcloud"
                                                                                   : final_output_topic;
     if (body_filter_enabled) {
+        body_filter.setNegative(true);  // Remove (instead of keep) the points within the body region
         body_filter.setMin(Eigen::Vector4f(nh.param<float>("body_filter/min/x", 0.f),
                 nh.param<float>("body_filter/min/y", 0.f), nh.param<float>("body_filter/min/z", 0.f), 1.f));
         body_filter.setMax(Eigen::Vector4f(nh.param<float>("body_filter/max/x", 0.f),
-- 
2.43.0


From 92bd3c1c9ba40855e39ccc78003ed6f5b961368c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:50 +0000
Subject: [PATCH 23/35] fix: statistical outlier removal parameters were never
 read

They are configured under statistical_outlier_removal (see filter_default.yaml).
---
 serpent/src/front_end/lidar/pointcloud_filter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serpent/src/front_end/lidar/pointcloud_filter.cpp b/serpent/src/front_end/lidar/pointcloud_filter.cpp
index 47513ac..a0880c4 100644
--- a/serpent/src/front_end/lidar/pointcloud_filter.cpp
+++ b/serpent/src/front_end/lidar/pointcloud_filter.cpp
@@ -71,8 +71,8 @@ PointcloudFilter::PointcloudFilter(std::string input_topic)
     // Statistical Outlier Removal filter
     output_topic = random_sample_enabled ? "filter/sor_filtered_pointcloud" : final_output_topic;
     if (sor_enabled) {
-        sor_filter.setMeanK(nh.param<int>("statistical_outlier_removal_filter/mean_k", 1));
-        sor_filter.setStddevMulThresh(nh.param<double>("statistical_outlier_removal_filter/stddev_mul_thresh", 0.0));
+        sor_filter.setMeanK(nh.param<int>("statistical_outlier_removal/mean_k", 1));
+        sor_filter.setStddevMulThresh(nh.param<double>("statistical_outlier_removal/stddev_mul_thresh", 0.0));
         statistical_outlier_pointcloud_publisher = nh.advertise<pcl::PCLPointCloud2>(output_topic, 1);
         statistical_outlier_pointcloud_subscriber = nh.subscribe<pcl::PCLPointCloud2>(
                 input_topic, 100, &PointcloudFilter::statistical_outlier_callback, this);
-- 
2.43.0


From 5a26496ea8f9aa23e31e10505f0967e329f83663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:33 +0000
Subject: [PATCH 24/35] fix: marginalisation of states

Marginalised keys were generally not leaves of the Bayes tree, which
marginalizeLeaves() requires, and included keys without any factors. States
could also be marginalised before their barometer factors were added.
---
 serpent/src/back_end/graph_manager.cpp | 50 ++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 3 deletions(-)

diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index 724b091..7be424e 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -591,12 +591,48 @@ int ISAM2GraphManager::marginalisation_key() const {
     return marginalisation_key_;
 }
 
+// Add the keys of cliques in the subtree of the given clique for which key is in the separator
+void add_dependent_keys(const gtsam::Key key, const gtsam::ISAM2Clique::shared_ptr& clique,
+        gtsam::FastList<gtsam::Key>& dependent_keys) {
+    const auto& conditional = clique->conditional();
+    if (std::find(conditional->beginParents(), conditional->endParents(), key) != conditional->endParents()) {
+        dependent_keys.insert(dependent_keys.end(), conditional->beginFrontals(), conditional->endFrontals());
+        for (const auto& child : clique->children) {
+            add_dependent_keys(key, child, dependent_keys);
+        }
+    }
+}
+
 void ISAM2GraphManager::marginalise(const int key_) {
     if (key_ > opt_key_) {
         throw std::runtime_error("Cannot marginalise before optimisation.");
     }
-    auto marginalisation_keys = extract_unmarginalised_keys(key_);
+    // Only keys involved in factors are part of the Bayes tree
+    gtsam::FastList<gtsam::Key> marginalisation_keys;
+    gtsam::FastMap<gtsam::Key, int> ordering_constraints;
+    for (const gtsam::Key marginalisation_key : extract_unmarginalised_keys(key_)) {
+        if (optimiser.nodes().exists(marginalisation_key)) {
+            marginalisation_keys.push_back(marginalisation_key);
+        }
+    }
     marginalisation_key_ = key_;
+    if (marginalisation_keys.empty()) {
+        return;
+    }
+
+    // Re-order the Bayes tree such that the keys to be marginalised are leaves, as required by marginalizeLeaves()
+    for (const auto& [key__, clique] : optimiser.nodes()) {
+        ordering_constraints[key__] = 1;
+    }
+    gtsam::FastList<gtsam::Key> reeliminate_keys{marginalisation_keys};
+    for (const gtsam::Key marginalisation_key : marginalisation_keys) {
+        ordering_constraints[marginalisation_key] = 0;
+        for (const auto& child : optimiser[marginalisation_key]->children) {
+            add_dependent_keys(marginalisation_key, child, reeliminate_keys);
+        }
+    }
+    optimiser.update(gtsam::NonlinearFactorGraph{}, gtsam::Values{}, gtsam::FactorIndices{}, ordering_constraints,
+            boost::none, reeliminate_keys);
     optimiser.marginalizeLeaves(marginalisation_keys);
 }
 
@@ -605,8 +641,16 @@ gtsam::ISAM2Result ISAM2GraphManager::optimise(const int max_key) {
     const gtsam::ISAM2Result result = optimiser.update(extract_new_factors(max_key), extract_new_values(max_key));
     opt_key_ = max_key;
     update_from_values(optimiser.calculateEstimate());
-    const int new_marginalisation_key = opt_key_ - marginalisation_window_size;
-    if (marginalisation && marginalisation_key_ <= new_marginalisation_key) {
+    int new_marginalisation_key = opt_key_ - marginalisation_window_size;
+    if (keys.find("barometer") != keys.end()) {
+        // Optimisation does not wait for the barometer, and its next factors connect to the last barometer bias
+        int barometer_bias_key = opt_key_;
+        while (barometer_bias_key >= 0 && !values_.exists(P(barometer_bias_key))) {
+            --barometer_bias_key;
+        }
+        new_marginalisation_key = std::min(new_marginalisation_key, barometer_bias_key - 1);
+    }
+    if (marginalisation && marginalisation_key_ < new_marginalisation_key) {
         marginalise(new_marginalisation_key);
     }
     return result;
-- 
2.43.0


From 417219d8b98895a27cad993899bdb92507ecd0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:29 +0000
Subject: [PATCH 25/35] fix: marginalisation of stereo landmarks

Landmarks were marginalised according to their id, as if it were the key of a
state, and factors were added to marginalised landmarks and states. Landmarks are
now marginalised with the last state that observed them.
---
 .../serpent/back_end/graph_manager-inl.hpp    |  8 ++-
 .../serpent/back_end/graph_manager.hpp        |  6 +--
 serpent/src/back_end/graph_manager.cpp        | 49 ++++++++++---------
 3 files changed, 34 insertions(+), 29 deletions(-)

diff --git a/serpent/include/serpent/back_end/graph_manager-inl.hpp b/serpent/include/serpent/back_end/graph_manager-inl.hpp
index ebabbc4..c64a361 100644
--- a/serpent/include/serpent/back_end/graph_manager-inl.hpp
+++ b/serpent/include/serpent/back_end/graph_manager-inl.hpp
@@ -9,9 +9,13 @@ template<gtsam::Key (*KeyFunc)(std::uint64_t), typename ValueType>
 void GraphManager::add(const int key_, const ValueType& value_) {
     assert(key_ >= 0);
     const gtsam::Key raw_key = KeyFunc(key_);
-    values_.insert(raw_key, value_);
+    if (values_.exists(raw_key)) {
+        values_.update(raw_key, value_);
+    } else {
+        values_.insert(raw_key, value_);
+    }
     new_values_.insert(raw_key, value_);
-    unmarginalised_keys(key_).push_back(raw_key);
+    unmarginalised_keys_.emplace(raw_key, key_);
 }
 
 template<gtsam::Key (*KeyFunc)(std::uint64_t), typename ValueType>
diff --git a/serpent/include/serpent/back_end/graph_manager.hpp b/serpent/include/serpent/back_end/graph_manager.hpp
index aa23615..ab81e4a 100644
--- a/serpent/include/serpent/back_end/graph_manager.hpp
+++ b/serpent/include/serpent/back_end/graph_manager.hpp
@@ -404,8 +404,6 @@ protected:
 
     gtsam::NonlinearFactorGraph& new_factors(const int key);
 
-    gtsam::FastList<gtsam::Key>& unmarginalised_keys(const int key);
-
     template<gtsam::Key (*KeyFunc)(std::uint64_t), typename ValueType>
     void add(const int key, const ValueType& value);
 
@@ -459,8 +457,8 @@ protected:
     // New stereo landmark ids
     std::map<int, std::vector<int>> new_stereo_landmark_ids;
 
-    // Unmarginalised keys
-    std::map<int, gtsam::FastList<gtsam::Key>> unmarginalised_keys_;
+    // Unmarginalised keys (raw key -> key of the last state it is associated with)
+    std::map<gtsam::Key, int> unmarginalised_keys_;
 };
 
 class ISAM2GraphManager : public GraphManager {
diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index 7be424e..9b95137 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -142,11 +142,9 @@ void GraphManager::create_stereo_factors_and_values(
     auto& factors__ = factors(key_);
     auto& new_factors__ = new_factors(key_);
 
-    // Factors can only be created if the previous frame features were set
-    if (features_im1 != stereo_features.rend()) {
-        // Stereo features for frame before previous
-        const auto features_im2 = std::next(features_im1);
-
+    // Factors can only be created if the previous frame features were set (and its state is not marginalised)
+    if (features_im1 != stereo_features.rend() &&
+            unmarginalised_keys_.find(X(features_im1->first)) != unmarginalised_keys_.end()) {
         // Error handling
         if (!has_pose(key_)) {
             throw std::runtime_error(
@@ -163,9 +161,12 @@ void GraphManager::create_stereo_factors_and_values(
         auto& new_ids = new_ids_emplace_it.first->second;
         for (const auto& [id, feature] : features_i->second) {
             if (features_im1->second.find(id) != features_im1->second.end()) {
-                // Add feature and previous state factor if feature is tracked for the first time (not in i-2, in i-1)
-                if (features_im2 == stereo_features.rend() ||
-                        features_im2->second.find(id) == features_im2->second.end()) {
+                // Compute landmark position in world frame
+                const gtsam::Point3 landmark = camera.backproject(feature);
+
+                // Add feature and previous state factor if feature is tracked for the first time (or since its landmark
+                // was marginalised)
+                if (unmarginalised_keys_.find(S(id)) == unmarginalised_keys_.end()) {
                     // Previous state factor
                     auto stereo_factor = boost::make_shared<gtsam::GenericStereoFactor<gtsam::Pose3, gtsam::Point3>>(
                             features_im1->second.at(id), stereo_noise_model, X(features_im1->first), S(id), K,
@@ -176,12 +177,14 @@ void GraphManager::create_stereo_factors_and_values(
                     // Save id
                     ids.emplace_back(id);
                     new_ids.emplace_back(id);
-                }
 
-                // Compute landmark position in world frame
-                const gtsam::Point3 landmark = camera.backproject(feature);
-                // Update values
-                set<S>(id, landmark);
+                    // Add value
+                    add<S>(id, landmark);
+                } else {
+                    // Update value
+                    update(S(id), landmark);
+                }
+                unmarginalised_keys_[S(id)] = key_;
 
                 // Add current state factor if feature is in i-1
                 auto stereo_factor = boost::make_shared<gtsam::GenericStereoFactor<gtsam::Pose3, gtsam::Point3>>(
@@ -470,7 +473,9 @@ gtsam::Values GraphManager::values(const int first, const int last) const {
     auto it = stereo_landmark_ids.lower_bound(first);
     while (it != stereo_landmark_ids.end() && it->first <= last) {
         for (const int id : it->second) {
-            extracted_values.insert(S(id), values_.at(S(id)));
+            if (!extracted_values.exists(S(id))) {
+                extracted_values.insert(S(id), values_.at(S(id)));
+            }
         }
         ++it;
     }
@@ -547,11 +552,13 @@ gtsam::Values GraphManager::extract_new_values(const int max_key) {
 gtsam::FastList<gtsam::Key> GraphManager::extract_unmarginalised_keys(const int max_key) {
     gtsam::FastList<gtsam::Key> extracted_keys_;
     auto it = unmarginalised_keys_.begin();
-    while (it != unmarginalised_keys_.end() && it->first <= max_key) {
-        extracted_keys_.insert(extracted_keys_.end(), it->second.begin(), it->second.end());
-        // Remove the unmarginalised keys from the map without invalidating the iterator
-        auto it_ = it++;
-        unmarginalised_keys_.erase(it_);
+    while (it != unmarginalised_keys_.end()) {
+        if (it->second <= max_key) {
+            extracted_keys_.push_back(it->first);
+            it = unmarginalised_keys_.erase(it);
+        } else {
+            ++it;
+        }
     }
     return extracted_keys_;
 }
@@ -564,10 +571,6 @@ gtsam::NonlinearFactorGraph& GraphManager::new_factors(const int key_) {
     return new_factors_.emplace(key_, gtsam::NonlinearFactorGraph{}).first->second;
 }
 
-gtsam::FastList<gtsam::Key>& GraphManager::unmarginalised_keys(const int key_) {
-    return unmarginalised_keys_.emplace(key_, gtsam::FastList<gtsam::Key>{}).first->second;
-}
-
 ISAM2GraphManager::ISAM2GraphManager(const gtsam::ISAM2Params& isam2_params)
     : optimiser(isam2_params),
       opt_key_(-1),
-- 
2.43.0


From 34b2d4b4e6f91c762e6461fe4725ed5b22da6dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:27 +0000
Subject: [PATCH 26/35] fix: accept rotations of zero degrees in split_image

---
 camera_tools/src/split_image.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/camera_tools/src/split_image.cpp b/camera_tools/src/split_image.cpp
index 33fbef4..3c82036 100644
--- a/camera_tools/src/split_image.cpp
+++ b/camera_tools/src/split_image.cpp
@@ -63,10 +63,16 @@ void ImageSplitter::parse_configuration() {
             }
             for (XmlRpc::XmlRpcValue::const_iterator it = operations.begin(); it != operations.end(); ++it) {
                 if (it->first == "rotate_cw") {
-                    image_configs.back().operations.emplace_back(std::make_shared<Rotate>(it->second));
+                    // A rotation of zero degrees leaves the image as it is
+                    const int degrees = it->second;
+                    if (degrees != 0) {
+                        image_configs.back().operations.emplace_back(std::make_shared<Rotate>(degrees));
+                    }
                 } else if (it->first == "rotate_acw") {
-                    image_configs.back().operations.emplace_back(
-                            std::make_shared<Rotate>((360 - (int)it->second) % 360));
+                    const int degrees = (360 - (int)it->second) % 360;
+                    if (degrees != 0) {
+                        image_configs.back().operations.emplace_back(std::make_shared<Rotate>(degrees));
+                    }
                 } else if (it->first == "flip") {
                     const std::string flip_direction = it->second;
                     if (flip_direction == "horiz") {
-- 
2.43.0


From f6eb60a730a126ec92a60ce54a358ad79d7b4072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:27 +0000
Subject: [PATCH 27/35] fix: read rotation and translation variances from their
 places in the registration covariance

---
 serpent/scripts/metrics_node.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/serpent/scripts/metrics_node.py b/serpent/scripts/metrics_node.py
index 3bc1f81..c3ba24d 100755
--- a/serpent/scripts/metrics_node.py
+++ b/serpent/scripts/metrics_node.py
@@ -55,12 +55,12 @@ class MetricsCalculator(object):
         """
         if self.registration is None:
             return -1.0, -1.0, -1.0, -1.0, -1.0, -1.0
-        rx = self.registration.pose.covariance[0]
-        ry = self.registration.pose.covariance[7]
-        rz = self.registration.pose.covariance[14]
-        tx = self.registration.pose.covariance[21]
-        ty = self.registration.pose.covariance[28]
-        tz = self.registration.pose.covariance[35]
+        tx = self.registration.pose.covariance[0]
+        ty = self.registration.pose.covariance[7]
+        tz = self.registration.pose.covariance[14]
+        rx = self.registration.pose.covariance[21]
+        ry = self.registration.pose.covariance[28]
+        rz = self.registration.pose.covariance[35]
         return rx, ry, rz, tx, ty, tz
 
     def get_var_outlier(self):
-- 
2.43.0


From af0674899758a239055b074696325357b24ffb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:27 +0000
Subject: [PATCH 28/35] fix: relative pose angle of quaternions of opposite
 sign in metrics_node

---
 serpent/scripts/metrics_node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serpent/scripts/metrics_node.py b/serpent/scripts/metrics_node.py
index c3ba24d..97a5686 100755
--- a/serpent/scripts/metrics_node.py
+++ b/serpent/scripts/metrics_node.py
@@ -103,7 +103,8 @@ class MetricsCalculator(object):
                 pose2.orientation.w,
             ]
         )
-        dot = min(1, np.dot(q1, q2))
+        # q and -q are the same orientation
+        dot = min(1, abs(np.dot(q1, q2)))
         angle = 2 * np.arccos(dot)
         return norm, angle
 
-- 
2.43.0


From eb6771334f5c8d895c961e9f3902546a44499726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:11 +0000
Subject: [PATCH 29/35] fix: compute published metrics from one consistent set
 of messages

---
 serpent/scripts/metrics_node.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/serpent/scripts/metrics_node.py b/serpent/scripts/metrics_node.py
index 97a5686..812740c 100755
--- a/serpent/scripts/metrics_node.py
+++ b/serpent/scripts/metrics_node.py
@@ -7,6 +7,7 @@ from geometry_msgs.msg import PoseWithCovarianceStamped
 from nav_msgs.msg import Path
 import numpy as np
 import copy
+import threading
 
 
 class MetricsCalculator(object):
@@ -15,6 +16,8 @@ class MetricsCalculator(object):
         self.registration = None
         self.optimized_pose_curr = None
         self.optimized_pose_prev = None
+        # callbacks run on their own threads
+        self.mutex = threading.RLock()
 
         self.optimized_path_sub = rospy.Subscriber(
             "/serpent/output/path", Path, self.optimized_path_cb
@@ -33,14 +36,17 @@ class MetricsCalculator(object):
         rospy.loginfo("Initialized metrics node")
 
     def optimized_path_cb(self, msg):
-        self.optimized_path = msg
+        with self.mutex:
+            self.optimized_path = msg
 
     def optimized_pose_cb(self, msg):
-        self.optimized_pose_prev = copy.deepcopy(self.optimized_pose_curr)
-        self.optimized_pose_curr = msg
+        with self.mutex:
+            self.optimized_pose_prev = copy.deepcopy(self.optimized_pose_curr)
+            self.optimized_pose_curr = msg
 
     def registration_cb(self, msg):
-        self.registration = msg
+        with self.mutex:
+            self.registration = msg
 
     def add_metric(self, name, unit, value, metrics_message):
         metric = Dictionary()
@@ -205,7 +211,8 @@ def main():
     metrics_calculator = MetricsCalculator()
     rate = rospy.Rate(2)
     while not rospy.is_shutdown():
-        metrics = metrics_calculator.get_metrics()
+        with metrics_calculator.mutex:
+            metrics = metrics_calculator.get_metrics()
         metrics_calculator.publish_metrics(metrics)
         rate.sleep()
 
-- 
2.43.0


From 3cd530b39b1a0d224e93405c8032e36085d3b24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:00 +0000
Subject: [PATCH 30/35] fix: initialise the sums of stereo matching windows

---
 serpent/src/front_end/stereo/window_functions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serpent/src/front_end/stereo/window_functions.cpp b/serpent/src/front_end/stereo/window_functions.cpp
index 14fc361..20d98cf 100644
--- a/serpent/src/front_end/stereo/window_functions.cpp
+++ b/serpent/src/front_end/stereo/window_functions.cpp
@@ -10,7 +10,7 @@ bool window_within_image(const cv::Mat& image, const cv::Point2i& top_left, cons
 }
 
 double window_sum(const cv::Mat& image, const cv::Point2i& top_left, const cv::Size& window) {
-    double sum;
+    double sum{0.0};
     for (int row = 0; row < window.height; ++row) {
         for (int col = 0; col < window.width; ++col) {
             sum += static_cast<double>(image.at<unsigned char>(top_left.y + row, top_left.x + col));
@@ -24,7 +24,7 @@ double window_mean(const cv::Mat& image, const cv::Point2i& top_left, const cv::
 }
 
 double window_sum_squares(const cv::Mat& image, const cv::Point2i& top_left, const cv::Size& window) {
-    double squares;
+    double squares{0.0};
     for (int row = 0; row < window.height; ++row) {
         for (int col = 0; col < window.width; ++col) {
             squares += std::pow(static_cast<double>(image.at<unsigned char>(top_left.y + row, top_left.x + col)), 2.0);
-- 
2.43.0


From d8e6a12a01266155ec37e16ce0ccdcb1fab7050e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:00 +0000
Subject: [PATCH 31/35] fix: compare the best stereo match with the second best
 in the ratio test

---
 serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
index 65cece7..50742da 100644
--- a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
+++ b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
@@ -69,6 +69,8 @@ cv::KeyPoint StereoKeyPointMatcher::keypoint_in_other_image(const cv::KeyPoint&
             second_cost = cost;
             cost = window_cost;
             min_cost_top_left_x = search_image_top_left.x;
+        } else if (window_cost < second_cost) {
+            second_cost = window_cost;
         }
         search_image_top_left.x += increment;
     }
@@ -153,6 +155,8 @@ int StereoKeyPointMatcher::keypoint_index_in_other_image(const cv::KeyPoint& ima
                     second_cost = cost;
                     cost = window_cost;
                     min_cost_index = i;
+                } else if (window_cost < second_cost) {
+                    second_cost = window_cost;
                 }
             }
         }
-- 
2.43.0


From 3f3132f182c05cb988897776dad783534f77494c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:00 +0000
Subject: [PATCH 32/35] fix: set all stereo tracker statistics for the first
 frame

---
 serpent/src/front_end/stereo/stereo_feature_tracker.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serpent/src/front_end/stereo/stereo_feature_tracker.cpp b/serpent/src/front_end/stereo/stereo_feature_tracker.cpp
index 5a5cf07..583baf6 100644
--- a/serpent/src/front_end/stereo/stereo_feature_tracker.cpp
+++ b/serpent/src/front_end/stereo/stereo_feature_tracker.cpp
@@ -83,6 +83,8 @@ StereoFeatureTracker::LRKeyPointMatches StereoFeatureTracker::process(const cv::
         ROS_DEBUG_STREAM("Extracted keypoints for " << (lr == 0 ? "left" : "right") << " image");
         if (stats) {
             stats->get().extracted_kp_count[lr] = new_keypoints[lr].size();
+            stats->get().filtered_extracted_kp_count[lr] = new_keypoints[lr].size();
+            stats->get().tracked_kp_count[lr] = 0;
         }
         if (intermediate_images) {
             cv::drawKeypoints(images[lr], new_keypoints[lr], intermediate_images->get().extracted_keypoints[lr],
-- 
2.43.0


From 7773306d5e8d1f464295ac3035cc8b22583bf546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 33/35] fix: leave values that no factor constrains out of the
 solver

---
 serpent/src/back_end/graph_manager.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index 9b95137..4791ca0 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -640,8 +640,20 @@ void ISAM2GraphManager::marginalise(const int key_) {
 }
 
 gtsam::ISAM2Result ISAM2GraphManager::optimise(const int max_key) {
+    // Values that no factor constrains yet (e.g. velocities when IMU factors are disabled) are not part of the problem:
+    // Dogleg fails if they are, since they have no gradient. They are kept until they are first constrained.
+    const gtsam::NonlinearFactorGraph added_factors = extract_new_factors(max_key);
+    gtsam::Values constrained_values = extract_new_values(max_key);
+    const gtsam::KeySet constrained_keys = added_factors.keys();
+    for (const gtsam::Key key_ : constrained_values.keys()) {
+        if (!constrained_keys.exists(key_)) {
+            new_values_.insert(key_, constrained_values.at(key_));
+            constrained_values.erase(key_);
+        }
+    }
+
     // Update the optimiser with new factors and new values
-    const gtsam::ISAM2Result result = optimiser.update(extract_new_factors(max_key), extract_new_values(max_key));
+    const gtsam::ISAM2Result result = optimiser.update(added_factors, constrained_values);
     opt_key_ = max_key;
     update_from_values(optimiser.calculateEstimate());
     int new_marginalisation_key = opt_key_ - marginalisation_window_size;
-- 
2.43.0


From 32703a7d70973a3932c9706cecf7fa02df0b29aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 34/35] fix: remove points without a normal

---
 .../front_end/lidar/pointcloud_normal_estimation-inl.hpp     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/serpent/include/serpent/front_end/lidar/pointcloud_normal_estimation-inl.hpp b/serpent/include/serpent/front_end/lidar/pointcloud_normal_estimation-inl.hpp
index dce36b6..42f9b43 100644
--- a/serpent/include/serpent/front_end/lidar/pointcloud_normal_estimation-inl.hpp
+++ b/serpent/include/serpent/front_end/lidar/pointcloud_normal_estimation-inl.hpp
@@ -1,6 +1,7 @@
 #ifndef SERPENT_IMPL_POINTCLOUD_NORMAL_ESTIMATION_HPP
 #define SERPENT_IMPL_POINTCLOUD_NORMAL_ESTIMATION_HPP
 
+#include <pcl/filters/filter.h>
 #include <pcl_ros/point_cloud.h>
 
 #include <pointcloud_tools/pclpointcloud_utilities.hpp>
@@ -75,6 +76,10 @@ void PointcloudNormalEstimation<PointIn, PointOut>::normal_estimation_callback(
     // Copy other fields
     pcl::copyPointCloud(*pointcloud_in, *pointcloud_out);
 
+    // Remove points with too few neighbours to have a normal, which would make the registration covariance invalid
+    pcl::Indices indices;
+    pcl::removeNaNNormalsFromPointCloud(*pointcloud_out, *pointcloud_out, indices);
+
     // Publish pointcloud
     normal_pointcloud_publisher.publish(pointcloud_out);
 }
-- 
2.43.0


From 51a93a3bacc07aad44a69eba690e9a259736bfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 35/35] fix: search organised clouds in three dimensions for
 outliers

---
 serpent/src/front_end/lidar/pointcloud_filter.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/serpent/src/front_end/lidar/pointcloud_filter.cpp b/serpent/src/front_end/lidar/pointcloud_filter.cpp
index a0880c4..45c1bb4 100644
--- a/serpent/src/front_end/lidar/pointcloud_filter.cpp
+++ b/serpent/src/front_end/lidar/pointcloud_filter.cpp
@@ -127,7 +127,12 @@ void PointcloudFilter::range_filter_callback(const pcl::PCLPointCloud2::ConstPtr
 }
 
 void PointcloudFilter::statistical_outlier_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
-    statistical_outlier_pointcloud_publisher.publish(filter(msg, sor_filter));
+    // PCL searches organised pointclouds as though a camera produced them, which is wrong for those of a LiDAR
+    auto unorganised_msg = boost::make_shared<pcl::PCLPointCloud2>(*msg);
+    unorganised_msg->width = msg->width * msg->height;
+    unorganised_msg->height = 1;
+    unorganised_msg->row_step = unorganised_msg->width * unorganised_msg->point_step;
+    statistical_outlier_pointcloud_publisher.publish(filter(unorganised_msg, sor_filter));
 }
 
 void PointcloudFilter::voxel_grid_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
-- 
2.43.0

