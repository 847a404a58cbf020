From 688e14e7e0f51fab62847cc9cdb5676496ae6646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:13 +0000
Subject: [PATCH 01/24] fix: SLP trajectory setpoint validity tests position.z
 and velocity.z separately

The closing parenthesis of std::isfinite was misplaced: isfinite(z || isfinite(vz)) is
always true, so a setpoint without any finite height was flagged valid.
---
 safe_landing_planner/src/nodes/waypoint_generator_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index bf8887c..8b0f0bb 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -157,7 +157,7 @@ void WaypointGeneratorNode::publishTrajectorySetpoints(const Eigen::Vector3f &po
   bool xy_vel_sp_valid = std::isfinite(setpoint.point_1.velocity.x) && std::isfinite(setpoint.point_1.velocity.y);
 
   if ((xy_pos_sp_valid || xy_vel_sp_valid) &&
-      (std::isfinite(setpoint.point_1.position.z || std::isfinite(setpoint.point_1.velocity.z)))) {
+      (std::isfinite(setpoint.point_1.position.z) || std::isfinite(setpoint.point_1.velocity.z))) {
     setpoint.point_valid = {true, false, false, false, false};
   } else {
     setpoint.point_valid = {false, false, false, false, false};
-- 
2.43.0


From 6dcb9f90079dfe15c21e3eb5c5014db7489ec778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:13 +0000
Subject: [PATCH 02/24] fix: SLP node creates the mutexes and condition
 variable before starting the worker that uses them

---
 safe_landing_planner/src/nodes/safe_landing_planner_node.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
index c60eeed..415ccee 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
@@ -65,11 +65,11 @@ void SafeLandingPlannerNode::rawGridCallback(const safe_landing_planner::SLPGrid
 }
 
 void SafeLandingPlannerNode::startNode() {
-  // initialize thread
-  worker_ = std::thread(&SafeLandingPlannerNode::pointCloudTransformThread, this);
   cloud_msg_mutex_.reset(new std::mutex);
   transformed_cloud_mutex_.reset(new std::mutex);
   cloud_ready_cv_.reset(new std::condition_variable);
+  // initialize thread
+  worker_ = std::thread(&SafeLandingPlannerNode::pointCloudTransformThread, this);
 
   ros::TimerOptions timer_options(ros::Duration(spin_dt_),
                                   boost::bind(&SafeLandingPlannerNode::cmdLoopCallback, this, _1), &cmdloop_queue_);
-- 
2.43.0


From d88ca43fa67964f510843557c432da7e9f3d2f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:13 +0000
Subject: [PATCH 03/24] fix: global planner passes margin and iteration limit
 to simplifyPath in the declared order

---
 global_planner/src/nodes/global_planner_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 877907b..a9f8cee 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -374,7 +374,7 @@ void GlobalPlannerNode::publishPath() {
   setCurrentPath(path_msg.poses);
   smooth_path_pub_.publish(smoothPath(path_msg));
 
-  auto simple_path = simplifyPath(&global_planner_, global_planner_.curr_path_, simplify_iterations_, simplify_margin_);
+  auto simple_path = simplifyPath(&global_planner_, global_planner_.curr_path_, simplify_margin_, simplify_iterations_);
   auto simple_path_msg = global_planner_.getPathMsg(simple_path);
   global_temp_path_pub_.publish(simple_path_msg);
   setCurrentPath(simple_path_msg.poses);
-- 
2.43.0


From 94f1ccf5f7891d4380a62ab59378ced61e34eda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:13 +0000
Subject: [PATCH 04/24] fix: Node::getXYRotation tests the other node's own
 step for vertical movement

---
 global_planner/src/library/node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/library/node.cpp b/global_planner/src/library/node.cpp
index 6f631f0..f8173e2 100644
--- a/global_planner/src/library/node.cpp
+++ b/global_planner/src/library/node.cpp
@@ -65,7 +65,7 @@ double Node::getRotation(const Node& other) const {
 double Node::getXYRotation(const Node& other) const {
   Cell this_diff = (cell_ - parent_);
   Cell other_diff = (other.cell_ - other.parent_);
-  if ((this_diff.xIndex() == 0 && this_diff.yIndex() == 0) || (other_diff.xIndex() == 0 && this_diff.yIndex() == 0)) {
+  if ((this_diff.xIndex() == 0 && this_diff.yIndex() == 0) || (other_diff.xIndex() == 0 && other_diff.yIndex() == 0)) {
     return 0.0;  // Vertical movement
   }
   double this_ang = this_diff.angle();
-- 
2.43.0


From b356783df1b1cd46d09c8bc44800a0ea95f6a9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:13 +0000
Subject: [PATCH 05/24] fix: altitude prior below the first bin uses the first
 bin

index was compared as an unsigned value, so a negative height took the prior of the highest altitude.
---
 global_planner/src/library/global_planner.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index d04f49f..679767e 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -163,10 +163,10 @@ double GlobalPlanner::getSingleCellRisk(const Cell& cell) {
 double GlobalPlanner::getAltPrior(const Cell& cell) {
   int index = std::round(cell.zPos());
 
-  if (index > alt_prior_.size() - 1) {
-    return alt_prior_.back();
-  } else if (index < 0) {
+  if (index < 0) {
     return alt_prior_.front();
+  } else if (index > alt_prior_.size() - 1) {
+    return alt_prior_.back();
   } else {
     return alt_prior_.at(index);
   }
-- 
2.43.0


From fd9d23d13d92ee683f0d2d5b0c51f12f9c3665d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:13 +0000
Subject: [PATCH 06/24] fix: AvoidanceNode stops, wakes and joins its parameter
 polling thread before it is destroyed

Destroying the joinable std::thread terminated the process.
---
 avoidance/include/avoidance/avoidance_node.h |  7 ++++++-
 avoidance/src/avoidance_node.cpp             | 17 +++++++++++------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/avoidance/include/avoidance/avoidance_node.h b/avoidance/include/avoidance/avoidance_node.h
index 9cbb0e4..2dc93ab 100644
--- a/avoidance/include/avoidance/avoidance_node.h
+++ b/avoidance/include/avoidance/avoidance_node.h
@@ -10,6 +10,9 @@
 #include "avoidance/common.h"
 #include "mavros_msgs/CompanionProcessStatus.h"
 
+#include <atomic>
+#include <condition_variable>
+#include <mutex>
 #include <thread>
 
 namespace avoidance {
@@ -77,7 +80,9 @@ class AvoidanceNode {
   double timeout_startup_;
 
   bool position_received_;
-  bool should_exit_;
+  std::atomic<bool> should_exit_;
+  std::mutex exit_mutex_;
+  std::condition_variable exit_cv_;
 
   float mission_item_speed_;
 
diff --git a/avoidance/src/avoidance_node.cpp b/avoidance/src/avoidance_node.cpp
index 75881ec..b08351f 100644
--- a/avoidance/src/avoidance_node.cpp
+++ b/avoidance/src/avoidance_node.cpp
@@ -15,7 +15,14 @@ AvoidanceNode::AvoidanceNode(const ros::NodeHandle& nh, const ros::NodeHandle& n
   param_cb_mutex_.reset(new std::mutex);
 }
 
-AvoidanceNode::~AvoidanceNode() {}
+AvoidanceNode::~AvoidanceNode() {
+  {
+    std::lock_guard<std::mutex> lock(exit_mutex_);
+    should_exit_ = true;
+  }
+  exit_cv_.notify_all();
+  if (worker_.joinable()) worker_.join();
+}
 
 void AvoidanceNode::init() {
   mavros_system_status_pub_ = nh_.advertise<mavros_msgs::CompanionProcessStatus>("mavros/companion_process/status", 1);
@@ -157,11 +164,9 @@ void AvoidanceNode::checkPx4Parameters() {
           !std::isfinite(px4_.param_mpc_yawrauto_max);
     }
 
-    if (is_param_not_initialized) {
-      std::this_thread::sleep_for(std::chrono::seconds(5));
-    } else {
-      std::this_thread::sleep_for(std::chrono::seconds(30));
-    }
+    std::unique_lock<std::mutex> lock(exit_mutex_);
+    exit_cv_.wait_for(lock, std::chrono::seconds(is_param_not_initialized ? 5 : 30),
+                      [this] { return should_exit_.load(); });
   }
 }
 
-- 
2.43.0


From fbe261882198b6611a6f3e7b4341a53eefa5ecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:06 +0000
Subject: [PATCH 07/24] fix: a field of view spanning the +-180 degree azimuth
 contains the directions inside it

Both edges were wrapped separately, so for a camera looking backwards the lower edge became
larger than the upper one and no direction was ever inside.
---
 avoidance/src/common.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/avoidance/src/common.cpp b/avoidance/src/common.cpp
index 9a8e21a..35506cc 100644
--- a/avoidance/src/common.cpp
+++ b/avoidance/src/common.cpp
@@ -18,8 +18,7 @@ bool pointInsideFOV(const std::vector<FOV>& fov_vec, const PolarPoint& p_pol) {
 }
 
 bool pointInsideFOV(const FOV& fov, const PolarPoint& p_pol) {
-  return p_pol.z <= wrapAngleToPlusMinus180(fov.yaw_deg + fov.h_fov_deg / 2.f) &&
-         p_pol.z >= wrapAngleToPlusMinus180(fov.yaw_deg - fov.h_fov_deg / 2.f) &&
+  return pointInsideYawFOV(fov, p_pol) &&
          p_pol.e <= fov.pitch_deg + fov.v_fov_deg / 2.f && p_pol.e >= fov.pitch_deg - fov.v_fov_deg / 2.f;
 }
 
@@ -64,8 +63,7 @@ bool pointInsideYawFOV(const std::vector<FOV>& fov_vec, const PolarPoint& p_pol)
 }
 
 bool pointInsideYawFOV(const FOV& fov, const PolarPoint& p_pol) {
-  return p_pol.z <= wrapAngleToPlusMinus180(fov.yaw_deg + fov.h_fov_deg / 2.f) &&
-         p_pol.z >= wrapAngleToPlusMinus180(fov.yaw_deg - fov.h_fov_deg / 2.f);
+  return std::abs(wrapAngleToPlusMinus180(p_pol.z - fov.yaw_deg)) <= fov.h_fov_deg / 2.f;
 }
 
 bool isInWhichFOV(const std::vector<FOV>& fov_vec, const PolarPoint& p_pol, int& idx) {
-- 
2.43.0


From 5631b9d445d3eef4c5b049b7b354d3506e230af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:30 +0000
Subject: [PATCH 08/24] fix: a maximum of zero height-step neighbours no longer
 makes every cell unlandable

The two successive selects rewrote a cell marked 1 to 0 whenever
max_n_mean_diff_cells was 0.
---
 safe_landing_planner/src/nodes/safe_landing_planner.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner.cpp b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
index 66849cf..0ba7896 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
@@ -122,8 +122,7 @@ void SafeLandingPlanner::isLandingPossible() {
 
     // threshold each cell based on the number of cells in the neighborhood with
     // mean value difference greater than mean_diff_thr_
-    mean_accumulator = (mean_accumulator.array() <= max_n_mean_diff_cells_).select(1, mean_accumulator);
-    mean_accumulator = (mean_accumulator.array() > max_n_mean_diff_cells_).select(0, mean_accumulator);
+    mean_accumulator = (mean_accumulator.array() <= max_n_mean_diff_cells_).cast<int>();
 
     // logical AND between mean_accumulator and land_accumulator
     land_accumulator = mean_accumulator.cwiseProduct(land_accumulator);
-- 
2.43.0


From b13cbff9667853129c4b2ec48879d68d323b46ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:30 +0000
Subject: [PATCH 09/24] fix: the raw grid callback resizes the previous grid
 too and sets the limits from the new size

---
 safe_landing_planner/src/nodes/safe_landing_planner.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner.cpp b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
index 0ba7896..d9a292b 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
@@ -55,11 +55,12 @@ void SafeLandingPlanner::processRawGrid() {
   grid_seq_ = raw_grid_.header.seq;
   std::swap(previous_grid_, grid_);
   grid_.reset();
-  grid_.setFilterLimits(position_);
 
   if (grid_.getGridSize() != raw_grid_.grid_size || grid_.getCellSize() != raw_grid_.cell_size) {
     grid_.resize(raw_grid_.grid_size, raw_grid_.cell_size);
+    previous_grid_.resize(raw_grid_.grid_size, raw_grid_.cell_size);
   }
+  grid_.setFilterLimits(position_);
 
   for (int i = 0; i < raw_grid_.mean.layout.dim[0].size; i++) {
     for (int j = 0; j < raw_grid_.mean.layout.dim[1].size; j++) {
-- 
2.43.0


From 339656358598c72dfbe23bf81a2a86cf8a1b0be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:30 +0000
Subject: [PATCH 10/24] fix: the landing area percentile index stays inside the
 collected altitudes

---
 safe_landing_planner/src/nodes/waypoint_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator.cpp b/safe_landing_planner/src/nodes/waypoint_generator.cpp
index f6dd9cf..522463f 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator.cpp
@@ -337,6 +337,6 @@ float WaypointGenerator::landingAreaHeightPercentile(float percentile) {
 
   std::sort(altitude_landing_area.begin(), altitude_landing_area.end());
   int index = static_cast<int>(std::round(percentile / 100.f * altitude_landing_area.size()));
-  return altitude_landing_area[index];
+  return altitude_landing_area[std::min(index, static_cast<int>(altitude_landing_area.size()) - 1)];
 }
 }
-- 
2.43.0


From 6d04353d6704f30b980692da869a485d48e5241e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:00 +0000
Subject: [PATCH 11/24] fix: WaypointGenerator::setSmoothingSpeed takes the
 mutex that guards the smoothing speeds

---
 local_planner/include/local_planner/waypoint_generator.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/local_planner/include/local_planner/waypoint_generator.h b/local_planner/include/local_planner/waypoint_generator.h
index 15b7c0b..0564106 100644
--- a/local_planner/include/local_planner/waypoint_generator.h
+++ b/local_planner/include/local_planner/waypoint_generator.h
@@ -173,6 +173,7 @@ class WaypointGenerator : public usm::StateMachine<PlannerState> {
   * @param[in] smoothing_speed_z, set to 0 to disable
   **/
   void setSmoothingSpeed(float smoothing_speed_xy, float smoothing_speed_z) {
+    std::lock_guard<std::mutex> lock(running_mutex_);
     smoothing_speed_xy_ = smoothing_speed_xy;
     smoothing_speed_z_ = smoothing_speed_z;
   }
-- 
2.43.0


From be03a05f457aaf665216fe939d8a7f1f40eb1826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:01 +0000
Subject: [PATCH 12/24] fix: the SLP flag shared by the cloud thread and the
 command loop is atomic

---
 .../include/safe_landing_planner/safe_landing_planner_node.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp b/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp
index 00b7fd0..4213b6d 100644
--- a/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp
+++ b/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp
@@ -84,7 +84,7 @@ class SafeLandingPlannerNode {
   SafeLandingPlannerVisualization visualizer_;
 
   bool position_received_ = false;
-  bool cloud_transformed_ = false;
+  std::atomic<bool> cloud_transformed_{false};
   double spin_dt_ = 0.1;
 
   dynamic_reconfigure::Server<safe_landing_planner::SafeLandingPlannerNodeConfig> server_;
-- 
2.43.0


From 56f4b667420ae425ac4c1064a65d4d267f38a995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:01 +0000
Subject: [PATCH 13/24] fix: SafeLandingPlannerNode stops its spinner and its
 cloud thread before its members are destroyed

---
 .../safe_landing_planner_node.hpp                   |  2 +-
 .../src/nodes/safe_landing_planner_node.cpp         | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp b/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp
index 4213b6d..cc85f58 100644
--- a/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp
+++ b/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp
@@ -29,7 +29,7 @@ namespace avoidance {
 class SafeLandingPlannerNode {
  public:
   SafeLandingPlannerNode(const ros::NodeHandle& nh);
-  ~SafeLandingPlannerNode() = default;
+  ~SafeLandingPlannerNode();
 
   std::unique_ptr<SafeLandingPlanner> safe_landing_planner_;
 
diff --git a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
index 415ccee..393c2d0 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
@@ -37,6 +37,17 @@ SafeLandingPlannerNode::SafeLandingPlannerNode(const ros::NodeHandle &nh) : nh_(
   start_time_ = ros::Time::now();
 }
 
+SafeLandingPlannerNode::~SafeLandingPlannerNode() {
+  if (cmdloop_spinner_) cmdloop_spinner_->stop();
+
+  should_exit_ = true;
+  if (cloud_msg_mutex_ && cloud_ready_cv_) {
+    std::lock_guard<std::mutex> lck(*(cloud_msg_mutex_));
+    cloud_ready_cv_->notify_all();
+  }
+  if (worker_.joinable()) worker_.join();
+}
+
 void SafeLandingPlannerNode::dynamicReconfigureCallback(safe_landing_planner::SafeLandingPlannerNodeConfig &config,
                                                         uint32_t level) {
   rqt_param_config_ = config;
@@ -209,7 +220,7 @@ void SafeLandingPlannerNode::pointCloudTransformThread() {
   while (!should_exit_) {
     {
       std::unique_lock<std::mutex> cloud_msg_lock(*(cloud_msg_mutex_));
-      cloud_ready_cv_->wait(cloud_msg_lock);
+      if (!should_exit_) cloud_ready_cv_->wait(cloud_msg_lock);
     }
     while (cloud_transformed_ == false) {
       if (should_exit_) break;
-- 
2.43.0


From 11e2c66f04a56c34f4d795f748d7444a8bc96e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:01 +0000
Subject: [PATCH 14/24] fix: nodes stop their spinners before the members their
 callbacks use are destroyed

---
 global_planner/src/nodes/global_planner_node.cpp             | 5 ++++-
 local_planner/src/nodes/local_planner_nodelet.cpp            | 2 ++
 .../include/safe_landing_planner/waypoint_generator_node.hpp | 4 +++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index a9f8cee..e6b932b 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -69,7 +69,10 @@ GlobalPlannerNode::GlobalPlannerNode(const ros::NodeHandle& nh, const ros::NodeH
   start_time_ = ros::Time::now();
 }
 
-GlobalPlannerNode::~GlobalPlannerNode() {}
+GlobalPlannerNode::~GlobalPlannerNode() {
+  if (cmdloop_spinner_) cmdloop_spinner_->stop();
+  if (plannerloop_spinner_) plannerloop_spinner_->stop();
+}
 
 // Read Ros parameters
 void GlobalPlannerNode::readParams() {
diff --git a/local_planner/src/nodes/local_planner_nodelet.cpp b/local_planner/src/nodes/local_planner_nodelet.cpp
index 9e83709..3727475 100644
--- a/local_planner/src/nodes/local_planner_nodelet.cpp
+++ b/local_planner/src/nodes/local_planner_nodelet.cpp
@@ -18,6 +18,8 @@ namespace avoidance {
 LocalPlannerNodelet::LocalPlannerNodelet() : tf_buffer_(5.f), spin_dt_(0.1) {}
 
 LocalPlannerNodelet::~LocalPlannerNodelet() {
+  if (cmdloop_spinner_) cmdloop_spinner_->stop();
+
   should_exit_ = true;
   {
     std::lock_guard<std::mutex> guard(buffered_transforms_mutex_);
diff --git a/safe_landing_planner/include/safe_landing_planner/waypoint_generator_node.hpp b/safe_landing_planner/include/safe_landing_planner/waypoint_generator_node.hpp
index 2d5a2c1..975283f 100644
--- a/safe_landing_planner/include/safe_landing_planner/waypoint_generator_node.hpp
+++ b/safe_landing_planner/include/safe_landing_planner/waypoint_generator_node.hpp
@@ -22,7 +22,9 @@ namespace avoidance {
 class WaypointGeneratorNode final {
  public:
   WaypointGeneratorNode(const ros::NodeHandle& nh);
-  ~WaypointGeneratorNode() = default;
+  ~WaypointGeneratorNode() {
+    if (cmdloop_spinner_) cmdloop_spinner_->stop();
+  }
 
   /**
   * @brief spins node
-- 
2.43.0


From 08521ccb93e8d1a4b51f6758708bc6d1bed8dda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:22 +0000
Subject: [PATCH 15/24] fix: the global planner survives a missing map and a
 map message that is no OcTree

---
 global_planner/include/global_planner/global_planner.h | 4 ++--
 global_planner/src/library/global_planner.cpp          | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/global_planner/include/global_planner/global_planner.h b/global_planner/include/global_planner/global_planner.h
index eaf464c..78107c0 100644
--- a/global_planner/include/global_planner/global_planner.h
+++ b/global_planner/include/global_planner/global_planner.h
@@ -145,8 +145,8 @@ class GlobalPlanner {
   void setRobotRadius(double radius);
 
  private:
-  double robot_radius_;
-  double octree_resolution_;
+  double robot_radius_ = 0.5;
+  double octree_resolution_ = 1.0;
 };
 
 }  // namespace global_planner
diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index 679767e..c8faf21 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -72,7 +72,11 @@ void GlobalPlanner::updateFullOctomap(octomap::AbstractOcTree* tree) {
     delete octree_;
   }
   octree_ = dynamic_cast<octomap::OcTree*>(tree);
-  octree_resolution_ = octree_->getResolution();
+  if (octree_) {
+    octree_resolution_ = octree_->getResolution();
+  } else {
+    delete tree;  // Not an OcTree, the planner has no map
+  }
 }
 
 // TODO: simplify and return neighbors
-- 
2.43.0


From acd6480335c5315b00f22d92e388c83753218f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:22 +0000
Subject: [PATCH 16/24] fix: use_current_yaw_ = false makes the global search
 ignore the current yaw

---
 global_planner/src/library/global_planner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index c8faf21..d96bfea 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -424,7 +424,7 @@ bool GlobalPlanner::findPath(std::vector<Cell>& path) {
   // behind the start cell Cell parent_of_s = Cell(curr_pos_);
   Cell parent_of_s(subtractPoints(curr_pos_, scalePoint(curr_vel_, search_time_)));
   if (!use_current_yaw_) {
-    Cell parent_of_s = s;  // Ignore the current yaw
+    parent_of_s = s;  // Ignore the current yaw
   }
 
   ROS_INFO("Planning a path from %s to %s", s.asString().c_str(), t.asString().c_str());
-- 
2.43.0


From c96d2f2dad2d72e9b89135896596bd8f6531f3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:22 +0000
Subject: [PATCH 17/24] fix: the 2D fallback search keeps the configured
 iteration limit for later searches

---
 global_planner/src/library/global_planner.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index d96bfea..b1db02d 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -476,8 +476,10 @@ bool GlobalPlanner::findPath(std::vector<Cell>& path) {
   // Last resort, try 2d search at max_altitude_
   if (!found_path) {
     printf("No path found, search in 2D \n");
+    int configured_iterations = max_iterations_;
     max_iterations_ = 5000;
     found_path = find2DPath(this, path, s, t, parent_of_s, max_altitude_);
+    max_iterations_ = configured_iterations;
   }
 
   return found_path;
-- 
2.43.0


From d86fe1584c68f5c39b488d711644645610faea28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:22 +0000
Subject: [PATCH 18/24] fix: the risk heuristic reads the accumulated altitude
 prior only inside its range

---
 global_planner/src/library/global_planner.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index b1db02d..64e4c2a 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -259,8 +259,10 @@ double GlobalPlanner::riskHeuristic(const Cell& u, const Cell& goal) {
   double unexplored_risk = (1.0 + 6.0 * neighbor_risk_flow_) * explore_penalty_ * risk_factor_;
   double xy_dist = u.diagDistance2D(goal) - 1.0;  // XY distance excluding the goal cell
   double xy_risk = xy_dist * unexplored_risk * getAltPrior(u);
-  double z_risk =
-      unexplored_risk * std::abs(accumulated_alt_prior_[u.zIndex()] - accumulated_alt_prior_[goal.zIndex()]);
+  int max_index = accumulated_alt_prior_.size() - 1;
+  int u_index = std::max(0, std::min(u.zIndex(), max_index));
+  int goal_index = std::max(0, std::min(goal.zIndex(), max_index));
+  double z_risk = unexplored_risk * std::abs(accumulated_alt_prior_[u_index] - accumulated_alt_prior_[goal_index]);
   // TODO: instead of subtracting 1 from the xy_dist, subtract 1 from the
   // combined xy and z dist
   double goal_risk = getRisk(goal) * risk_factor_;
-- 
2.43.0


From d7ed25e704148e3f8e92eef02800c9e90afdb113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:22 +0000
Subject: [PATCH 19/24] fix: cell size and node settings take effect when
 several parameters change together

---
 global_planner/src/nodes/global_planner_node.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index e6b932b..3ede654 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -189,12 +189,12 @@ void GlobalPlannerNode::dynamicReconfigureCallback(global_planner::GlobalPlanner
   simplify_margin_ = config.simplify_margin_;
 
   // cell
-  if (level == 2) {
+  if (level & 2) {
     CELL_SCALE = config.CELL_SCALE;
   }
 
   // node
-  if (level == 4) {
+  if (level & 4) {
     SPEEDNODE_RADIUS = config.SPEEDNODE_RADIUS;
     global_planner_.default_node_type_ = config.default_node_type_;
   }
-- 
2.43.0


From 45ef9e5dcb465129691723c3a97d6ee2165fc4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:22 +0000
Subject: [PATCH 20/24] fix: new risk parameters discard the risks cached with
 the old ones

---
 global_planner/src/nodes/global_planner_node.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 3ede654..23c6807 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -158,6 +158,7 @@ void GlobalPlannerNode::setIntermediateGoal() {
 }
 
 void GlobalPlannerNode::dynamicReconfigureCallback(global_planner::GlobalPlannerNodeConfig& config, uint32_t level) {
+  std::lock_guard<std::mutex> lock(mutex_);
   // global_planner_
   global_planner_.min_altitude_ = config.min_altitude_;
   global_planner_.max_altitude_ = config.max_altitude_;
@@ -198,6 +199,9 @@ void GlobalPlannerNode::dynamicReconfigureCallback(global_planner::GlobalPlanner
     SPEEDNODE_RADIUS = config.SPEEDNODE_RADIUS;
     global_planner_.default_node_type_ = config.default_node_type_;
   }
+
+  // The cached risks were computed with the previous parameters
+  global_planner_.risk_cache_.clear();
 }
 
 void GlobalPlannerNode::velocityCallback(const geometry_msgs::TwistStamped& msg) {
-- 
2.43.0


From 99ed4e4d957f2e36d85c4ff07de5d44e8cd30a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:22 +0000
Subject: [PATCH 21/24] fix: global planner callbacks take the mutex that
 guards the planner against the planning thread

---
 global_planner/src/nodes/global_planner_node.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 23c6807..a516c17 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -205,11 +205,13 @@ void GlobalPlannerNode::dynamicReconfigureCallback(global_planner::GlobalPlanner
 }
 
 void GlobalPlannerNode::velocityCallback(const geometry_msgs::TwistStamped& msg) {
+  std::lock_guard<std::mutex> lock(mutex_);
   global_planner_.curr_vel_ = msg.twist.linear;
 }
 
 // Sets the current position and checks if the current goal has been reached
 void GlobalPlannerNode::positionCallback(const geometry_msgs::PoseStamped& msg) {
+  std::lock_guard<std::mutex> lock(mutex_);
   // Update position
   last_pos_ = msg;
   global_planner_.setPose(last_pos_);
@@ -246,6 +248,7 @@ void GlobalPlannerNode::positionCallback(const geometry_msgs::PoseStamped& msg)
 }
 
 void GlobalPlannerNode::clickedPointCallback(const geometry_msgs::PointStamped& msg) {
+  std::lock_guard<std::mutex> lock(mutex_);
   printPointInfo(msg.point.x, msg.point.y, msg.point.z);
 
   geometry_msgs::PoseStamped pose;
@@ -256,10 +259,12 @@ void GlobalPlannerNode::clickedPointCallback(const geometry_msgs::PointStamped&
 }
 
 void GlobalPlannerNode::moveBaseSimpleCallback(const geometry_msgs::PoseStamped& msg) {
+  std::lock_guard<std::mutex> lock(mutex_);
   setNewGoal(GoalCell(msg.pose.position.x, msg.pose.position.y, clicked_goal_alt_, clicked_goal_radius_));
 }
 
 void GlobalPlannerNode::fcuInputGoalCallback(const mavros_msgs::Trajectory& msg) {
+  std::lock_guard<std::mutex> lock(mutex_);
   const GoalCell new_goal = GoalCell(msg.point_2.position.x, msg.point_2.position.y, msg.point_2.position.z, 1.0);
   if (msg.point_valid[1] == true && ((std::fabs(global_planner_.goal_pos_.xPos() - new_goal.xPos()) > 0.001) ||
                                      (std::fabs(global_planner_.goal_pos_.yPos() - new_goal.yPos()) > 0.001))) {
@@ -297,6 +302,7 @@ void GlobalPlannerNode::depthCameraCallback(const sensor_msgs::PointCloud2& msg)
     pcl::fromROSMsg(transformed_msg, cloud);
 
     // Store the obstacle points
+    std::lock_guard<std::mutex> lock(mutex_);
     for (const auto& p : cloud) {
       if (!std::isnan(p.x)) {
         // TODO: Not all points end up here
-- 
2.43.0


From 4bf61e4fc04e89f0bd3e0c78eac13261ad965674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:30 +0000
Subject: [PATCH 22/24] fix: the setpoint loop reads the planner and its risk
 cache only when the planning thread does not use it

---
 global_planner/src/nodes/global_planner_node.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index a516c17..5ab924b 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -403,7 +403,10 @@ void GlobalPlannerNode::printPointInfo(double x, double y, double z) {
 void GlobalPlannerNode::publishSetpoint() {
   // Vector pointing from current position to the current goal
   tf::Vector3 vec = toTfVector3(subtractPoints(current_goal_.pose.position, last_pos_.pose.position));
-  if (global_planner_.use_speedup_heuristics_) {
+  std::unique_lock<std::mutex> lock(mutex_, std::try_to_lock);
+  if (!lock.owns_lock()) {
+    // The planning thread is using the planner: do not delay the setpoint, keep the last speed
+  } else if (global_planner_.use_speedup_heuristics_) {
     Cell cur_cell =
         global_planner::Cell(last_pos_.pose.position.x, last_pos_.pose.position.y, last_pos_.pose.position.z);
     double cur_risk = std::sqrt(global_planner_.getRisk(cur_cell));
-- 
2.43.0


From abdacccae92fc471a409c6f366154579ef5d8c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:27 +0000
Subject: [PATCH 23/24] fix: SPEEDNODE_RADIUS is one variable, so reconfiguring
 it reaches the planner library

---
 global_planner/include/global_planner/node.h | 2 +-
 global_planner/src/library/node.cpp          | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/global_planner/include/global_planner/node.h b/global_planner/include/global_planner/node.h
index 49c134f..4b98df1 100644
--- a/global_planner/include/global_planner/node.h
+++ b/global_planner/include/global_planner/node.h
@@ -67,7 +67,7 @@ class NodeWithoutSmooth : public Node {
   double getRotation(const Node& other) const { return 0.0; }
 };
 
-static double SPEEDNODE_RADIUS = 5.0;
+extern double SPEEDNODE_RADIUS;  // one variable for all source files, set by the node
 // Node represents 3D position, orientation and speed
 // TODO: Needs to check the risk of Cells between cell and parent
 class SpeedNode : public Node {
diff --git a/global_planner/src/library/node.cpp b/global_planner/src/library/node.cpp
index f8173e2..dafcaf2 100644
--- a/global_planner/src/library/node.cpp
+++ b/global_planner/src/library/node.cpp
@@ -2,6 +2,8 @@
 
 namespace global_planner {
 
+double SPEEDNODE_RADIUS = 5.0;
+
 bool Node::isSmaller(const Node& other) const {
   return cell_ < other.cell_ || (cell_ == other.cell_ && parent_ < other.parent_);
 }
-- 
2.43.0


From 85950c8f842772cff9c714a392f7bea31e34235c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:27 +0000
Subject: [PATCH 24/24] fix: risk based speed-up follows its own parameter

---
 global_planner/src/nodes/global_planner_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 5ab924b..8766596 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -406,7 +406,7 @@ void GlobalPlannerNode::publishSetpoint() {
   std::unique_lock<std::mutex> lock(mutex_, std::try_to_lock);
   if (!lock.owns_lock()) {
     // The planning thread is using the planner: do not delay the setpoint, keep the last speed
-  } else if (global_planner_.use_speedup_heuristics_) {
+  } else if (global_planner_.use_risk_based_speedup_) {
     Cell cur_cell =
         global_planner::Cell(last_pos_.pose.position.x, last_pos_.pose.position.y, last_pos_.pose.position.z);
     double cur_risk = std::sqrt(global_planner_.getRisk(cur_cell));
-- 
2.43.0

