#include "spec.h"
#include "local_planner/local_planner_nodelet.h"
#include "local_planner/local_planner.h"
#include "local_planner/planner_functions.h"
#include "local_planner/tree_node.h"
#include "local_planner/waypoint_generator.h"
#include "avoidance/common.h"
#include <cmath>
using namespace avoidance;
using Eigen::Vector2f;
using Eigen::Vector3f;
typedef LocalPlannerNodelet N;
namespace spec {
size_t numTransformedClouds(N* self) {
  size_t n = 0;
  for (auto& c : self->cameras_) n += c.transformed_ ? 1 : 0;
  return n;
}
// C32: what a planning cycle works on
void updatePlannerInfo(N* self) {
  LocalPlanner* p = self->local_planner_.get();
  p->original_cloud_vector_.resize(self->cameras_.size());
  for (size_t i = 0; i < self->cameras_.size(); ++i) {
    cameraData& c = self->cameras_[i];
    std::swap(p->original_cloud_vector_[i], c.transformed_cloud_);
    c.transformed_cloud_.clear();
    c.transformed_ = false;
    p->setFOV(i, c.fov_fcu_frame_);
    self->wp_generator_->setFOV(i, c.fov_fcu_frame_);
  }
  p->setState(self->newest_position_, self->velocity_, self->newest_orientation_);
  p->currently_armed_ = self->armed_;
  if (self->new_goal_) {
    p->setGoal(self->goal_position_);
    p->setPreviousGoal(self->prev_goal_position_);
    self->new_goal_ = false;
  }
  p->last_sent_waypoint_ = self->newest_waypoint_position_;
  p->px4_ = self->avoidance_node_->getPX4Parameters();
  p->mission_item_speed_ = self->avoidance_node_->getMissionItemSpeed();
}
void positionCallback(N* self, const geometry_msgs::PoseStamped& m) {
  self->position_received_ = true;
  self->last_position_ = self->newest_position_;
  self->newest_orientation_ = toEigen(m.pose.orientation);
  self->newest_position_ = toEigen(m.pose.position);
}
void velocityCallback(N* self, const geometry_msgs::TwistStamped& m) { self->velocity_ = toEigen(m.twist.linear); }
// C32
void stateCallback(N* self, const mavros_msgs::State& m) {
  self->armed_ = m.armed;
  NavigationState s = NavigationState::none;
  if (m.mode == "OFFBOARD") s = NavigationState::offboard;
  if (m.mode == "AUTO.LOITER") s = NavigationState::auto_loiter;
  if (m.mode == "AUTO.RTGS") s = NavigationState::auto_rtgs;
  if (m.mode == "AUTO.RTL") s = NavigationState::auto_rtl;
  if (m.mode == "AUTO.LAND") s = NavigationState::auto_land;
  if (m.mode == "AUTO.TAKEOFF") s = NavigationState::auto_takeoff;
  if (m.mode == "AUTO.MISSION") s = NavigationState::mission;
  self->nav_state_ = s;
}
// C02
void cmdLoopCallback(N* self, const ros::TimerEvent&) {
  self->hover_ = false;
  const ros::Time begin = ros::Time::now();
  while (!self->position_received_ && ros::ok()) {
    ros::getGlobalCallbackQueue()->callAvailable(ros::WallDuration(0.1));
    const ros::Duration waited = ros::Time::now() - begin;
    if (waited > ros::Duration(self->local_planner_->timeout_termination_)) {
      self->setSystemStatus(MAV_STATE::MAV_STATE_FLIGHT_TERMINATION);
      if (!self->position_not_received_error_sent_) self->position_not_received_error_sent_ = true;
    }
  }
  const ros::Time now = ros::Time::now();
  self->checkFailsafe(now - self->last_wp_time_, now - self->start_time_, self->hover_);
  if (self->avoidance_node_->getSystemStatus() == MAV_STATE::MAV_STATE_ACTIVE) self->calculateWaypoints(self->hover_);
  self->position_received_ = false;
}
void setSystemStatus(N* self, MAV_STATE s) { self->avoidance_node_->setSystemStatus(s); }
MAV_STATE getSystemStatus(N* self) { return self->avoidance_node_->getSystemStatus(); }
void checkFailsafe(N* self, ros::Duration age, ros::Duration uptime, bool& hover) { self->avoidance_node_->checkFailsafe(age, uptime, hover); }
// C02, C05, C34: what is sent to the flight controller
void calculateWaypoints(N* self, bool hover) {
  self->wp_generator_->updateState(self->newest_position_, self->newest_orientation_, self->goal_position_, self->prev_goal_position_, self->velocity_, hover,
                                   self->armed_ && self->nav_state_ != NavigationState::none, self->nav_state_, self->is_land_waypoint_, self->is_takeoff_waypoint_, self->desired_velocity_);
  const waypointResult r = self->wp_generator_->getWaypoints();
  Vector3f closest(NAN, NAN, NAN), deg60(NAN, NAN, NAN);
  self->wp_generator_->getOfftrackPointsForVisualization(closest, deg60);
  const Vector3f last = self->newest_waypoint_position_, last_adapted = self->newest_adapted_waypoint_position_;
  self->last_waypoint_position_ = last;
  self->newest_waypoint_position_ = r.smoothed_goto_position;
  self->last_adapted_waypoint_position_ = last_adapted;
  self->newest_adapted_waypoint_position_ = r.adapted_goto_position;
  self->visualizer_.visualizeWaypoints(r.goto_position, r.adapted_goto_position, r.smoothed_goto_position);
  self->visualizer_.publishPaths(self->last_position_, self->newest_position_, last, r.smoothed_goto_position, last_adapted, r.adapted_goto_position);
  const geometry_msgs::Twist twist = toTwist(r.linear_velocity_wp, r.angular_velocity_wp);
  self->visualizer_.publishCurrentSetpoint(twist, r.waypoint_type, self->newest_position_);
  self->visualizer_.publishOfftrackPoints(closest, deg60);
  const geometry_msgs::PoseStamped pose = toPoseStamped(r.position_wp, r.orientation_wp);
  mavros_msgs::Trajectory t = {};
  transformToTrajectory(t, pose, twist);
  self->mavros_pos_setpoint_pub_.publish(toPoseStamped(r.position_wp, r.orientation_wp));
  self->mavros_obstacle_free_path_pub_.publish(t);
}
// C32: goals
void clickedGoalCallback(N* self, const geometry_msgs::PoseStamped& m) {
  self->prev_goal_position_ = self->goal_position_;
  Vector3f g = toEigen(m.pose.position);
  g.z() = self->local_planner_->getGoal().z();
  self->goal_position_ = g;
  self->new_goal_ = true;
}
void updateGoalCallback(N* self, const visualization_msgs::MarkerArray& m) {
  if (!self->accept_goal_input_topic_ || m.markers.empty()) return;
  self->new_goal_ = true;
  self->prev_goal_position_ = self->goal_position_;
  self->goal_position_ = toEigen(m.markers[0].pose.position);
}
void fcuInputGoalCallback(N* self, const mavros_msgs::Trajectory& m) {
  const bool moved = (toEigen(m.point_2.position) - toEigen(self->goal_mission_item_msg_.pose.position)).norm() > 0.01;
  const bool unset = !std::isfinite(self->goal_position_.x()) || !std::isfinite(self->goal_position_.y());
  if (m.point_valid[0] && (moved || unset)) {
    self->is_land_waypoint_ = m.command[0] == static_cast<int>(MavCommand::MAV_CMD_NAV_LAND);
    self->is_takeoff_waypoint_ = m.command[0] == static_cast<int>(MavCommand::MAV_CMD_NAV_TAKEOFF);
    self->prev_goal_position_ = self->goal_position_;
    self->goal_position_ = toEigen(m.point_1.position);
    self->desired_velocity_ = toEigen(m.point_1.velocity);
    self->new_goal_ = true;
  }
  if (!m.point_valid[1]) return;
  self->desired_yaw_setpoint_ = m.point_2.yaw;
  self->desired_yaw_speed_setpoint_ = m.point_2.yaw_rate;
  self->goal_mission_item_msg_.pose.position = m.point_2.position;
  if (m.command[1] == UINT16_MAX) {
    self->desired_velocity_ = Vector3f(NAN, NAN, NAN);
    self->goal_position_ = toEigen(m.point_2.position);
  }
}
void distanceSensorCallback(N* self, const mavros_msgs::Altitude& m) {
  if (std::isnan(m.bottom_clearance)) return;
  self->ground_distance_msg_ = m;
}
// C21, C32: clouds
void pointCloudCallback(N* self, const sensor_msgs::PointCloud2::ConstPtr& msg, int i) {
  cameraData& c = self->cameras_[i];
  if (c.received_ && msg->header.stamp - pcl_conversions::fromPCL(c.untransformed_cloud_.header.stamp) < ros::Duration(0.3)) return;
  pcl::fromROSMsg(*msg, c.untransformed_cloud_);
  c.received_ = true;
  c.camera_cv_->notify_all();
  if (c.transform_registered_) return;
  c.transform_registered_ = true;
  std::pair<std::string, std::string> world, body;
  world.first = body.first = msg->header.frame_id;
  world.second = "local_origin";
  body.second = "fcu";
  self->buffered_transforms_.push_back(world);
  self->buffered_transforms_.push_back(body);
}
void dynamicReconfigureCallback(N* self, LocalPlannerNodeConfig& c, uint32_t level) {
  self->local_planner_->dynamicReconfigureSetParams(c, level);
  self->wp_generator_->setSmoothingSpeed(c.smoothing_speed_xy_, c.smoothing_speed_z_);
  self->rqt_param_config_ = c;
}
// C04: gate
void publishLaserScan(const N* self) {
  if (self->local_planner_->px4_.param_cp_dist < 0) return;
  sensor_msgs::LaserScan m;
  self->local_planner_->getObstacleDistanceData(m);
  if (m.angle_increment > 0.f) self->mavros_obstacle_distance_pub_.publish(m);
}
void transformBufferThread(N* self) {
  while (!self->should_exit_) {
    for (size_t k = 0; k < self->buffered_transforms_.size(); k++) {
      const std::string &from = self->buffered_transforms_[k].first, &to = self->buffered_transforms_[k].second;
      tf::StampedTransform t;
      if (self->tf_listener_->canTransform(to, from, ros::Time(0))) {
        self->tf_listener_->lookupTransform(to, from, ros::Time(0), t);
        self->tf_buffer_.insertTransform(from, to, t);
      }
    }
    self->tf_buffer_cv_.notify_all();
    std::this_thread::sleep_for(std::chrono::milliseconds(5));
  }
}
void startNode(N* self) {
  ros::TimerOptions o(ros::Duration(self->spin_dt_), boost::bind(&LocalPlannerNodelet::cmdLoopCallback, self, _1), &self->cmdloop_queue_);
  self->cmdloop_timer_ = self->nh_.createTimer(o);
  self->cmdloop_spinner_.reset(new ros::AsyncSpinner(1, &self->cmdloop_queue_));
  self->cmdloop_spinner_->start();
  self->avoidance_node_->init();
}
void readParams(N* self) {
  Eigen::Vector3d g = self->goal_position_.cast<double>();
  self->nh_private_.param<double>("goal_x_param", g.x(), 0.0);
  self->nh_private_.param<double>("goal_y_param", g.y(), 0.0);
  self->nh_private_.param<double>("goal_z_param", g.z(), 0.0);
  self->nh_private_.param<bool>("accept_goal_input_topic", self->accept_goal_input_topic_, false);
  self->goal_position_ = g.cast<float>();
  std::vector<std::string> topics;
  self->nh_private_.getParam(self->getName() + "/pointcloud_topics", topics);
  self->initializeCameraSubscribers(topics);
  self->new_goal_ = true;
}
// C32, C04: one planning cycle per complete set of transformed clouds
void threadFunction(N* self) {
  for (; !self->should_exit_;) {
    const ros::Time begin = ros::Time::now();
    while ((self->cameras_.size() == 0 || self->cameras_.size() != self->numTransformedClouds()) && !self->should_exit_) {
      std::unique_lock<std::mutex> l(self->transformed_cloud_mutex_);
      self->transformed_cloud_cv_.wait_for(l, std::chrono::milliseconds(5000));
    }
    if (self->should_exit_) return;
    self->updatePlannerInfo();
    self->local_planner_->runPlanner();
    self->visualizer_.visualizePlannerData(*self->local_planner_, self->newest_waypoint_position_, self->newest_adapted_waypoint_position_, self->newest_position_, self->newest_orientation_);
    self->publishLaserScan();
    self->wp_generator_->setPlannerInfo(self->local_planner_->getAvoidanceOutput());
    self->last_wp_time_ = ros::Time::now();
    if (self->should_exit_) return;
    const ros::Duration rest = ros::Duration(self->spin_dt_) - (self->last_wp_time_ - begin);
    if (rest > ros::Duration(0)) rest.sleep();
  }
}
// C21: clouds are handed on in the local frame, the field of view in the body frame
void pointCloudTransformThread(N* self, int i) {
  while (!self->should_exit_) {
    cameraData& c = self->cameras_[i];
    bool no_transform = false, no_cloud = false;
    if (!c.received_) {
      no_cloud = true;
    } else {
      tf::StampedTransform world, body;
      const ros::Time stamp = pcl_conversions::fromPCL(c.untransformed_cloud_.header.stamp);
      if (self->tf_buffer_.getTransform(c.untransformed_cloud_.header.frame_id, "local_origin", stamp, world) &&
          self->tf_buffer_.getTransform(c.untransformed_cloud_.header.frame_id, "fcu", stamp, body)) {
        pcl::PointCloud<pcl::PointXYZ> maxima = removeNaNAndGetMaxima(c.untransformed_cloud_);
        pcl_ros::transformPointCloud(maxima, maxima, body);
        updateFOVFromMaxima(c.fov_fcu_frame_, maxima);
        pcl_ros::transformPointCloud(c.untransformed_cloud_, c.transformed_cloud_, world);
        c.transformed_cloud_.header.frame_id = "local_origin";
        c.transformed_cloud_.header.stamp = c.untransformed_cloud_.header.stamp;
        c.transformed_ = true;
        c.received_ = false;
        no_cloud = true;
        self->transformed_cloud_cv_.notify_all();
      } else {
        no_transform = true;
      }
    }
    if (self->should_exit_) return;
    if (no_transform) {
      std::unique_lock<std::mutex> l(self->buffered_transforms_mutex_);
      self->tf_buffer_cv_.wait_for(l, std::chrono::milliseconds(5000));
    } else if (no_cloud) {
      std::unique_lock<std::mutex> l(*c.camera_mutex_);
      c.camera_cv_->wait_for(l, std::chrono::milliseconds(5000));
    }
  }
}
void initializeCameraSubscribers(N* self, std::vector<std::string>& topics) {
  self->cameras_.resize(topics.size());
  for (size_t i = 0; i < topics.size(); i++) {
    cameraData& c = self->cameras_[i];
    c.camera_mutex_.reset(new std::mutex);
    c.camera_cv_.reset(new std::condition_variable);
    c.received_ = false;
    c.transformed_ = false;
    c.pointcloud_sub_ = self->nh_.subscribe<sensor_msgs::PointCloud2>(topics[i], 1, boost::bind(&LocalPlannerNodelet::pointCloudCallback, self, _1, i));
    c.topic_ = topics[i];
    c.transform_thread_ = std::thread(&LocalPlannerNodelet::pointCloudTransformThread, self, i);
  }
}
// wiring of the node: topics, callbacks, initial state
void InitializeNodelet(N* self) {
  self->nh_ = ros::NodeHandle("");
  self->nh_private_ = ros::NodeHandle("~");
  self->local_planner_.reset(new LocalPlanner());
  self->wp_generator_.reset(new WaypointGenerator());
  self->avoidance_node_.reset(new AvoidanceNode(self->nh_, self->nh_private_));
#ifndef DISABLE_SIMULATION
  self->world_visualizer_.reset(new WorldVisualizer(self->nh_, self->getName()));
#endif
  self->readParams();
  self->tf_listener_ = new tf::TransformListener(ros::Duration(tf::Transformer::DEFAULT_CACHE_TIME), true);
  ros::NodeHandle& nh = self->nh_;
  self->pose_sub_ = nh.subscribe<const geometry_msgs::PoseStamped&>("mavros/local_position/pose", 1, &N::positionCallback, self);
  self->velocity_sub_ = nh.subscribe<const geometry_msgs::TwistStamped&>("mavros/local_position/velocity_local", 1, &N::velocityCallback, self);
  self->state_sub_ = nh.subscribe("mavros/state", 1, &N::stateCallback, self);
  self->clicked_point_sub_ = nh.subscribe("clicked_point", 1, &N::clickedPointCallback, self);
  self->clicked_goal_sub_ = nh.subscribe("move_base_simple/goal", 1, &N::clickedGoalCallback, self);
  self->fcu_input_sub_ = nh.subscribe("mavros/trajectory/desired", 1, &N::fcuInputGoalCallback, self);
  self->goal_topic_sub_ = nh.subscribe("input/goal_position", 1, &N::updateGoalCallback, self);
  self->distance_sensor_sub_ = nh.subscribe("mavros/altitude", 1, &N::distanceSensorCallback, self);
  self->mavros_vel_setpoint_pub_ = nh.advertise<geometry_msgs::Twist>("mavros/setpoint_velocity/cmd_vel_unstamped", 10);
  self->mavros_pos_setpoint_pub_ = nh.advertise<geometry_msgs::PoseStamped>("mavros/setpoint_position/local", 10);
  self->mavros_obstacle_free_path_pub_ = nh.advertise<mavros_msgs::Trajectory>("mavros/trajectory/generated", 10);
  self->mavros_obstacle_distance_pub_ = nh.advertise<sensor_msgs::LaserScan>("mavros/obstacle/send", 10);
  self->visualizer_.initializePublishers(nh);
  self->local_planner_->applyGoal();
  self->setSystemStatus(MAV_STATE::MAV_STATE_BOOT);
  self->hover_ = false;
  self->planner_is_healthy_ = true;
  self->armed_ = false;
  self->start_time_ = ros::Time::now();
}
void onInit(N* self) {
  self->InitializeNodelet();
  self->startNode();
  self->worker = std::thread(&N::threadFunction, self);
  self->worker_tf_listener = std::thread(&N::transformBufferThread, self);
  self->server_ = new dynamic_reconfigure::Server<avoidance::LocalPlannerNodeConfig>(self->config_mutex_, self->getPrivateNodeHandle());
  self->server_->setCallback(boost::bind(&N::dynamicReconfigureCallback, self, _1, _2));
}
}
