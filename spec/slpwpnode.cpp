#include "spec.h"
#include "safe_landing_planner/waypoint_generator.hpp"
#include "safe_landing_planner/waypoint_generator_node.hpp"
#include "avoidance/common.h"
using namespace avoidance;
using Eigen::Vector3f;
typedef WaypointGeneratorNode N;
namespace spec {
void WaypointGeneratorNode_ctor(N* self, const ros::NodeHandle& nh) {
  self->nh_ = nh;
  self->waypointGenerator_.initializeMask();
  self->server_.setCallback(boost::bind(&N::dynamicReconfigureCallback, self, _1, _2));
  self->pose_sub_ = self->nh_.subscribe<const geometry_msgs::PoseStamped&>("mavros/local_position/pose", 1, &N::positionCallback, self);
  self->trajectory_sub_ = self->nh_.subscribe("mavros/trajectory/desired", 1, &N::trajectoryCallback, self);
  self->state_sub_ = self->nh_.subscribe("mavros/state", 1, &N::stateCallback, self);
  self->grid_sub_ = self->nh_.subscribe("grid_slp", 1, &N::gridCallback, self);
  self->trajectory_pub_ = self->nh_.advertise<mavros_msgs::Trajectory>("mavros/trajectory/generated", 10);
  self->land_hysteresis_pub_ = self->nh_.advertise<visualization_msgs::MarkerArray>("land_hysteresis", 1);
  self->marker_goal_pub_ = self->nh_.advertise<visualization_msgs::Marker>("goal_position", 1);
  self->waypointGenerator_.publishTrajectorySetpoints_ = [self](const Vector3f& p, const Vector3f& v, float y, float r) { self->publishTrajectorySetpoints(p, v, y, r); };
}
void startNode(N* self) {
  ros::TimerOptions o(ros::Duration(self->spin_dt_), boost::bind(&N::cmdLoopCallback, self, _1), &self->cmdloop_queue_);
  self->cmdloop_timer_ = self->nh_.createTimer(o);
  self->cmdloop_spinner_.reset(new ros::AsyncSpinner(1, &self->cmdloop_queue_));
  self->cmdloop_spinner_->start();
}
void cmdLoopCallback(N* self, const ros::TimerEvent&) {
  while (!self->grid_received_ && ros::ok()) ros::getGlobalCallbackQueue()->callAvailable(ros::WallDuration(0.1));
  self->waypointGenerator_.calculateWaypoint();
  self->landingAreaVisualization();
  self->goalVisualization();
  self->grid_received_ = false;
}
// C25
void dynamicReconfigureCallback(N* self, safe_landing_planner::WaypointGeneratorNodeConfig& c, uint32_t level) {
  WaypointGenerator& w = self->waypointGenerator_;
  w.spiral_width_ = static_cast<float>(c.spiral_width);
  w.vertical_range_error_ = static_cast<float>(c.vertical_range_error);
  w.smoothing_land_cell_ = c.smoothing_land_cell;
  w.loiter_height_ = static_cast<float>(c.loiter_height);
  w.can_land_thr_ = static_cast<float>(c.can_land_thr);
  w.beta_ = static_cast<float>(c.beta);
  if (w.mask_.rows() != 2 * c.smoothing_land_cell + 1) w.update_smoothing_size_ = true;
}
void positionCallback(N* self, const geometry_msgs::PoseStamped& m) {
  self->waypointGenerator_.position_ = toEigen(m.pose.position);
  double roll, pitch, yaw;
  tf::Quaternion q(m.pose.orientation.x, m.pose.orientation.y, m.pose.orientation.z, m.pose.orientation.w);
  tf::Matrix3x3(q).getRPY(roll, pitch, yaw);
  self->waypointGenerator_.yaw_ = static_cast<float>(yaw);
}
void trajectoryCallback(N* self, const mavros_msgs::Trajectory& m) {
  WaypointGenerator& w = self->waypointGenerator_;
  const bool moved = (toEigen(m.point_2.position) - self->goal_visualization_).norm() > 0.01;
  if (m.point_valid[0] && (moved || std::isnan(w.goal_.x()) || std::isnan(w.goal_.y()))) {
    w.is_land_waypoint_ = m.command[1] == static_cast<int>(MavCommand::MAV_CMD_NAV_LAND);
    w.velocity_setpoint_ = toEigen(m.point_1.velocity);
    w.goal_ = toEigen(m.point_1.position);
  }
  if (!m.point_valid[1]) return;
  w.yaw_setpoint_ = m.point_2.yaw;
  w.yaw_speed_setpoint_ = m.point_2.yaw_rate;
  self->goal_visualization_ = toEigen(m.point_2.position);
}
// C11, C32: landing only in land mode or on a mission land item, reset otherwise
void stateCallback(N* self, const mavros_msgs::State& m) {
  WaypointGenerator& w = self->waypointGenerator_;
  const bool land = m.mode == "AUTO.LAND", mission = m.mode == "AUTO.MISSION";
  if (m.armed && land) w.is_land_waypoint_ = true;
  if (!m.armed || (!land && !mission)) {
    w.is_land_waypoint_ = false;
    w.trigger_reset_ = true;
  }
}
// C15: reader
void gridCallback(N* self, const safe_landing_planner::SLPGridMsg& m) {
  WaypointGenerator& w = self->waypointGenerator_;
  if (w.grid_slp_.getGridSize() != m.grid_size || w.grid_slp_.getCellSize() != m.cell_size) w.grid_slp_.resize(m.grid_size, m.cell_size);
  w.grid_slp_seq_ = m.header.seq;
  const int rows = m.mean.layout.dim[0].size, cols = m.mean.layout.dim[1].size;
  for (int i = 0; i < rows; i++)
    for (int j = 0; j < cols; j++) {
      w.grid_slp_.land_(i, j) = m.land.data[i * cols + j];
      w.grid_slp_.mean_(i, j) = m.mean.data[i * cols + j];
    }
  w.pos_index_ = Eigen::Vector2i(static_cast<int>(m.curr_pos_index.x), static_cast<int>(m.curr_pos_index.y));
  w.grid_slp_.setFilterLimits(w.position_);
  self->grid_received_ = true;
}
// C05
void fillUnusedTrajectorySetpoints(N* self, mavros_msgs::PositionTarget& p) {
  p.position.x = p.position.y = p.position.z = NAN;
  p.velocity.x = p.velocity.y = p.velocity.z = NAN;
  p.acceleration_or_force.x = p.acceleration_or_force.y = p.acceleration_or_force.z = NAN;
  p.yaw = p.yaw_rate = NAN;
}
void publishTrajectorySetpoints(N* self, const Vector3f& pos, const Vector3f& vel, float yaw, float yaw_rate) {
  mavros_msgs::Trajectory t;
  t.header.stamp = ros::Time::now();
  t.header.frame_id = "local_origin";
  t.type = 0;
  t.point_1.position.x = pos.x(), t.point_1.position.y = pos.y(), t.point_1.position.z = pos.z();
  t.point_1.velocity.x = vel.x(), t.point_1.velocity.y = vel.y(), t.point_1.velocity.z = vel.z();
  t.point_1.acceleration_or_force.x = t.point_1.acceleration_or_force.y = t.point_1.acceleration_or_force.z = NAN;
  t.point_1.yaw = yaw;
  t.point_1.yaw_rate = yaw_rate;
  self->fillUnusedTrajectorySetpoints(t.point_2);
  self->fillUnusedTrajectorySetpoints(t.point_3);
  self->fillUnusedTrajectorySetpoints(t.point_4);
  self->fillUnusedTrajectorySetpoints(t.point_5);
  t.time_horizon = {NAN, NAN, NAN, NAN, NAN};
  const bool xy = (std::isfinite(pos.x()) && std::isfinite(pos.y())) || (std::isfinite(vel.x()) && std::isfinite(vel.y()));
  const bool z = std::isfinite(pos.z()) || std::isfinite(vel.z());
  t.point_valid = {xy && z, false, false, false, false};
  self->trajectory_pub_.publish(t);
}
}
