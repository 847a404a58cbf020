#include "spec.h"
#include "avoidance/avoidance_node.h"
#include <cfloat>
#include <cmath>
using namespace avoidance;
namespace spec {
// C01, C26: start state
void AvoidanceNode_ctor(AvoidanceNode* self, const ros::NodeHandle& nh, const ros::NodeHandle& nh_private) {
  self->timeout_termination_ = 15;
  self->timeout_critical_ = 0.5;
  self->timeout_startup_ = 5.0;
  self->position_received_ = true;
  self->should_exit_ = false;
  self->mission_item_speed_ = NAN;
  self->companion_state_ = MAV_STATE::MAV_STATE_STANDBY;
  self->px4_ = ModelParameters();
  self->cmdloop_dt_ = 0.1;
  self->statusloop_dt_ = 0.2;
}
void setSystemStatus(AvoidanceNode* self, MAV_STATE s) { self->companion_state_ = s; }
MAV_STATE getSystemStatus(AvoidanceNode* self) { return self->companion_state_; }
// C03
void publishSystemStatus(AvoidanceNode* self) {
  mavros_msgs::CompanionProcessStatus m;
  m.header.stamp = ros::Time::now();
  m.component = 196;
  m.state = static_cast<int>(self->companion_state_);
  self->mavros_system_status_pub_.publish(m);
}
void statusLoopCallback(AvoidanceNode* self, const ros::TimerEvent&) { self->publishSystemStatus(); }
// C01: the failsafe table
void checkFailsafe(AvoidanceNode* self, ros::Duration age, ros::Duration uptime, bool& hover) {
  const ros::Duration termination(self->timeout_termination_), critical(self->timeout_critical_), startup(self->timeout_startup_);
  if (age > termination && uptime > termination) {
    self->companion_state_ = MAV_STATE::MAV_STATE_FLIGHT_TERMINATION;
    return;
  }
  if (age > critical && uptime > startup) {
    if (!self->position_received_) return;
    hover = true;
    self->companion_state_ = MAV_STATE::MAV_STATE_CRITICAL;
    return;
  }
  if (!hover) self->companion_state_ = MAV_STATE::MAV_STATE_ACTIVE;
}
// C26: every name updates its own field from the field of the right type
void px4ParamsCallback(AvoidanceNode* self, const mavros_msgs::Param& m) {
  ModelParameters& p = self->px4_;
  const std::string& id = m.param_id;
  const float x = m.value.real;
  if (id == "MPC_ACC_DOWN_MAX") p.param_mpc_acc_down_max = x;
  if (id == "MPC_ACC_HOR") p.param_mpc_acc_hor = x;
  if (id == "MPC_ACC_UP_MAX") p.param_mpc_acc_up_max = x;
  if (id == "MPC_AUTO_MODE") p.param_mpc_auto_mode = m.value.integer;
  if (id == "MPC_JERK_MIN") p.param_mpc_jerk_min = x;
  if (id == "MPC_JERK_MAX") p.param_mpc_jerk_max = x;
  if (id == "MPC_LAND_SPEED") p.param_mpc_land_speed = x;
  if (id == "MPC_TKO_SPEED") p.param_mpc_tko_speed = x;
  if (id == "MPC_XY_CRUISE") p.param_mpc_xy_cruise = x;
  if (id == "MPC_Z_VEL_MAX_DN") p.param_mpc_z_vel_max_dn = x;
  if (id == "MPC_Z_VEL_MAX_UP") p.param_mpc_z_vel_max_up = x;
  if (id == "CP_DIST") p.param_cp_dist = x;
  if (id == "NAV_ACC_RAD") p.param_nav_acc_rad = x;
  if (id == "MPC_YAWRAUTO_MAX") p.param_mpc_yawrauto_max = x;
}
static void poll(AvoidanceNode* self, const std::string& name, float& field) {
  mavros_msgs::ParamGet q;
  q.request.param_id = name;
  const bool answered = self->get_px4_param_client_.call(q);
  if (answered && q.response.success) field = q.response.value.real;
}
void checkPx4Parameters(AvoidanceNode* self) {
  while (!self->should_exit_) {
    ModelParameters& p = self->px4_;
    poll(self, "MPC_ACC_HOR", p.param_mpc_acc_hor);
    poll(self, "MPC_ACC_DOWN_MAX", p.param_mpc_acc_down_max);
    poll(self, "MPC_ACC_UP_MAX", p.param_mpc_acc_up_max);
    poll(self, "MPC_XY_CRUISE", p.param_mpc_xy_cruise);
    poll(self, "MPC_Z_VEL_MAX_DN", p.param_mpc_z_vel_max_dn);
    poll(self, "MPC_Z_VEL_MAX_UP", p.param_mpc_z_vel_max_up);
    poll(self, "CP_DIST", p.param_cp_dist);
    poll(self, "MPC_LAND_SPEED", p.param_mpc_land_speed);
    poll(self, "MPC_JERK_MAX", p.param_mpc_jerk_max);
    poll(self, "NAV_ACC_RAD", p.param_nav_acc_rad);
    poll(self, "MPC_YAWRAUTO_MAX", p.param_mpc_yawrauto_max);
    const bool complete = std::isfinite(p.param_mpc_acc_hor) && std::isfinite(p.param_mpc_acc_down_max) && std::isfinite(p.param_mpc_acc_up_max) && std::isfinite(p.param_mpc_xy_cruise) &&
                          std::isfinite(p.param_mpc_z_vel_max_dn) && std::isfinite(p.param_mpc_z_vel_max_up) && std::isfinite(p.param_cp_dist) && std::isfinite(p.param_mpc_land_speed) &&
                          std::isfinite(p.param_mpc_jerk_max) && std::isfinite(p.param_nav_acc_rad) && std::isfinite(p.param_mpc_yawrauto_max);
    std::unique_lock<std::mutex> lock(self->exit_mutex_);
    self->exit_cv_.wait_for(lock, std::chrono::seconds(complete ? 30 : 5), [self] { return self->should_exit_.load(); });
  }
}
// C33: the latest valid ground speed item at or before the current one
void missionCallback(AvoidanceNode* self, const mavros_msgs::WaypointList& msg) {
  for (size_t c = 0; c < msg.waypoints.size(); c++) {
    if (!msg.waypoints[c].is_current) continue;
    for (int i = static_cast<int>(c); i >= 0; i--) {
      const auto& w = msg.waypoints[i];
      if (w.command == static_cast<int>(MavCommand::MAV_CMD_DO_CHANGE_SPEED) && w.param1 - 1.0f < FLT_MIN && w.param2 > 0.0f) {
        self->mission_item_speed_ = w.param2;
        return;
      }
    }
    return;
  }
}
ModelParameters getPX4Parameters(const AvoidanceNode* self) { return self->px4_; }
float getMissionItemSpeed(const AvoidanceNode* self) { return self->mission_item_speed_; }
}
