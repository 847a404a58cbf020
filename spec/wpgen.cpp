#include "spec.h"
#include "local_planner/waypoint_generator.h"
#include "avoidance/common.h"
#include "local_planner/planner_functions.h"
#include <cmath>
using namespace avoidance;
using Eigen::Vector2f;
using Eigen::Vector3f;
typedef WaypointGenerator WG;
namespace spec {
// C10: start mode
void WaypointGenerator_ctor(WG* self) {
  self->m_currentState = PlannerState::LOITER;
  self->trigger_reset_ = false;
  self->state_changed_ = false;
  self->prev_slp_state_ = PlannerState::TRY_PATH;
  const Vector3f nan3(NAN, NAN, NAN);
  self->smoothed_goto_location_ = nan3;
  self->smoothed_goto_location_velocity_ = Vector3f(0.f, 0.f, 0.f);
  self->position_ = nan3;
  self->velocity_ = nan3;
  self->goal_ = nan3;
  self->prev_goal_ = nan3;
  self->closest_pt_ = Vector2f(NAN, NAN);
  self->tmp_goal_ = nan3;
  self->desired_vel_ = nan3;
  self->change_altitude_pos_ = nan3;
  self->hover_position_ = nan3;
  self->curr_yaw_rad_ = NAN;
  self->curr_pitch_deg_ = NAN;
  self->last_time_ = ros::Time(99999.);
  self->current_time_ = ros::Time(99999.);
  self->smoothing_speed_xy_ = 10.f;
  self->smoothing_speed_z_ = 3.f;
  self->is_airborne_ = self->is_land_waypoint_ = self->is_takeoff_waypoint_ = self->reach_altitude_offboard_ = self->auto_land_ = self->loiter_ = false;
  self->setpoint_yaw_rad_ = self->setpoint_yaw_velocity_ = self->speed_ = 0.f;
  self->heading_at_goal_rad_ = NAN;
  self->yaw_reach_height_rad_ = NAN;
  self->nav_state_ = NavigationState::none;
}
ros::Time getSystemTime(WG*) { return ros::Time::now(); }
std::string toString(PlannerState s) {
  if (s == PlannerState::TRY_PATH) return "TRY_PATH";
  if (s == PlannerState::ALTITUDE_CHANGE) return "ALTITUDE CHANGE";
  if (s == PlannerState::LOITER) return "LOITER";
  if (s == PlannerState::DIRECT) return "DIRECT";
  return "unknown";
}
// C10: the published transition table
PlannerState chooseNextState(WG* self, PlannerState from, usm::Transition t) {
  self->prev_slp_state_ = from;
  self->state_changed_ = true;
  using usm::Transition;
  using S = PlannerState;
  if (from == S::TRY_PATH && t == Transition::NEXT1) return S::ALTITUDE_CHANGE;
  if (from == S::TRY_PATH && t == Transition::NEXT2) return S::DIRECT;
  if (from == S::LOITER && t == Transition::NEXT1) return S::TRY_PATH;
  if (from == S::DIRECT && t == Transition::NEXT1) return S::TRY_PATH;
  if (from == S::DIRECT && t == Transition::NEXT2) return S::ALTITUDE_CHANGE;
  if (from == S::ALTITUDE_CHANGE && t == Transition::NEXT1) return S::TRY_PATH;
  return S::LOITER;
}
usm::Transition runCurrentState(WG* self) {
  if (self->trigger_reset_) {
    self->trigger_reset_ = false;
    return usm::Transition::ERROR;
  }
  const PlannerState s = self->getState();
  usm::Transition t;
  if (s == PlannerState::TRY_PATH) t = self->runTryPath();
  if (s == PlannerState::ALTITUDE_CHANGE) t = self->runAltitudeChange();
  if (s == PlannerState::LOITER) t = self->runLoiter();
  if (s == PlannerState::DIRECT) t = self->runDirect();
  self->state_changed_ = false;
  return t;
}
usm::Transition runTryPath(WG* self) {
  Vector3f sp = self->position_;
  const bool tree = getSetpointFromPath(self->planner_info_.path_node_positions, self->planner_info_.last_path_time, self->planner_info_.cruise_velocity, self->getSystemTime(), sp);
  const Vector3f step = (sp - self->position_).normalized(), to = self->position_ + step;
  self->output_.goto_position = to.hasNaN() ? self->position_ : to;
  self->getPathMsg();
  if (self->loiter_) return usm::Transition::NEXT3;
  if (self->isAltitudeChange()) return usm::Transition::NEXT1;
  return tree ? usm::Transition::REPEAT : usm::Transition::NEXT2;
}
usm::Transition runDirect(WG* self) {
  self->output_.goto_position = self->position_ + (self->goal_ - self->position_).normalized();
  self->getPathMsg();
  Vector3f sp;
  if (getSetpointFromPath(self->planner_info_.path_node_positions, self->planner_info_.last_path_time, self->planner_info_.cruise_velocity, self->getSystemTime(), sp)) return usm::Transition::NEXT1;
  if (self->isAltitudeChange()) return usm::Transition::NEXT2;
  return self->loiter_ ? usm::Transition::NEXT3 : usm::Transition::REPEAT;
}
usm::Transition runLoiter(WG* self) {
  const bool keep = !self->state_changed_ && !self->hover_position_.hasNaN();
  if (!keep) self->hover_position_ = self->position_;
  self->output_.goto_position = self->hover_position_;
  self->getPathMsg();
  return self->loiter_ ? usm::Transition::REPEAT : usm::Transition::NEXT1;
}
usm::Transition runAltitudeChange(WG* self) {
  waypointResult& o = self->output_;
  if (self->state_changed_) {
    self->change_altitude_pos_ = self->position_;
    self->yaw_reach_height_rad_ = self->curr_yaw_rad_;
  }
  const Vector3f p = self->position_;
  if (self->nav_state_ == NavigationState::offboard) {
    self->goal_.x() = p.x();
    self->goal_.y() = p.y();
    float dz = 0.f;
    if (self->is_airborne_) dz = p.z() <= self->goal_.z() ? 1.f : -1.f;
    o.goto_position = Vector3f(p.x(), p.y(), self->is_airborne_ ? p.z() + dz : p.z());
  } else if (Vector2f(self->velocity_.x(), self->velocity_.y()).norm() > 0.5f) {
    o.linear_velocity_wp = Vector3f(0.f, 0.f, NAN);
    o.position_wp = Vector3f(NAN, NAN, p.z());
    o.goto_position = o.adapted_goto_position = o.smoothed_goto_position = self->change_altitude_pos_ = p;
  } else {
    const Vector3f target(self->change_altitude_pos_.x(), self->change_altitude_pos_.y(), self->goal_.z());
    o.goto_position = target;
    if (self->auto_land_) {
      o.adapted_goto_position = target;
      o.smoothed_goto_position = target;
    }
    o.linear_velocity_wp = self->desired_vel_;
  }
  self->getPathMsg();
  if (self->loiter_) return usm::Transition::NEXT2;
  return self->isAltitudeChange() ? usm::Transition::REPEAT : usm::Transition::NEXT1;
}
void calculateWaypoint(WG* self) {
  self->output_.linear_velocity_wp = Vector3f(NAN, NAN, NAN);
  self->last_time_ = self->current_time_;
  self->current_time_ = self->getSystemTime();
  self->iterateOnce();
  self->output_.waypoint_type = self->getState();
}
waypointResult getWaypoints(WG* self) {
  self->calculateWaypoint();
  return self->output_;
}
void setPlannerInfo(WG* self, const avoidanceOutput& in) { self->planner_info_ = in; }
void setSmoothingSpeed(WG* self, float xy, float z) {
  self->smoothing_speed_xy_ = xy;
  self->smoothing_speed_z_ = z;
}
void getOfftrackPointsForVisualization(WG* self, Vector3f& closest, Vector3f& deg60) {
  closest = Vector3f(self->closest_pt_.x(), self->closest_pt_.y(), self->goal_.z());
  deg60 = self->tmp_goal_;
}
void setFOV(WG* self, int i, const FOV& f) {
  assume(i >= 0);  // the index of a camera
  if (self->fov_fcu_frame_.size() <= i) self->fov_fcu_frame_.resize(i + 1);
  self->fov_fcu_frame_[i] = f;
}
void updateState(WG* self, const Vector3f& act_pose, const Eigen::Quaternionf& q, const Vector3f& goal, const Vector3f& prev_goal, const Vector3f& vel, bool stay, bool is_airborne,
                 const NavigationState& nav_state, const bool is_land_waypoint, const bool is_takeoff_waypoint, const Vector3f& desired_vel) {
  self->loiter_ = stay;
  self->is_airborne_ = is_airborne;
  self->nav_state_ = nav_state;
  self->is_land_waypoint_ = is_land_waypoint;
  self->is_takeoff_waypoint_ = is_takeoff_waypoint;
  self->desired_vel_ = desired_vel;
  self->goal_ = goal;
  self->prev_goal_ = prev_goal;
  self->velocity_ = vel;
  self->position_ = act_pose;
  self->curr_pitch_deg_ = getPitchFromQuaternion(q);
  self->curr_yaw_rad_ = getYawFromQuaternion(q) * DEG_TO_RAD;
  // smoothing restarts from the measured state
  const bool usable = is_airborne && self->smoothed_goto_location_.allFinite() && self->smoothed_goto_location_velocity_.allFinite();
  if (!usable) {
    self->setpoint_yaw_rad_ = self->curr_yaw_rad_;
    self->setpoint_yaw_velocity_ = 0.f;
    self->reach_altitude_offboard_ = false;
  }
  if (!usable || self->auto_land_) {
    self->smoothed_goto_location_ = act_pose;
    self->smoothed_goto_location_velocity_ = Vector3f::Zero();
  }
}
void transformPositionToVelocityWaypoint(WG* self) {
  self->output_.linear_velocity_wp = self->output_.position_wp - self->position_;
  self->output_.angular_velocity_wp = Vector3f(0.f, 0.f, getAngularVelocity(self->setpoint_yaw_rad_, self->curr_yaw_rad_));
}
void smoothWaypoint(WG* self, float dt) {
  const Vector3f target = self->output_.adapted_goto_position;
  if (self->smoothing_speed_xy_ < 0.01f || self->smoothing_speed_z_ < 0.01f) {
    self->output_.smoothed_goto_position = target;
    return;
  }
  const Vector3f kp(self->smoothing_speed_xy_, self->smoothing_speed_xy_, self->smoothing_speed_z_);
  const Vector3f kd(2 * std::sqrt(kp.x()), 2 * std::sqrt(kp.y()), 2 * std::sqrt(kp.z()));
  const bool at_goal = (target - self->goal_).norm() < 0.1;
  Vector3f dx = target - self->smoothed_goto_location_;
  Vector3f dv = (at_goal ? Vector3f(0.f, 0.f, 0.f) : self->velocity_) - self->smoothed_goto_location_velocity_;
  if (!dx.allFinite()) dx = Vector3f::Zero();
  if (!dv.allFinite()) dv = Vector3f::Zero();
  for (int i = 0; i < 3; i++) {
    self->smoothed_goto_location_velocity_[i] += (dx[i] * kp[i] + dv[i] * kd[i]) * dt;
    self->smoothed_goto_location_[i] += self->smoothed_goto_location_velocity_[i] * dt;
  }
  self->output_.smoothed_goto_position = self->smoothed_goto_location_;
}
void nextSmoothYaw(WG* self, float dt) {
  const Vector3f d = self->position_ - self->output_.goto_position;
  float target = self->curr_yaw_rad_;
  if (self->getState() == PlannerState::ALTITUDE_CHANGE) target = self->yaw_reach_height_rad_;
  else if (Vector2f(d.x(), d.y()).norm() > 0.1f) target = nextYaw(self->position_, self->output_.goto_position);
  if (self->smoothing_speed_xy_ <= 0.01f) {
    self->setpoint_yaw_rad_ = target;
    return;
  }
  const float kp = self->smoothing_speed_xy_, kd = 2.f * std::sqrt(kp);
  float diff = 0.0f;
  if (std::isfinite(target)) diff = target - self->setpoint_yaw_rad_;
  diff = wrapAngleToPlusMinusPI(diff);
  self->setpoint_yaw_velocity_ += (diff * kp - self->setpoint_yaw_velocity_ * kd) * dt;
  self->setpoint_yaw_rad_ = wrapAngleToPlusMinusPI(self->setpoint_yaw_rad_ + self->setpoint_yaw_velocity_ * dt);
}
// C33, C34
void adaptSpeed(WG* self, float dt) {
  waypointResult& o = self->output_;
  const float a = dt / (0.9f + dt), before = self->speed_;
  const float dist = (self->goal_ - self->position_).norm();
  float v = std::isfinite(self->planner_info_.cruise_velocity) ? self->planner_info_.cruise_velocity : 2.f;
  if (dist < 1.f) {
    o.goto_position = self->goal_;
    v = dist;
    if (!std::isfinite(self->heading_at_goal_rad_)) self->heading_at_goal_rad_ = self->curr_yaw_rad_;
    self->setpoint_yaw_rad_ = self->heading_at_goal_rad_;
  } else {
    self->heading_at_goal_rad_ = NAN;
    if (self->getState() != PlannerState::ALTITUDE_CHANGE) {
      PolarPoint p = cartesianToPolarFCU(o.goto_position, self->position_);
      p.e = p.e - self->curr_pitch_deg_;
      p.z = p.z - RAD_TO_DEG * self->curr_yaw_rad_;
      wrapPolar(p);
      v = v * scaleToFOV(self->fov_fcu_frame_, p);
    }
  }
  self->speed_ = std::min(a * v + (1.f - a) * before, dist);
  Vector3f dir = o.goto_position - self->position_;
  if (dir.norm() > 0.1f) dir = dir.normalized();
  o.adapted_goto_position = self->position_ + dir * self->speed_;
}
void getPathMsg(WG* self) {
  waypointResult& o = self->output_;
  const float t = static_cast<float>((self->current_time_ - self->last_time_).toSec());
  const float dt = t > 0.0f ? t : 0.0001f;
  o.adapted_goto_position = o.goto_position;
  self->nextSmoothYaw(dt);
  if (!self->auto_land_) {
    self->adaptSpeed(dt);
    self->smoothWaypoint(dt);
  }
  createPoseMsg(o.position_wp, o.orientation_wp, o.smoothed_goto_position, self->setpoint_yaw_rad_);
}
bool isAltitudeChange(WG* self) {
  using NS = NavigationState;
  const float z = self->position_.z(), g = self->goal_.z();
  const NS n = self->nav_state_;
  const bool above = z > g - 0.8f, climb = !above && g > z, descend = !above && !(g > z);
  self->auto_land_ = n == NS::auto_land || (n == NS::mission && self->is_land_waypoint_) || (n == NS::auto_rtl && descend);
  if (n == NS::offboard) {
    if (self->reach_altitude_offboard_) return false;
    if (z >= g) {
      self->reach_altitude_offboard_ = true;
      return false;
    }
    return true;
  }
  const bool takeoff = n == NS::auto_takeoff || (n == NS::mission && self->is_takeoff_waypoint_) || (n == NS::auto_rtl && climb);
  return takeoff || self->auto_land_;
}
}
