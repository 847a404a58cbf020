#include "spec.h"
#include "local_planner/trajectory_simulator.h"
#include "local_planner/tree_node.h"
#include <cfloat>
#include <cmath>
using namespace avoidance;
using Eigen::Vector3f;
namespace spec {
// ---- C43
void TreeNode_ctor(TreeNode* self) {
  self->position_ = Vector3f(0.f, 0.f, 0.f);
  self->velocity_ = Vector3f(0.f, 0.f, 0.f);
  self->total_cost_ = 0.f;
  self->heuristic_ = 0.f;
  self->origin_ = 0;
  self->closed_ = false;
  self->depth_ = 0;
}
void TreeNode_ctor3(TreeNode* self, int from, const Vector3f& pos, const Vector3f& vel) {
  self->position_ = pos;
  self->velocity_ = vel;
  self->total_cost_ = 0.f;
  self->heuristic_ = 0.f;
  self->origin_ = from;
  self->closed_ = false;
  self->depth_ = 0;
}
void TreeNode_setCosts(TreeNode* self, float h, float c) {
  self->total_cost_ = c;
  self->heuristic_ = h;
}
Vector3f TreeNode_getPosition(const TreeNode* self) { return self->position_; }
Vector3f TreeNode_getVelocity(const TreeNode* self) { return self->velocity_; }

// ---- C07 / C08
void TrajectorySimulator_ctor(TrajectorySimulator* self, const simulation_limits& config, const simulation_state& start, float step_time) {
  const_cast<simulation_limits&>(self->config_) = config;
  const_cast<simulation_state&>(self->start_) = start;
  const_cast<float&>(self->step_time_) = step_time;
}
static simulation_state advance(const simulation_state& s, const Vector3f& jerk, float dt) {
  simulation_state n;
  n.time = s.time + dt;
  n.acceleration = s.acceleration + dt * jerk;
  n.velocity = s.velocity + dt * s.acceleration + dt * dt * jerk / 2.f;
  n.position = s.position + dt * s.velocity + dt * dt * s.acceleration / 2.f + dt * dt * dt * jerk / 6.f;
  return n;
}
simulation_state simulate_step_constant_jerk(const simulation_state& s, const Vector3f& jerk, float dt) { return advance(s, jerk, dt); }
static Vector3f clampNorm(const Vector3f& v, float limit) { return v.squaredNorm() > limit * limit ? Vector3f(v * (limit / v.norm())) : v; }
static Vector3f pd(float P, float D, float max_jerk, const Vector3f& v_desired, const simulation_state& s) {
  return clampNorm(P * (v_desired - s.velocity) - D * s.acceleration, max_jerk);
}
Vector3f jerk_for_velocity_setpoint(float P, float D, float max_jerk, const Vector3f& v_desired, const simulation_state& s) {
  return pd(P, D, max_jerk, v_desired, s);
}
std::vector<simulation_state> generate_trajectory(TrajectorySimulator* self, const Vector3f& goal_direction, float duration) {
  const simulation_limits& lim = self->config_;
  const float dt = self->step_time_;
  // desired velocity: along the goal direction, horizontal norm and vertical component limited
  const Vector3f dir = goal_direction.normalized();
  Vector3f v = dir * std::hypot(lim.max_xy_velocity_norm, dir.z() > 0 ? lim.max_z_velocity : lim.min_z_velocity);
  const float h2 = v.x() * v.x() + v.y() * v.y();
  if (h2 > lim.max_xy_velocity_norm * lim.max_xy_velocity_norm) {
    v.x() = v.x() * (lim.max_xy_velocity_norm / std::sqrt(h2));
    v.y() = v.y() * (lim.max_xy_velocity_norm / std::sqrt(h2));
  }
  v.z() = std::min(lim.max_z_velocity, std::max(lim.min_z_velocity, v.z()));
  // gains: the jerk limit is reached when accelerating from rest
  const float a_max = std::min(2 * std::sqrt(lim.max_jerk_norm), lim.max_acceleration_norm);
  const float speed = v.norm();
  const float P = 10 * (std::sqrt(a_max * a_max + lim.max_jerk_norm * speed) - a_max) / speed;
  const float D = 2 * std::sqrt(P);
  std::vector<simulation_state> out;
  simulation_state s = self->start_;
  const int steps = static_cast<int>(std::ceil(duration / dt));
  for (int i = 0; i < steps; i++) {
    Vector3f jerk = TrajectorySimulator::jerk_for_velocity_setpoint(P, D, lim.max_jerk_norm, v, s);
    float h = dt;
    if ((s.acceleration + dt * jerk).squaredNorm() > a_max * a_max) {
      h = (a_max - s.acceleration.norm()) / jerk.norm();
      if (!(h > FLT_EPSILON && h <= dt)) {
        h = dt;
        jerk = Vector3f(0.f, 0.f, 0.f);
      }
    }
    s = TrajectorySimulator::simulate_step_constant_jerk(s, jerk, h);
    out.push_back(s);
  }
  return out;
}
}
