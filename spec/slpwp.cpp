#include "spec.h"
#include "safe_landing_planner/waypoint_generator.hpp"
#include "avoidance/common.h"
using namespace avoidance;
using Eigen::Vector2f;
using Eigen::Vector2i;
using Eigen::Vector3f;
typedef WaypointGenerator W;
namespace spec {
static Vector3f nan3() { return Vector3f(NAN, NAN, NAN); }
// C11: transition table
SLPState chooseNextState(W* self, SLPState s, usm::Transition t) {
  self->prev_slp_state_ = s;
  self->state_changed_ = true;
  if (s == SLPState::GOTO && t == usm::Transition::NEXT1) return SLPState::ALTITUDE_CHANGE;
  if (s == SLPState::ALTITUDE_CHANGE && t == usm::Transition::NEXT1) return SLPState::LOITER;
  if (s == SLPState::LOITER && t == usm::Transition::NEXT1) return SLPState::EVALUATE_GRID;
  if (s == SLPState::EVALUATE_GRID && t == usm::Transition::NEXT2) return SLPState::GOTO_LAND;
  if (s == SLPState::GOTO_LAND && t == usm::Transition::NEXT1) return SLPState::LAND;
  return SLPState::GOTO;
}
usm::Transition runCurrentState(W* self) {
  if (self->trigger_reset_) {
    self->trigger_reset_ = false;
    return usm::Transition::ERROR;
  }
  usm::Transition t;
  const SLPState s = self->getState();
  if (s == SLPState::GOTO) t = self->runGoTo();
  if (s == SLPState::ALTITUDE_CHANGE) t = self->runAltitudeChange();
  if (s == SLPState::LOITER) t = self->runLoiter();
  if (s == SLPState::EVALUATE_GRID) t = self->runEvaluateGrid();
  if (s == SLPState::GOTO_LAND) t = self->runGoToLand();
  if (s == SLPState::LAND) t = self->runLand();
  self->state_changed_ = false;
  return t;
}
void WaypointGenerator_ctor(W* self) { self->initializeMask(); }
// circular landing mask
void initializeMask(W* self) {
  const int s = self->smoothing_land_cell_;
  for (int i = 0; i < self->mask_.rows(); i++)
    for (int j = 0; j < self->mask_.cols(); j++) self->mask_(i, j) = std::hypot(i - s, j - s) < (s + 0.5f);
}
void calculateWaypoint(W* self) {
  self->updateSLPState();
  self->iterateOnce();
}
void updateSLPState(W* self) {
  const int w = 2 * self->smoothing_land_cell_ + 1;
  if (self->mask_.rows() != w || self->update_smoothing_size_) {
    self->update_smoothing_size_ = false;
    self->mask_.resize(w, w);
    self->initializeMask();
  }
  const int r = self->grid_slp_.land_.rows(), c = self->grid_slp_.land_.cols();
  if (self->can_land_hysteresis_matrix_.rows() != r) {
    self->can_land_hysteresis_result_.resize(r, c);
    self->can_land_hysteresis_result_.fill(0);
    self->can_land_hysteresis_matrix_.resize(r, c);
    self->can_land_hysteresis_matrix_.fill(0.f);
  }
  if (self->is_land_waypoint_) return;
  self->can_land_hysteresis_matrix_.fill(0.f);
  self->can_land_ = true;
  self->decision_taken_ = false;
  self->explorarion_is_active_ = false;
  self->n_explored_pattern_ = -1;
  self->factor_exploration_ = 1.f;
  self->landing_radius_ = 2.f;
}
bool withinLandingRadius(const W* self) { return std::hypot(self->goal_.x() - self->position_.x(), self->goal_.y() - self->position_.y()) < self->landing_radius_; }
bool inVerticalRange(const W* self) { return fabsf(fabsf(self->position_.z() - self->altitude_landing_area_percentile_) - self->loiter_height_) < self->vertical_range_error_; }
// C11: go-to, with the exploration pattern after a negative decision
usm::Transition runGoTo(W* self) {
  if (self->explorarion_is_active_) {
    self->yaw_setpoint_ = nextYaw(self->position_, self->goal_);
    self->landing_radius_ = 0.5f;
  }
  self->publishTrajectorySetpoints_(self->goal_, self->velocity_setpoint_, self->yaw_setpoint_, self->yaw_speed_setpoint_);
  self->can_land_hysteresis_matrix_.fill(0.f);
  self->altitude_landing_area_percentile_ = self->landingAreaHeightPercentile(80.f);
  if (!self->is_land_waypoint_ || !self->withinLandingRadius()) return usm::Transition::REPEAT;
  if (!self->decision_taken_) return usm::Transition::NEXT1;
  if (self->can_land_) return usm::Transition::REPEAT;
  if (!self->explorarion_is_active_) {
    self->explorarion_is_active_ = true;
    self->exploration_anchor_ = self->loiter_position_;
  }
  self->n_explored_pattern_ += 1;
  if (self->n_explored_pattern_ == exploration_pattern.size()) {
    self->factor_exploration_ += 1.f;
    self->n_explored_pattern_ = 0;
  }
  const float step = self->spiral_width_ * self->factor_exploration_ * 2.f * static_cast<float>(self->smoothing_land_cell_) * self->grid_slp_.getCellSize();
  const Vector2f d = exploration_pattern[self->n_explored_pattern_];
  self->goal_ = Vector3f(self->exploration_anchor_.x() + step * d.x(), self->exploration_anchor_.y() + step * d.y(), self->exploration_anchor_.z());
  self->velocity_setpoint_ = nan3();
  self->decision_taken_ = false;
  return usm::Transition::REPEAT;
}
usm::Transition runGoToLand(W* self) {
  self->publishTrajectorySetpoints_(self->goal_, self->velocity_setpoint_, nextYaw(self->position_, self->goal_), self->yaw_speed_setpoint_);
  return self->withinLandingRadius() ? usm::Transition::NEXT1 : usm::Transition::REPEAT;
}
usm::Transition runAltitudeChange(W* self) {
  if (self->state_changed_) self->loiter_yaw_ = self->yaw_;
  self->altitude_landing_area_percentile_ = self->landingAreaHeightPercentile(80.f);
  self->goal_.z() = NAN;
  const float height = fabsf(self->position_.z() - self->altitude_landing_area_percentile_);
  self->velocity_setpoint_.z() = height - self->loiter_height_ < 0.f ? LAND_SPEED : -LAND_SPEED;
  self->publishTrajectorySetpoints_(self->goal_, self->velocity_setpoint_, self->loiter_yaw_, self->yaw_speed_setpoint_);
  if (!self->inVerticalRange()) return usm::Transition::REPEAT;
  self->start_seq_landing_decision_ = self->grid_slp_seq_;
  return usm::Transition::NEXT1;
}
usm::Transition runLoiter(W* self) {
  assume(self->can_land_thr_ >= 0);  // the configuration admits 0 to 1
  if (self->state_changed_) {
    self->goal_ = self->position_;
    self->loiter_position_ = self->position_;
  }
  self->publishTrajectorySetpoints_(self->loiter_position_, nan3(), self->loiter_yaw_, NAN);
  Eigen::MatrixXf& h = self->can_land_hysteresis_matrix_;
  if (abs(self->grid_slp_seq_ - self->start_seq_landing_decision_) > 20) {
    h = (h.array() <= self->can_land_thr_).select(0, h);
    h = (h.array() > self->can_land_thr_).select(1, h);
    self->can_land_hysteresis_result_ = h.cast<int>();
    return usm::Transition::NEXT1;
  }
  for (int i = 0; i < self->grid_slp_.land_.rows(); i++)
    for (int j = 0; j < self->grid_slp_.land_.cols(); j++) h(i, j) = self->beta_ * h(i, j) + (1.f - self->beta_) * static_cast<float>(self->grid_slp_.land_(i, j));
  return usm::Transition::REPEAT;
}
usm::Transition runLand(W* self) {
  if (self->state_changed_) {
    self->loiter_yaw_ = self->yaw_;
    self->loiter_position_ = self->position_;
  }
  self->loiter_position_.z() = NAN;
  self->publishTrajectorySetpoints_(self->loiter_position_, Vector3f(NAN, NAN, -LAND_SPEED), self->loiter_yaw_, NAN);
  return usm::Transition::REPEAT;
}
// a patch is landable only if every cell under the mask is
bool evaluatePatch(const W* self, Vector2i& c) {
  return self->can_land_hysteresis_result_.block(c.x(), c.y(), self->mask_.rows(), self->mask_.cols()).cwiseProduct(self->mask_).sum() == self->mask_.sum();
}
// C11: the landing site is the patch under the vehicle, else the nearest ring that holds a landable patch
usm::Transition runEvaluateGrid(W* self) {
  self->publishTrajectorySetpoints_(self->loiter_position_, nan3(), self->loiter_yaw_, NAN);
  self->landing_radius_ = 0.5f;
  const int s = self->smoothing_land_cell_, n = self->grid_slp_.land_.rows(), m = self->grid_slp_.land_.cols();
  Vector2i corner(n / 2 - s, m / 2 - s);
  self->can_land_ = self->evaluatePatch(corner);
  if (self->can_land_) {
    self->decision_taken_ = true;
    return usm::Transition::NEXT2;
  }
  const int rings = (1 + (n - (2 * s + 1)) / self->stride_) / 2;
  Vector2i c;
  for (int r = 1; r < rings; r++)
    for (int d = 0; d < exploration_pattern.size(); d++) {
      c.x() = n / 2 + exploration_pattern[d].x() * r * self->stride_ - s;
      c.y() = m / 2 + exploration_pattern[d].y() * r * self->stride_ - s;
      self->can_land_ = self->evaluatePatch(c);
      if (self->can_land_) {
        self->decision_taken_ = true;
        const float cell = self->grid_slp_.getCellSize();
        self->goal_ = Vector3f(self->position_.x() + (c.x() + s - n / 2) * cell, self->position_.y() + (c.y() + s - m / 2) * cell, self->position_.z());
        self->velocity_setpoint_.z() = NAN;
        return usm::Transition::NEXT2;
      }
    }
  self->decision_taken_ = true;
  return usm::Transition::NEXT1;
}
float landingAreaHeightPercentile(const W* self, float percentile) {
  const int s = self->smoothing_land_cell_, w = 2 * s + 1, o = self->grid_slp_.land_.rows() / 2;
  std::vector<float> z(w * w);
  for (int i = o - s; i <= o + s; i++)
    for (int j = o - s; j <= o + s; j++) z[w * (i - o + s) + (j - o + s)] = self->grid_slp_.mean_(i, j);
  std::sort(z.begin(), z.end());
  const int k = static_cast<int>(std::round(percentile / 100.f * z.size()));
  return z[std::min(k, static_cast<int>(z.size()) - 1)];
}
}
