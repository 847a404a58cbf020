#include "spec.h"
#include "global_planner/global_planner_node.h"
#include <cmath>
#include <limits>
using namespace global_planner;
typedef GlobalPlannerNode N;
namespace spec {
void setNewGoal(N* self, const GoalCell& g) {
  self->global_planner_.setGoal(g);
  self->publishGoal(g);
}
// C36
void popNextGoal(N* self) {
  if (self->waypoints_.empty()) {
    if (self->global_planner_.goal_is_blocked_) self->global_planner_.stop();
    return;
  }
  const GoalCell g = self->waypoints_.front();
  self->waypoints_.erase(self->waypoints_.begin());
  self->setNewGoal(g);
}
void planPath(N* self) {
  if (self->global_planner_.getGlobalPath() && self->global_planner_.overestimate_factor_ > 1.05) self->setIntermediateGoal();
}
void setIntermediateGoal(N* self) {
  const int n = self->global_planner_.curr_path_.size();
  if (n <= 10) return;
  self->waypoints_.insert(self->waypoints_.begin(), self->global_planner_.goal_pos_);
  self->setNewGoal(GoalCell(self->global_planner_.curr_path_[n / 2], n / 4, true));
}
// C25
void dynamicReconfigureCallback(N* self, GlobalPlannerNodeConfig& c, uint32_t level) {
  GlobalPlanner& g = self->global_planner_;
  self->clicked_goal_alt_ = c.clicked_goal_alt_;
  self->clicked_goal_radius_ = c.clicked_goal_radius_;
  self->simplify_iterations_ = c.simplify_iterations_;
  self->simplify_margin_ = c.simplify_margin_;
  g.min_altitude_ = c.min_altitude_;
  g.max_altitude_ = c.max_altitude_;
  g.max_cell_risk_ = c.max_cell_risk_;
  g.smooth_factor_ = c.smooth_factor_;
  g.vert_to_hor_cost_ = c.vert_to_hor_cost_;
  g.risk_factor_ = c.risk_factor_;
  g.neighbor_risk_flow_ = c.neighbor_risk_flow_;
  g.explore_penalty_ = c.explore_penalty_;
  g.up_cost_ = c.up_cost_;
  g.down_cost_ = c.down_cost_;
  g.search_time_ = c.search_time_;
  g.min_overestimate_factor_ = c.min_overestimate_factor_;
  g.max_overestimate_factor_ = c.max_overestimate_factor_;
  g.risk_threshold_risk_based_speedup_ = c.risk_threshold_risk_based_speedup_;
  g.default_speed_ = c.default_speed_;
  g.max_speed_ = c.max_speed_;
  g.max_iterations_ = c.max_iterations_;
  g.goal_must_be_free_ = c.goal_must_be_free_;
  g.use_current_yaw_ = c.use_current_yaw_;
  g.use_risk_heuristics_ = c.use_risk_heuristics_;
  g.use_speedup_heuristics_ = c.use_speedup_heuristics_;
  g.use_risk_based_speedup_ = c.use_risk_based_speedup_;
  if (level & 2) CELL_SCALE = c.CELL_SCALE;
  if (level & 4) {
    SPEEDNODE_RADIUS = c.SPEEDNODE_RADIUS;
    g.default_node_type_ = c.default_node_type_;
  }
  g.risk_cache_.clear();
}
void velocityCallback(N* self, const geometry_msgs::TwistStamped& m) { self->global_planner_.curr_vel_ = m.twist.linear; }
void positionCallback(N* self, const geometry_msgs::PoseStamped& m) {
  self->last_pos_ = m;
  self->global_planner_.setPose(m);
  const int n = self->num_pos_msg_;
  self->num_pos_msg_ = n + 1;
  if (n % 10 == 0) {
    self->last_pos_.header.frame_id = self->frame_id_;
    self->actual_path_.poses.push_back(self->last_pos_);
    self->actual_path_pub_.publish(self->actual_path_);
  }
  self->position_received_ = true;
  if (self->path_.empty() || !self->isCloseToGoal()) return;
  double d = std::abs(tf::getYaw(self->last_pos_.pose.orientation) - tf::getYaw(self->current_goal_.pose.orientation));
  d -= std::floor(d / (2 * M_PI)) * (2 * M_PI);
  const double limit = M_PI / 1.0;
  if (d < limit || 2 * M_PI - limit < d) {
    self->last_goal_ = self->current_goal_;
    self->current_goal_ = self->path_.front();
    self->path_.erase(self->path_.begin());
  }
}
void moveBaseSimpleCallback(N* self, const geometry_msgs::PoseStamped& m) { self->setNewGoal(GoalCell(m.pose.position.x, m.pose.position.y, self->clicked_goal_alt_, self->clicked_goal_radius_)); }
void fcuInputGoalCallback(N* self, const mavros_msgs::Trajectory& m) {
  const GoalCell g(m.point_2.position.x, m.point_2.position.y, m.point_2.position.z, 1.0), now = self->global_planner_.goal_pos_;
  if (m.point_valid[1] == true && (std::fabs(now.xPos() - g.xPos()) > 0.001 || std::fabs(now.yPos() - g.yPos()) > 0.001)) self->setNewGoal(g);
}
// C36, C38
void octomapFullCallback(N* self, const octomap_msgs::Octomap& m) {
  const ros::Time now = ros::Time::now();
  if ((now - self->last_wp_time_).toSec() < self->mapupdate_dt_) return;
  self->last_wp_time_ = ros::Time::now();
  self->global_planner_.updateFullOctomap(octomap_msgs::msgToMap(m));
}
void setCurrentPath(N* self, const std::vector<geometry_msgs::PoseStamped>& p) {
  self->path_.clear();
  if (p.size() < 2) return;
  self->last_goal_ = p[0];
  self->current_goal_ = p[1];
  for (int k = 2; k < p.size(); k++) self->path_.push_back(p[k]);
}
void cmdLoopCallback(N* self, const ros::TimerEvent&) {
  self->hover_ = false;
  const ros::Time now = ros::Time::now();
  self->avoidance_node_.checkFailsafe(now - self->last_wp_time_, now - self->start_time_, self->hover_);
  self->publishSetpoint();
}
// C36
void plannerLoopCallback(N* self, const ros::TimerEvent&) {
  GlobalPlanner& g = self->global_planner_;
  const bool there = g.goal_pos_.withinPositionRadius(g.curr_pos_);
  if (there || g.goal_is_blocked_) self->popNextGoal();
  self->planPath();
  self->publishPath();
}
void publishGoal(N* self, const GoalCell& g) {
  geometry_msgs::PointStamped m;
  m.header.frame_id = self->frame_id_;
  m.point = g.toPoint();
  self->global_temp_goal_pub_.publish(m);
  if (!g.is_temporary_) self->global_goal_pub_.publish(m);
}
// C39
void publishPath(N* self) {
  GlobalPlanner& g = self->global_planner_;
  const nav_msgs::Path full = g.getPathMsg();
  g.getPathWithRiskMsg();
  self->global_temp_path_pub_.publish(full);
  self->setCurrentPath(full.poses);
  self->smooth_path_pub_.publish(smoothPath(full));
  const std::vector<Cell> cells = simplifyPath(&g, g.curr_path_, self->simplify_margin_, self->simplify_iterations_);
  const nav_msgs::Path m = g.getPathMsg(cells);
  self->global_temp_path_pub_.publish(m);
  self->setCurrentPath(m.poses);
  self->smooth_path_pub_.publish(smoothPath(m));
}
void publishSetpoint(N* self) {
  const geometry_msgs::Point& here = self->last_pos_.pose.position;
  tf::Vector3 d = toTfVector3(subtractPoints(self->current_goal_.pose.position, here));
  GlobalPlanner& g = self->global_planner_;
  std::unique_lock<std::mutex> lock(self->mutex_, std::try_to_lock);
  if (lock.owns_lock()) {
    self->speed_ = g.default_speed_;
    if (g.use_risk_based_speedup_) {
      const double risk = std::sqrt(g.getRisk(Cell(here.x, here.y, here.z)));
      if (!(risk >= g.risk_threshold_risk_based_speedup_)) self->speed_ = g.default_speed_ + (g.max_speed_ - g.default_speed_) * (1 - risk);
    }
  }
  const double step = d.length() < 1.0 ? d.length() : self->speed_;
  d.normalize();
  d *= step;
  geometry_msgs::PoseStamped sp = self->current_goal_;
  sp.pose.position.x = here.x + d.getX();
  sp.pose.position.y = here.y + d.getY();
  sp.pose.position.z = here.z + d.getZ();
  self->current_waypoint_publisher_.publish(sp);
  self->mavros_waypoint_publisher_.publish(sp);
  mavros_msgs::Trajectory m = {};
  geometry_msgs::Twist v{};
  v.linear.x = v.linear.y = v.linear.z = NAN;
  avoidance::transformToTrajectory(m, sp, v);
  self->mavros_obstacle_free_path_pub_.publish(m);
}
bool isCloseToGoal(N* self) { return distance(self->current_goal_, self->last_pos_) < self->speed_; }
}  // namespace spec
