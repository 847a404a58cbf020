#include "spec.h"
#include "local_planner/local_planner.h"
#include "local_planner/star_planner.h"
#include "local_planner/planner_functions.h"
#include "local_planner/tree_node.h"
#include "avoidance/common.h"
#include <cmath>
using namespace avoidance;
using Eigen::Vector2f;
using Eigen::Vector3f;
typedef LocalPlanner LP;
namespace spec {
void LocalPlanner_ctor(LP* self) {
  self->star_planner_.reset(new StarPlanner());
  self->min_num_points_per_cell_ = 3;
  self->min_sensor_range_ = 0.2f;
  self->max_sensor_range_ = 12.0f;
  self->smoothing_margin_degrees_ = 30.f;
  self->max_point_age_s_ = 10;
  self->yaw_fcu_frame_deg_ = self->pitch_fcu_frame_deg_ = 0.0f;
  self->position_ = self->velocity_ = self->goal_ = self->prev_goal_ = self->closest_pt_ = self->last_sent_waypoint_ = Vector3f(0.f, 0.f, 0.f);
  self->polar_histogram_ = Histogram(ALPHA_RES);
  self->to_fcu_histogram_ = Histogram(ALPHA_RES);
  self->currently_armed_ = false;
  self->timeout_startup_ = 20.0;
  self->timeout_critical_ = 0.5;
  self->timeout_termination_ = 20.0;
  self->speed_ = 1.0f;
  self->mission_item_speed_ = NAN;
}
void setState(LP* self, const Vector3f& p, const Vector3f& v, const Eigen::Quaternionf& q) {
  self->pitch_fcu_frame_deg_ = getPitchFromQuaternion(q);
  self->yaw_fcu_frame_deg_ = getYawFromQuaternion(q);
  self->velocity_ = v;
  self->position_ = p;
  self->star_planner_->setPose(p, v);
}
// C25
void dynamicReconfigureSetParams(LP* self, LocalPlannerNodeConfig& c, uint32_t level) {
  self->max_sensor_range_ = static_cast<float>(c.max_sensor_range_);
  self->min_sensor_range_ = static_cast<float>(c.min_sensor_range_);
  self->max_point_age_s_ = static_cast<float>(c.max_point_age_s_);
  self->smoothing_margin_degrees_ = static_cast<float>(c.smoothing_margin_degrees_);
  self->min_num_points_per_cell_ = c.min_num_points_per_cell_;
  self->children_per_node_ = c.children_per_node_;
  self->n_expanded_nodes_ = c.n_expanded_nodes_;
  self->timeout_startup_ = c.timeout_startup_;
  self->timeout_critical_ = c.timeout_critical_;
  self->timeout_termination_ = c.timeout_termination_;
  self->cost_params_.pitch_cost_param = c.pitch_cost_param_;
  self->cost_params_.yaw_cost_param = c.yaw_cost_param_;
  self->cost_params_.velocity_cost_param = c.velocity_cost_param_;
  self->cost_params_.obstacle_cost_param = c.obstacle_cost_param_;
  const Vector3f g = self->goal_;
  if (g.z() != c.goal_z_param) self->setGoal(Vector3f(g.x(), g.y(), static_cast<float>(c.goal_z_param)));
  self->star_planner_->dynamicReconfigureSetStarParams(c, level);
}
void dynamicReconfigureSetStarParams(StarPlanner* self, const LocalPlannerNodeConfig& c, uint32_t) {
  self->max_sensor_range_ = static_cast<float>(c.max_sensor_range_);
  self->min_sensor_range_ = static_cast<float>(c.min_sensor_range_);
  self->max_path_length_ = static_cast<float>(c.max_sensor_range_);
  self->smoothing_margin_degrees_ = static_cast<float>(c.smoothing_margin_degrees_);
  self->tree_heuristic_weight_ = static_cast<float>(c.tree_heuristic_weight_);
  self->tree_node_distance_ = static_cast<float>(c.tree_node_distance_);
  self->children_per_node_ = c.children_per_node_;
  self->n_expanded_nodes_ = c.n_expanded_nodes_;
}
void setGoal(LP* self, const Vector3f& g) {
  self->goal_ = g;
  self->applyGoal();
}
void applyGoal(LP* self) { self->star_planner_->setGoal(self->goal_); }
void setPreviousGoal(LP* self, const Vector3f& g) { self->prev_goal_ = g; }
void setFOV(LP* self, int i, const FOV& f) {
  assume(i >= 0);  // the index of a camera
  if (i >= self->fov_fcu_frame_.size()) {
    self->fov_fcu_frame_.push_back(f);
    return;
  }
  self->fov_fcu_frame_[i] = f;
}
float getHFOV(LP* self, int i) {
  assume(i >= 0);  // the index of a camera
  if (i >= self->fov_fcu_frame_.size()) return 0.f;
  return self->fov_fcu_frame_[i].h_fov_deg;
}
float getVFOV(LP* self, int i) {
  assume(i >= 0);  // the index of a camera
  if (i >= self->fov_fcu_frame_.size()) return 0.f;
  return self->fov_fcu_frame_[i].v_fov_deg;
}
const std::vector<FOV>& getFOV(const LP* self) { return self->fov_fcu_frame_; }
float getSensorRange(const LP* self) { return self->max_sensor_range_; }
float getOrientation(const LP* self) { return self->yaw_fcu_frame_deg_; }
Vector3f getGoal(const LP* self) { return self->goal_; }
Vector3f getPosition(const LP* self) { return self->position_; }
const pcl::PointCloud<pcl::PointXYZI>& getPointcloud(const LP* self) { return self->final_cloud_; }
void getTree(const LP* self, std::vector<TreeNode>& t, std::vector<int>& c, std::vector<Vector3f>& p) {
  p = self->star_planner_->path_node_positions_;
  c = self->star_planner_->closed_set_;
  t = self->star_planner_->tree_;
}
void getObstacleDistanceData(LP* self, sensor_msgs::LaserScan& out) { out = self->distance_data_; }
// C20: which cloud is kept, with which age
void runPlanner(LP* self) {
  const float age = static_cast<float>((ros::Time::now() - self->last_pointcloud_process_time_).toSec());
  processPointcloud(self->final_cloud_, self->original_cloud_vector_, self->fov_fcu_frame_, self->yaw_fcu_frame_deg_, self->pitch_fcu_frame_deg_, self->position_, self->min_sensor_range_,
                    self->max_sensor_range_, self->max_point_age_s_, age, self->min_num_points_per_cell_);
  self->last_pointcloud_process_time_ = ros::Time::now();
  self->determineStrategy();
}
// C04
void create2DObstacleRepresentation(LP* self, const bool send) {
  Histogram h(ALPHA_RES);
  generateNewHistogram(h, self->final_cloud_, self->position_);
  self->to_fcu_histogram_.setZero();
  if (send) {
    compressHistogramElevation(self->to_fcu_histogram_, h, self->position_);
    self->updateObstacleDistanceMsg(self->to_fcu_histogram_);
  }
  self->polar_histogram_ = h;
  self->generateHistogramImage(self->polar_histogram_);
}
void updateObstacleDistanceMsg(LP* self, Histogram h) {
  sensor_msgs::LaserScan m = {};
  m.header.frame_id = "local_origin";
  m.header.stamp = ros::Time::now();
  m.angle_increment = ALPHA_RES * M_PI / 180.0;
  m.range_max = self->max_sensor_range_;
  m.range_min = self->min_sensor_range_;
  for (int i = 0; i < GRID_LENGTH_Z; i++) {
    const int bin = (i + 30) % 60;
    const float d = h.get_dist(0, bin);
    float r = NAN;
    if (histogramIndexYawInsideFOV(self->fov_fcu_frame_, bin, self->position_, self->yaw_fcu_frame_deg_)) r = d > self->min_sensor_range_ ? d : self->max_sensor_range_ + 0.01f;
    m.ranges.push_back(r);
  }
  self->distance_data_ = m;
}
void updateObstacleDistanceMsg0(LP* self) {
  sensor_msgs::LaserScan m = {};
  m.header.stamp = ros::Time::now();
  m.header.frame_id = "local_origin";
  m.angle_increment = ALPHA_RES * M_PI / 180.0;
  m.range_min = self->min_sensor_range_;
  m.range_max = self->max_sensor_range_;
  self->distance_data_ = m;
}
void generateHistogramImage(LP* self, Histogram& h) {
  self->histogram_image_data_.clear();
  for (int k = 0; k < GRID_LENGTH_E; k++)
    for (int z = 0; z < GRID_LENGTH_Z; z++) {
      const float d = h.get_dist(GRID_LENGTH_E - 1 - k, z);
      float v = 0.f;
      if (d > 0.01f) v = 255.f - 255.f * d / self->max_sensor_range_;
      self->histogram_image_data_.push_back((int)std::max(0.0f, std::min(255.f, v)));
    }
}
// C28, C33: look-ahead tree only while there are obstacles; line projection
void determineStrategy(LP* self) {
  self->cost_image_data_.assign(3 * GRID_LENGTH_E * GRID_LENGTH_Z, 0);
  self->create2DObstacleRepresentation(self->px4_.param_cp_dist > 0.f);
  const Vector2f line = Vector2f(self->goal_.x() - self->prev_goal_.x(), self->goal_.y() - self->prev_goal_.y());
  const Vector2f u = line.normalized();
  const Vector2f w(self->position_.x() - self->prev_goal_.x(), self->position_.y() - self->prev_goal_.y());
  const float s = u.x() * w.x() + u.y() * w.y();
  const Vector3f proj(self->prev_goal_.x() + u.x() * s, self->prev_goal_.y() + u.y() * s, self->goal_.z());
  const Vector2f off(self->position_.x() - proj.x(), self->position_.y() - proj.y());
  self->closest_pt_ = off.norm() < self->px4_.param_mpc_xy_cruise || line.norm() < 0.001f ? self->goal_ : proj;
  if (self->polar_histogram_.isEmpty()) return;
  getCostMatrix(self->polar_histogram_, self->goal_, self->position_, self->velocity_, self->cost_params_, self->smoothing_margin_degrees_, self->closest_pt_, self->max_sensor_range_,
                self->min_sensor_range_, self->cost_matrix_, self->cost_image_data_);
  self->star_planner_->setParams(self->cost_params_);
  self->star_planner_->setPointcloud(self->final_cloud_);
  self->star_planner_->setClosestPointOnLine(self->closest_pt_);
  self->star_planner_->buildLookAheadTree();
  self->last_path_time_ = ros::Time::now();
}
// C33: v with v^2 / (2 a) + v a / j = range
avoidanceOutput getAvoidanceOutput(const LP* self) {
  const float a = self->px4_.param_mpc_acc_hor, j = self->px4_.param_mpc_jerk_max, r = self->max_sensor_range_;
  const float half = a * (a / j);
  const float stop = std::sqrt(half * half + 2 * a * r) - half;
  const float want = std::isfinite(self->mission_item_speed_) ? self->mission_item_speed_ : self->px4_.param_mpc_xy_cruise;
  avoidanceOutput o;
  o.path_node_positions = self->star_planner_->path_node_positions_;
  o.last_path_time = self->last_path_time_;
  o.cruise_velocity = std::min(want, stop);
  return o;
}
void setDefaultPx4Parameters(LP* self) {
  ModelParameters& p = self->px4_;
  p.param_mpc_auto_mode = 1;
  p.param_mpc_jerk_min = 8.f;
  p.param_mpc_jerk_max = 20.f;
  p.param_mpc_acc_up_max = 10.f;
  p.param_mpc_acc_down_max = 10.f;
  p.param_mpc_acc_hor = 5.f;
  p.param_mpc_z_vel_max_up = 3.f;
  p.param_mpc_z_vel_max_dn = 1.f;
  p.param_mpc_xy_cruise = 3.f;
  p.param_mpc_tko_speed = 1.f;
  p.param_mpc_land_speed = 0.7f;
  p.param_cp_dist = 4.f;
}
}
