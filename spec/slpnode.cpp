#include "spec.h"
#include "safe_landing_planner/safe_landing_planner_node.hpp"
#include "avoidance/common.h"
using namespace avoidance;
typedef SafeLandingPlannerNode N;
namespace spec {
void dynamicReconfigureCallback(N* self, safe_landing_planner::SafeLandingPlannerNodeConfig& c, uint32_t level) {
  self->safe_landing_planner_->dynamicReconfigureSetParams(c, level);
  self->rqt_param_config_ = c;
}
void positionCallback(N* self, const geometry_msgs::PoseStamped& m) {
  self->position_received_ = true;
  self->previous_pose_ = self->current_pose_;
  self->current_pose_ = m;
}
void pointCloudCallback(N* self, const sensor_msgs::PointCloud2& m) {
  self->newest_cloud_msg_ = m;
  self->cloud_ready_cv_->notify_one();
}
void rawGridCallback(N* self, const safe_landing_planner::SLPGridMsg& m) {
  self->safe_landing_planner_->raw_grid_ = m;
  self->cloud_transformed_ = true;
}
void startNode(N* self) {
  self->cloud_msg_mutex_.reset(new std::mutex);
  self->transformed_cloud_mutex_.reset(new std::mutex);
  self->cloud_ready_cv_.reset(new std::condition_variable);
  self->worker_ = std::thread(&N::pointCloudTransformThread, self);
  ros::TimerOptions o(ros::Duration(self->spin_dt_), boost::bind(&N::cmdLoopCallback, self, _1), &self->cmdloop_queue_);
  self->cmdloop_timer_ = self->nh_.createTimer(o);
  self->cmdloop_spinner_.reset(new ros::AsyncSpinner(1, &self->cmdloop_queue_));
  self->cmdloop_spinner_->start();
}
// C01 for the landing planner: its own table
void checkFailsafe(N* self, ros::Duration age, ros::Duration uptime) {
  const ros::Duration critical(self->safe_landing_planner_->timeout_critical_), termination(self->safe_landing_planner_->timeout_termination_);
  if (uptime > termination && age > termination) {
    self->status_msg_.state = static_cast<int>(MAV_STATE::MAV_STATE_FLIGHT_TERMINATION);
    return;
  }
  if (uptime > critical && age > critical) self->status_msg_.state = static_cast<int>(MAV_STATE::MAV_STATE_CRITICAL);
}
// C03
void publishSystemStatus(N* self) {
  self->status_msg_.component = 196;
  self->status_msg_.header.stamp = ros::Time::now();
  self->mavros_system_status_pub_.publish(self->status_msg_);
  self->t_status_sent_ = ros::Time::now();
}
void cmdLoopCallback(N* self, const ros::TimerEvent&) {
  self->status_msg_.state = static_cast<int>(MAV_STATE::MAV_STATE_ACTIVE);
  const ros::Time begin = ros::Time::now();
  while (!self->cloud_transformed_ && ros::ok()) {
    ros::getGlobalCallbackQueue()->callAvailable(ros::WallDuration(0.1));
    if (ros::Time::now() - begin > ros::Duration(self->safe_landing_planner_->timeout_termination_)) {
      self->status_msg_.state = static_cast<int>(MAV_STATE::MAV_STATE_FLIGHT_TERMINATION);
      self->publishSystemStatus();
    }
  }
  const ros::Time now = ros::Time::now();
  self->checkFailsafe(now - self->last_algo_time_, now - self->start_time_);
  self->safe_landing_planner_->setPose(toEigen(self->current_pose_.pose.position), toEigen(self->current_pose_.pose.orientation));
  self->safe_landing_planner_->runSafeLandingPlanner();
  self->cloud_transformed_ = false;
  self->visualizer_.visualizeSafeLandingPlanner(*self->safe_landing_planner_, self->current_pose_.pose.position, self->previous_pose_.pose.position, self->rqt_param_config_);
  self->publishSerialGrid();
  self->last_algo_time_ = ros::Time::now();
  if (now - self->t_status_sent_ > ros::Duration(0.2)) self->publishSystemStatus();
}
// C15: layout shared by the four layers
template <typename M>
static void layout(M& a, int rows, int cols) {
  std_msgs::MultiArrayDimension h, w;
  h.label = "height";
  h.size = cols;
  h.stride = rows * cols;
  w.label = "width";
  w.size = rows;
  w.stride = rows;
  a.layout.dim.push_back(h);
  a.layout.dim.push_back(w);
  a.layout.data_offset = 0;
}
void publishSerialGrid(N* self) {
  static int grid_seq = 0;
  Grid g = self->safe_landing_planner_->getPreviousGrid();
  safe_landing_planner::SLPGridMsg m;
  m.header.seq = grid_seq;
  m.header.frame_id = "local_origin";
  m.cell_size = g.getCellSize();
  m.grid_size = g.getGridSize();
  const Eigen::MatrixXf variance = g.getVariance();
  const Eigen::MatrixXi counter = g.getCounter();
  layout(m.mean, g.mean_.rows(), g.mean_.cols());
  layout(m.land, g.land_.rows(), g.land_.cols());
  layout(m.std_dev, variance.rows(), variance.cols());
  layout(m.counter, counter.rows(), counter.cols());
  const size_t n = g.getRowColSize();
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < n; j++) {
      m.counter.data.push_back(counter(i, j));
      m.std_dev.data.push_back(sqrtf(variance(i, j)));
      m.land.data.push_back(g.land_(i, j));
      m.mean.data.push_back(g.mean_(i, j));
    }
  const Eigen::Vector2i p = self->safe_landing_planner_->getPositionIndex();
  m.curr_pos_index.x = static_cast<float>(p.x());
  m.curr_pos_index.y = static_cast<float>(p.y());
  self->grid_pub_.publish(m);
  grid_seq = grid_seq + 1;
}
// C19, C22: the newest cloud, cleaned and in the local frame
void pointCloudTransformThread(N* self) {
  while (!self->should_exit_) {
    {
      std::unique_lock<std::mutex> l(*self->cloud_msg_mutex_);
      if (!self->should_exit_) self->cloud_ready_cv_->wait(l);
    }
    while (!self->cloud_transformed_ && !self->should_exit_) {
      if (self->tf_listener_.canTransform("local_origin", self->newest_cloud_msg_.header.frame_id, self->newest_cloud_msg_.header.stamp)) {
        pcl::PointCloud<pcl::PointXYZ> c;
        pcl::fromROSMsg(self->newest_cloud_msg_, c);
        std::vector<int> index;
        pcl::removeNaNFromPointCloud(c, c, index);
        pcl_ros::transformPointCloud("local_origin", c, c, self->tf_listener_);
        self->cloud_transformed_ = true;
        self->safe_landing_planner_->cloud_ = c;
      } else {
        ros::Duration(0.001).sleep();
      }
    }
  }
}
}
