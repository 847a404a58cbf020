#include "spec.h"
#include "safe_landing_planner/safe_landing_planner.hpp"
#include "avoidance/common.h"
using namespace avoidance;
using Eigen::Vector2f;
using Eigen::Vector2i;
using Eigen::Vector3f;
typedef SafeLandingPlanner P;
namespace spec {
// C14: strictly inside the area
bool isInsideGrid(const P* self, float x, float y) {
  Vector2f lo, hi;
  self->grid_.getGridLimits(lo, hi);
  return lo.x() < x && x < hi.x() && lo.y() < y && y < hi.y();
}
// C14: the cell containing a point
Vector2i computeGridIndexes(const P* self, float x, float y) {
  Vector2f lo, hi;
  self->grid_.getGridLimits(lo, hi);
  const float cell = self->grid_.getCellSize();
  return Vector2i(static_cast<int>(std::floor((x - lo.x()) / cell)), static_cast<int>(std::floor((y - lo.y()) / cell)));
}
// C14: running mean and variance after the n-th sample
std::pair<float, float> computeOnlineMeanVariance(const P* self, float mean, float variance, float z, float n) {
  std::pair<float, float> r;
  r.first = (mean * (n - 1) + z) / n;
  float m2 = (z - mean) * (z - r.first);
  if (n >= 1) m2 += variance * (n - 1);
  r.second = NAN;
  if (n > 0) r.second = m2 / n;
  return r;
}
void setPose(P* self, const Vector3f& pos, const Eigen::Quaternionf& q) { self->position_ = pos; }
Vector2i getPositionIndex(const P* self) { return self->pos_index_; }
Grid getPreviousGrid(const P* self) { return self->previous_grid_; }
Grid getGrid(const P* self) { return self->grid_; }
int getSmoothingSize(const P* self) { return self->smoothing_size_; }
// C14
void processPointcloud(P* self) {
  std::swap(self->previous_grid_, self->grid_);
  self->grid_.reset();
  self->grid_.setFilterLimits(self->position_);
  self->grid_seq_++;
  self->visualization_cloud_.points.clear();
  self->visualization_cloud_.header = self->cloud_.header;
  for (size_t k = 0; k < self->cloud_.points.size(); k++) {
    const pcl::PointXYZ& p = self->cloud_.points[k];
    if (std::isnan(p.x) || std::isnan(p.y) || std::isnan(p.z) || !self->isInsideGrid(p.x, p.y)) continue;
    const Vector2i c = self->computeGridIndexes(p.x, p.y);
    const float mean = self->grid_.getMean(c), variance = self->grid_.getVariance(c);
    self->grid_.increaseCounter(c);
    const std::pair<float, float> s = self->computeOnlineMeanVariance(mean, variance, p.z, static_cast<float>(self->grid_.getCounter(c)));
    self->grid_.setMean(c, s.first);
    self->grid_.setVariance(c, s.second);
    self->visualization_cloud_.points.push_back(toXYZI(p, c.x() * (self->grid_size_ / self->cell_size_) + c.y()));
  }
}
// C14, C15: the recorded grid is taken over cell by cell
void processRawGrid(P* self) {
  const safe_landing_planner::SLPGridMsg& m = self->raw_grid_;
  std::swap(self->previous_grid_, self->grid_);
  self->grid_seq_ = m.header.seq;
  self->grid_.reset();
  if (self->grid_.getGridSize() != m.grid_size || self->grid_.getCellSize() != m.cell_size) {
    self->grid_.resize(m.grid_size, m.cell_size);
    self->previous_grid_.resize(m.grid_size, m.cell_size);
  }
  self->grid_.setFilterLimits(self->position_);
  for (int i = 0; i < m.mean.layout.dim[0].size; i++)
    for (int j = 0; j < m.mean.layout.dim[1].size; j++) {
      const Vector2i c(i, j);
      self->grid_.setMean(c, m.mean.data[i * m.mean.layout.dim[1].size + j]);
      self->grid_.setVariance(c, powf(m.std_dev.data[i * m.std_dev.layout.dim[1].size + j], 2));
      self->grid_.setCounter(c, m.counter.data[i * m.counter.layout.dim[1].size + j]);
    }
}
// C12
void isLandingPossible(P* self) {
  assume(self->min_n_land_cells_ >= 0);  // the configuration admits 0 to 100
  const int n = self->grid_.getRowColSize();
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      const Vector2i c(i, j);
      const bool rough = sqrtf(self->grid_.getVariance(c)) > self->std_dev_thr_;
      const bool sparse = self->grid_.getCounter(c) < self->n_points_thr_;
      self->grid_.land_(i, j) = (rough || sparse) ? 0 : 1;
    }
  const int s = self->n_lines_padding_;
  if (s > 0) {
    const int w = n + 2 * s;
    Eigen::MatrixXi land(w, w), lands(w, w), steps(w, w);
    Eigen::MatrixXf mean(w, w);
    land.fill(0);
    lands.fill(0);
    mean.fill(0.f);
    steps.fill(0);
    land.block(s, s, self->grid_.land_.rows(), self->grid_.land_.cols()) = self->grid_.land_;
    mean.block(s, s, self->grid_.mean_.rows(), self->grid_.mean_.cols()) = self->grid_.mean_;
    for (int i = s; i < land.rows() - s; i++)
      for (int j = s; j < land.cols() - s; j++)
        for (int k = -s; k <= s; k++)
          for (int t = -s; t <= s; t++) {
            lands(i, j) += land(i + k, j + t);
            if (std::abs(mean(i, j) - mean(i + k, j + t)) > self->mean_diff_thr_) steps(i, j) += 1;
          }
    lands = (lands.array() <= self->min_n_land_cells_).select(0, lands);
    lands = (lands.array() > self->min_n_land_cells_).select(1, lands);
    steps = (steps.array() <= self->max_n_mean_diff_cells_).cast<int>();
    lands = steps.cwiseProduct(lands);
    self->grid_.land_.block(0, 0, self->grid_.land_.rows(), self->grid_.land_.cols()) = lands.block(s, s, self->grid_.land_.rows(), self->grid_.land_.cols());
  }
  self->pos_index_ = self->computeGridIndexes(self->position_.x(), self->position_.y());
}
// C12, C13, C14: one cycle
void runSafeLandingPlanner(P* self) {
  if (self->size_update_) {
    self->previous_grid_.resize(self->grid_size_, self->cell_size_);
    self->grid_.resize(self->grid_size_, self->cell_size_);
    self->n_lines_padding_ = self->smoothing_size_;
    self->size_update_ = false;
  }
  if (self->play_rosbag_) {
    self->processRawGrid();
  } else {
    self->processPointcloud();
  }
  self->grid_.combine(self->previous_grid_, self->alpha_);
  self->isLandingPossible();
}
// C25
void dynamicReconfigureSetParams(P* self, const safe_landing_planner::SafeLandingPlannerNodeConfig& c, uint32_t level) {
  self->n_points_thr_ = static_cast<float>(c.n_points_threshold);
  self->std_dev_thr_ = static_cast<float>(c.std_dev_threshold);
  self->mean_diff_thr_ = static_cast<float>(c.mean_diff_thr);
  self->grid_size_ = static_cast<float>(c.grid_size);
  self->cell_size_ = static_cast<float>(c.cell_size);
  self->alpha_ = static_cast<float>(c.alpha);
  self->smoothing_size_ = c.smoothing_size;
  self->max_n_mean_diff_cells_ = c.max_n_mean_diff_cells;
  self->min_n_land_cells_ = c.min_n_land_cells;
  self->timeout_critical_ = c.timeout_critical;
  self->timeout_termination_ = c.timeout_termination;
  self->size_update_ = self->grid_.getGridSize() != self->grid_size_ || self->grid_.getCellSize() != self->cell_size_ || self->n_lines_padding_ != self->smoothing_size_;
}
}
