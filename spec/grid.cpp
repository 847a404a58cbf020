#include "spec.h"
#include "safe_landing_planner/grid.hpp"
using avoidance::Grid;
using Eigen::Vector2i;
namespace spec {
static void clear(Grid* self) {
  self->land_.fill(0);
  self->counter_.fill(0);
  self->mean_.fill(0.f);
  self->variance_.fill(0.f);
}
static void dims(Grid* self, float grid_size, float cell_size) {
  const int n = static_cast<int>(std::ceil(grid_size / cell_size));
  self->grid_size_ = grid_size;
  self->cell_size_ = cell_size;
  self->grid_row_col_size_ = n;
  self->mean_.resize(n, n);
  self->variance_.resize(n, n);
  self->counter_.resize(n, n);
  self->land_.resize(n, n);
  clear(self);
}
void Grid_ctor(Grid* self, const float grid_size, const float cell_size) { dims(self, grid_size, cell_size); }
void Grid_reset(Grid* self) { clear(self); }
void Grid_resize(Grid* self, float grid_size, float cell_size) { dims(self, grid_size, cell_size); }
void Grid_setMean(Grid* self, const Vector2i& idx, float v) { self->mean_(idx.x(), idx.y()) = v; }
void Grid_setVariance(Grid* self, const Vector2i& idx, float v) { self->variance_(idx.x(), idx.y()) = v; }
void Grid_increaseCounter(Grid* self, const Vector2i& idx) { self->counter_(idx.x(), idx.y()) += 1; }
void Grid_setCounter(Grid* self, const Vector2i& idx, int v) { self->counter_(idx.x(), idx.y()) = v; }
Eigen::MatrixXf Grid_getMeans(const Grid* self) { return self->mean_; }
Eigen::MatrixXf Grid_getVariances(const Grid* self) { return self->variance_; }
Eigen::MatrixXi Grid_getCounters(const Grid* self) { return self->counter_; }
float Grid_getMean(const Grid* self, const Vector2i& idx) { return self->mean_(idx.x(), idx.y()); }
float Grid_getVariance(const Grid* self, const Vector2i& idx) { return self->variance_(idx.x(), idx.y()); }
int Grid_getCounter(const Grid* self, const Vector2i& idx) { return self->counter_(idx.x(), idx.y()); }
int Grid_getRowColSize(const Grid* self) { return self->grid_row_col_size_; }
float Grid_getGridSize(const Grid* self) { return self->grid_size_; }
float Grid_getCellSize(const Grid* self) { return self->cell_size_; }
void Grid_setFilterLimits(Grid* self, const Eigen::Vector3f& pos) {
  const float half = 0.5f * self->grid_size_;
  self->corner_min_ = Eigen::Vector2f(pos.x() - half, pos.y() - half);
  self->corner_max_ = Eigen::Vector2f(pos.x() + half, pos.y() + half);
}
void Grid_getGridLimits(const Grid* self, Eigen::Vector2f& min, Eigen::Vector2f& max) {
  max = self->corner_max_;
  min = self->corner_min_;
}
void Grid_combine(Grid* self, const Grid& prev, float alpha) {
  for (int i = 0; i < self->mean_.rows(); i++)
    for (int j = 0; j < self->mean_.cols(); j++) self->mean_(i, j) = alpha * prev.mean_(i, j) + (1.f - alpha) * self->mean_(i, j);
  for (int i = 0; i < self->variance_.rows(); i++)
    for (int j = 0; j < self->variance_.cols(); j++)
      self->variance_(i, j) = alpha * prev.variance_(i, j) + (1.f - alpha) * self->variance_(i, j);
}
}
