#include "spec.h"
#include "avoidance/histogram.h"
#include <stdexcept>
using avoidance::Histogram;
namespace spec {
// C17: 180/res elevation rows, 360/res azimuth columns, all zero
void Histogram_ctor(Histogram* self, const int res) {
  self->resolution_ = res;
  self->e_dim_ = 180 / res;
  self->z_dim_ = 360 / res;
  self->dist_.resize(180 / res, 360 / res);
  self->dist_.fill(0.f);
}
static int modulo(int v, int n) {
  int r = v % n;
  return r < 0 ? r + n : r;
}
void Histogram_wrapIndex(const Histogram* self, int& x, int& y) {
  assume(self->e_dim_ > 0 && self->z_dim_ > 0);
  x = modulo(x, self->e_dim_);
  y = modulo(y, self->z_dim_);
}
float Histogram_get_dist(const Histogram* self, int e, int z) {
  assume(self->e_dim_ > 0 && self->z_dim_ > 0);
  return self->dist_(modulo(e, self->e_dim_), modulo(z, self->z_dim_));
}
void Histogram_set_dist(Histogram* self, int e, int z, float value) { self->dist_(e, z) = value; }
void Histogram_setZero(Histogram* self) { self->dist_.fill(0.f); }
bool Histogram_isEmpty(const Histogram* self) {
  for (int e = 0; e < self->e_dim_; e++)
    for (int z = 0; z < self->z_dim_; z++)
      if (self->dist_(e, z) > FLT_MIN) return false;
  return true;
}
// C16
void Histogram_upsample(Histogram* self) {
  if (self->resolution_ != 12) throw std::logic_error("");
  Eigen::MatrixXf fine(2 * self->e_dim_, 2 * self->z_dim_);
  for (int z = 0; z < 2 * self->z_dim_; z++)
    for (int e = 0; e < 2 * self->e_dim_; e++) fine(e, z) = self->dist_(e / 2, z / 2);
  self->dist_ = fine;
  self->e_dim_ *= 2;
  self->z_dim_ *= 2;
  self->resolution_ = 6;
}
void Histogram_downsample(Histogram* self) {
  if (self->resolution_ != 6) throw std::logic_error("");
  self->e_dim_ = self->e_dim_ / 2;
  self->z_dim_ = self->z_dim_ / 2;
  Eigen::MatrixXf coarse(self->e_dim_, self->z_dim_);
  for (int e = 0; e < self->e_dim_; e++)
    for (int z = 0; z < self->z_dim_; z++)
      coarse(e, z) = (self->dist_(2 * e, 2 * z) + self->dist_(2 * e + 1, 2 * z) + self->dist_(2 * e, 2 * z + 1) + self->dist_(2 * e + 1, 2 * z + 1)) / 4;
  self->dist_ = coarse;
  self->resolution_ = 12;
}
}
