#include "spec.h"
#include "local_planner/planner_functions.h"
#include <queue>
using namespace avoidance;
using Eigen::Vector2i;
using Eigen::Vector3f;
namespace spec {
// ------------------------------------------------------------------------------------------------ C20 obstacle memory
// a cell of the fine grid (a third of the histogram's resolution) is covered once min_n new points fell into it: its
// min_n-th point stands for it; then remembered points fill the cells that are not covered, at most one each
void processPointcloud(pcl::PointCloud<pcl::PointXYZI>& cloud, const std::vector<pcl::PointCloud<pcl::PointXYZ>>& fresh, const std::vector<FOV>& fov, float yaw, float pitch,
                       const Vector3f& position, float rmin, float rmax, float max_age, float elapsed, int min_n) {
  const int res = ALPHA_RES / 3;
  pcl::PointCloud<pcl::PointXYZI> out, old = cloud;
  Eigen::MatrixXi count(180 / res, 360 / res);
  count.fill(0);
  for (size_t c = 0; c < fresh.size(); c++)
    for (size_t k = 0; k < fresh[c].points.size(); k++) {
      const Vector3f p = avoidance::toEigen(fresh[c].points[k]);
      if (std::isnan(fresh[c].points[k].x) || std::isnan(fresh[c].points[k].y) || std::isnan(fresh[c].points[k].z)) continue;
      const float d2 = (position - p).squaredNorm();
      if (!(d2 > rmin * rmin) || !(d2 < rmax * rmax)) continue;
      const Vector2i i = avoidance::polarToHistogramIndex(avoidance::cartesianToPolarHistogram(p, position), res);
      const int n = count(i.y(), i.x()) + 1;
      count(i.y(), i.x()) = n;
      if (n == min_n) out.points.push_back(avoidance::toXYZI(p, 0.0f));
    }
  for (size_t k = 0; k < old.points.size(); k++) {
    const Vector3f p = avoidance::toEigen(old.points[k]);
    const float age = old.points[k].intensity;
    if (!((position - p).squaredNorm() < rmax * rmax)) continue;
    const Vector2i i = avoidance::polarToHistogramIndex(avoidance::cartesianToPolarHistogram(p, position), res);
    PolarPoint body = avoidance::cartesianToPolarFCU(p, position);
    body.e -= pitch;
    body.z -= yaw;
    avoidance::wrapPolar(body);
    if (count(i.y(), i.x()) < min_n && age < max_age && !avoidance::pointInsideFOV(fov, body)) {
      out.points.push_back(avoidance::toXYZI(p, age + elapsed));
      count(i.y(), i.x()) = min_n;
    }
  }
  cloud.points = out.points;
  cloud.header.stamp = fresh[0].header.stamp;
  cloud.header.frame_id = fresh[0].header.frame_id;
  cloud.height = 1;
  cloud.width = out.points.size();
  cloud.header.seq = 0;
  cloud.is_dense = true;
}
// ------------------------------------------------------------------------------------------------ histogram from a cloud
// every cell: mean distance of the points in it, 0 without points
void generateNewHistogram(Histogram& hist, const pcl::PointCloud<pcl::PointXYZI>& cloud, const Vector3f& position) {
  Eigen::MatrixXi n(GRID_LENGTH_E, GRID_LENGTH_Z);
  n.fill(0);
  for (size_t k = 0; k < cloud.points.size(); k++) {
    const PolarPoint p = avoidance::cartesianToPolarHistogram(avoidance::toEigen(cloud.points[k]), position);
    const Vector2i i = avoidance::polarToHistogramIndex(p, ALPHA_RES);
    n(i.y(), i.x()) += 1;
    hist.set_dist(i.y(), i.x(), hist.get_dist(i.y(), i.x()) + p.r);
  }
  for (int e = 0; e < GRID_LENGTH_E; e++)
    for (int z = 0; z < GRID_LENGTH_Z; z++) hist.set_dist(e, z, n(e, z) > 0 ? hist.get_dist(e, z) / n(e, z) : 0.f);
}
// nearest obstacle per azimuth among the elevations within +-10 degrees that lie within 1 m of the vehicle's height
void compressHistogramElevation(Histogram& flat, const Histogram& hist, const Vector3f& position) {
  const Vector2i lo = avoidance::polarToHistogramIndex(PolarPoint(-10.0f, 0.0f, 0.0f), ALPHA_RES);
  const Vector2i hi = avoidance::polarToHistogramIndex(PolarPoint(10.0f, 0.0f, 0.0f), ALPHA_RES);
  for (int e = lo.y(); e <= hi.y(); e++)
    for (int z = 0; z < GRID_LENGTH_Z; z++) {
      const float d = hist.get_dist(e, z);
      if (!(d > 0)) continue;
      const Vector3f o = avoidance::polarHistogramToCartesian(avoidance::histogramIndexToPolar(e, z, ALPHA_RES, d), position);
      if (std::abs(position.z() - o.z()) < 1.0f && (d < flat.get_dist(0, z) || flat.get_dist(0, z) == 0.f)) flat.set_dist(0, z, d);
    }
}
// ------------------------------------------------------------------------------------------------ C29 cost matrix
std::pair<float, float> costFunction(const PolarPoint& cand, float obstacle, const Vector3f& goal, const Vector3f& position, const Vector3f& velocity, const costParameters& par,
                                     const Vector3f& closest, const bool blocked) {
  const PolarPoint to_goal = avoidance::cartesianToPolarHistogram(goal, position), to_line = avoidance::cartesianToPolarHistogram(closest, position);
  const Vector3f dir = avoidance::polarHistogramToCartesian(cand, Vector3f(0.0f, 0.0f, 0.0f));
  const float a = avoidance::angleDifference(cand.z, to_goal.z), b = avoidance::angleDifference(cand.z, to_line.z);
  const float w = blocked ? 0.f : 0.5f, dist = (goal - position).norm();
  const float speed = par.velocity_cost_param * (velocity.norm() - dir.normalized().dot(velocity));
  const float yaw = (1.f - w) * par.yaw_cost_param * a * a + w * par.yaw_cost_param * b * b;
  float pitch = par.pitch_cost_param * (cand.e - to_goal.e) * (cand.e - to_goal.e);
  if (dist < 5.f) pitch = pitch / ((0.2 * dist) * (0.2 * dist));
  const float d = par.obstacle_cost_param - obstacle;
  float near = 0.0f;
  if (obstacle > 0) near = 5000.0f * (1 + d / sqrt(1 + d * d));
  return std::pair<float, float>(near, speed + yaw + pitch);
}
void getCostMatrix(const Histogram& hist, const Vector3f& goal, const Vector3f& position, const Vector3f& velocity, const costParameters& par, float margin, const Vector3f& closest,
                   const float rmax, const float rmin, Eigen::MatrixXf& cost, std::vector<uint8_t>& image) {
  Eigen::MatrixXf dist(GRID_LENGTH_E, GRID_LENGTH_Z);
  dist.fill(NAN);
  cost.resize(GRID_LENGTH_E, GRID_LENGTH_Z);
  cost.fill(NAN);
  const PolarPoint to_goal = avoidance::cartesianToPolarHistogram(goal, position);
  bool blocked = false;
  for (int j = -2; j <= 2; j++)
    for (int i = -5; i <= 5; i++) {
      const Vector2i c = avoidance::polarToHistogramIndex(PolarPoint(to_goal.e + (float)j * ALPHA_RES, to_goal.z + (float)i * ALPHA_RES, 0.f), ALPHA_RES);
      const float d = hist.get_dist(c.y(), c.x());
      if (d > rmin && d < rmax) blocked = true;
    }
  for (int e = 0; e < GRID_LENGTH_E; e++) {
    const float width = std::cos(avoidance::histogramIndexToPolar(e, 0, ALPHA_RES, 1).e * DEG_TO_RAD);
    const int step = static_cast<int>(std::round(1 / width));
    for (int z = 0; z < GRID_LENGTH_Z; z += step) {
      const PolarPoint dir = avoidance::histogramIndexToPolar(e, z, ALPHA_RES, 1.0f);
      const std::pair<float, float> c = avoidance::costFunction(dir, hist.get_dist(e, z), goal, position, velocity, par, closest, blocked);
      cost(e, z) = c.second;
      dist(e, z) = c.first;
    }
    if (step > 1) {
      int last = 0;
      for (int z = step; z < GRID_LENGTH_Z; z += step) {
        const float gc = (cost(e, z) - cost(e, last)) / step, gd = (dist(e, z) - dist(e, last)) / step;
        for (int i = 1; i < step; i++) {
          cost(e, last + i) = cost(e, last) + gc * i;
          dist(e, last + i) = dist(e, last) + gd * i;
        }
        last = z;
      }
      const int rest = GRID_LENGTH_Z - last;
      const float gc = (cost(e, 0) - cost(e, last)) / rest, gd = (dist(e, 0) - dist(e, last)) / rest;
      for (int i = 1; i < rest; i++) {
        cost(e, last + i) = cost(e, last) + gc * i;
        dist(e, last + i) = dist(e, last) + gd * i;
      }
    }
  }
  avoidance::smoothPolarMatrix(dist, (unsigned int)ceil(margin / ALPHA_RES));
  avoidance::generateCostImage(cost, dist, image);
  cost = cost + dist;
}
void generateCostImage(const Eigen::MatrixXf& cost, const Eigen::MatrixXf& dist, std::vector<uint8_t>& image) {
  const float top = std::max(cost.maxCoeff(), dist.maxCoeff());
  image.clear();
  for (int row = 0; row < GRID_LENGTH_E; row++)
    for (int z = 0; z < GRID_LENGTH_Z; z++) {
      const int e = GRID_LENGTH_E - 1 - row;
      image.push_back(static_cast<uint8_t>(std::max(0.0f, std::min(255.f, 255.f * dist(e, z) / top))));
      image.push_back(static_cast<uint8_t>(std::max(0.0f, std::min(255.f, 255.f * cost(e, z) / top))));
      image.push_back(0);
    }
}
int colorImageIndex(int e, int z, int color) { return 3 * (GRID_LENGTH_Z * (GRID_LENGTH_E - 1 - e) + z) + color; }
Eigen::ArrayXf getConicKernel(int r) {
  Eigen::ArrayXf k(2 * r + 1);
  for (int i = 0; i < k.rows(); i++) k(i) = std::max(0.f, 1.f + r - std::abs(i - r));
  const float top = k.maxCoeff();
  k *= 1.f / top;
  return k;
}
// the requested number of cheapest cells, cheapest first
void getBestCandidatesFromCostMatrix(const Eigen::MatrixXf& m, unsigned int count, std::vector<candidateDirection>& best) {
  std::priority_queue<candidateDirection, std::vector<candidateDirection>, std::less<candidateDirection>> worst_on_top;
  for (int e = 0; e < m.rows(); e++)
    for (int z = 0; z < m.cols(); z++) {
      const PolarPoint p = avoidance::histogramIndexToPolar(e, z, ALPHA_RES, 1.0);
      const candidateDirection c(m(e, z), p.e, p.z);
      if (worst_on_top.size() < count) {
        worst_on_top.push(c);
      } else if (c < worst_on_top.top()) {
        worst_on_top.push(c);
        worst_on_top.pop();
      }
    }
  best.clear();
  while (!worst_on_top.empty()) {
    best.push_back(worst_on_top.top());
    worst_on_top.pop();
  }
  std::reverse(best.begin(), best.end());
}
// the padded sphere: beyond a pole the columns continue half a turn away, mirrored; beyond the seam they repeat
void padPolarMatrix(const Eigen::MatrixXf& m, unsigned int n, Eigen::MatrixXf& pad) {
  const int R = m.rows(), C = m.cols(), half = floor(m.cols() / 2);
  pad.resize(R + 2 * n, C + 2 * n);
  pad.fill(0.0);
  pad.block(n, n, R, C) = m;
  pad.block(0, n, n, half) = m.block(0, half, n, half).colwise().reverse();
  pad.block(0, n + half, n, half) = m.block(0, 0, n, half).colwise().reverse();
  pad.block(R + n, n, n, half) = m.block(R - n, half, n, half).colwise().reverse();
  pad.block(R + n, n + half, n, half) = m.block(R - n, 0, n, half).colwise().reverse();
  pad.block(0, 0, pad.rows(), n) = pad.block(0, C, pad.rows(), n);
  pad.block(0, n + C, pad.rows(), n) = pad.block(0, n, pad.rows(), n);
}
void smoothPolarMatrix(Eigen::MatrixXf& m, unsigned int r) {
  Eigen::MatrixXf pad;
  avoidance::padPolarMatrix(m, r, pad);
  const Eigen::ArrayXf k = avoidance::getConicKernel(r);
  for (int z = 0; z < pad.cols(); z++) {
    const Eigen::ArrayXf col = pad.col(z);
    for (int e = 0; e < m.rows(); e++) pad(e + r, z) = (col.segment(e, 2 * r + 1) * k).sum();
  }
  for (int e = 0; e < m.rows(); e++) {
    const Eigen::ArrayXf row = pad.row(e + r);
    for (int z = 0; z < m.cols(); z++) m(e, z) = (row.segment(z, 2 * r + 1) * k).sum();
  }
}
// ------------------------------------------------------------------------------------------------ C28 setpoint on the path
bool getSetpointFromPath(const std::vector<Vector3f>& path, const ros::Time& made, float v, const ros::Time& now, Vector3f& setpoint) {
  const int n = path.size();
  if (n < 2) return false;
  if (n == 2) {
    setpoint = path[0];
    return true;
  }
  float left = (now - made).toSec() * v;       // distance to travel from path[n - 2]
  int k = n - 2;                               // on the segment from path[k] to path[k - 1]
  while (k > 1 && left > (path[k - 1] - path[k]).norm()) {
    left -= (path[k - 1] - path[k]).norm();
    k--;
  }
  const Vector3f s = path[k - 1] - path[k];
  setpoint = path[k] + (left / s.norm()) * s;
  return left < s.norm();
}
}
