#include "spec.h"
#include "avoidance/common.h"
#include <cmath>
using namespace avoidance;
using Eigen::Vector2f;
using Eigen::Vector3f;
namespace spec {
// ------------------------------------------------------------------------------------------------ C30 angles
float wrapAngleToPlusMinusPI(float a) { return a - 2.0f * M_PI_F * std::floor((a + M_PI_F) / (2.0f * M_PI_F)); }
float wrapAngleToPlusMinus180(float a) { return a - 360.f * std::floor((a + 180.f) / 360.f); }
// elevations beyond a pole are folded back, the azimuth turns half a circle
void wrapPolar(PolarPoint& p) {
  float e = avoidance::wrapAngleToPlusMinus180(p.e), z = avoidance::wrapAngleToPlusMinus180(p.z);
  const bool over = e > 90.0f, under = e < -90.0f;
  if (over) e = 180.0f - e;
  else if (under) e = -180.0f - e;
  if (over || under) z = z < 0.f ? z + 180.f : z - 180.f;
  p.e = e;
  p.z = z;
}
float indexAngleDifference(float a, float b) {
  return std::min(std::abs(a - b + 360.f), std::min(std::abs(a - b - 360.f), std::abs(a - b)));
}
float angleDifference(float a, float b) {
  float d = fmod(a - b, 360.f);
  if (d >= 180.f) return d - 360.f;
  if (d < -180.f) return d + 360.f;
  return d;
}
// half the shorter signed turn
double getAngularVelocity(float desired_yaw, float curr_yaw) {
  const float one = avoidance::wrapAngleToPlusMinusPI(desired_yaw) - curr_yaw;
  const float other = one > 0.0f ? one - 2.0f * M_PI_F : one + 2.0f * M_PI_F;
  return 0.5 * (std::abs(one) <= std::abs(other) ? one : other);
}
float nextYaw(const Vector3f& u, const Vector3f& v) { return atan2(v.y() - u.y(), v.x() - u.x()); }
float getYawFromQuaternion(const Eigen::Quaternionf q) {
  return atan2(2.f * (q.w() * q.z() + q.x() * q.y()), 1.f - 2.f * (q.y() * q.y() + q.z() * q.z())) * RAD_TO_DEG;
}
float getPitchFromQuaternion(const Eigen::Quaternionf q) {
  const float s = 2.f * (q.w() * q.y() - q.z() * q.x());
  return (fabs(s) >= 1.f ? copysign(M_PI / 2.f, s) : asin(s)) * RAD_TO_DEG;
}
float distance2DPolar(const PolarPoint& a, const PolarPoint& b) { return std::sqrt(std::pow(a.e - b.e, 2) + std::pow(a.z - b.z, 2)); }
// histogram convention: azimuth clockwise from +y, elevation up
Vector3f polarHistogramToCartesian(const PolarPoint& p, const Vector3f& pos) {
  const float e = p.e * DEG_TO_RAD, z = p.z * DEG_TO_RAD;
  return pos + p.r * Vector3f(std::cos(e) * std::sin(z), std::cos(e) * std::cos(z), std::sin(e));
}
// flight controller convention: azimuth counter-clockwise from +x
Vector3f polarFCUToCartesian(const PolarPoint& p, const Vector3f& pos) {
  const float t = (90.0f - p.e) * DEG_TO_RAD, z = p.z * DEG_TO_RAD;
  return pos + p.r * Vector3f(std::sin(t) * std::cos(z), std::sin(t) * std::sin(z), std::cos(t));
}
static PolarPoint toPolar(float x, float y, float z, const Vector3f& o) {
  const float dx = x - o.x(), dy = y - o.y(), dz = z - o.z();
  return PolarPoint(std::atan2(dz, std::sqrt(dx * dx + dy * dy)) * RAD_TO_DEG, std::atan2(dx, dy) * RAD_TO_DEG, std::sqrt(dx * dx + dy * dy + dz * dz));
}
PolarPoint cartesianToPolarHistogram_v(const Vector3f& p, const Vector3f& o) { return toPolar(p.x(), p.y(), p.z(), o); }
PolarPoint cartesianToPolarHistogram_f(float x, float y, float z, const Vector3f& o) { return toPolar(x, y, z, o); }
static PolarPoint toFCU(const Vector3f& p, const Vector3f& o) {
  PolarPoint h = toPolar(p.x(), p.y(), p.z(), o);
  PolarPoint f(-h.e, 90.0f - h.z, h.r);
  avoidance::wrapPolar(f);
  return f;
}
PolarPoint cartesianToPolarFCU_v(const Vector3f& p, const Vector3f& o) { return toFCU(p, o); }
PolarPoint cartesianToPolarFCU_p(const pcl::PointXYZ& p) { return toFCU(Vector3f(p.x, p.y, p.z), Vector3f(0.f, 0.f, 0.f)); }
PolarPoint histogramIndexToPolar(int e, int z, int res, float radius) {
  return PolarPoint(e * res + res / 2 - 90, z * res + res / 2 - 180, radius);
}
static int clampTo(int v, int n) {
  if (v >= n) v = n - 1;
  return v < 0 ? 0 : v;
}
Eigen::Vector2i polarToHistogramIndex(const PolarPoint& p, int res) {
  PolarPoint w = p;
  avoidance::wrapPolar(w);
  return Eigen::Vector2i(clampTo(static_cast<int>(floor(w.z / res + 180.0f / res)), 360 / res), clampTo(static_cast<int>(floor(w.e / res + 90.0f / res)), 180 / res));
}
void createPoseMsg(Vector3f& out_waypt, Eigen::Quaternionf& out_q, const Vector3f& in_waypt, float yaw) {
  out_waypt = in_waypt;
  out_q = Eigen::AngleAxisf(0.f, Vector3f::UnitX()) * Eigen::AngleAxisf(0.f, Vector3f::UnitY()) * Eigen::AngleAxisf(yaw, Vector3f::UnitZ());
}
// ------------------------------------------------------------------------------------------------ C31 conversions
Vector3f toNED(const Vector3f& v) { return Vector3f(v.y(), v.x(), -v.z()); }
Vector3f toENU(const Vector3f& v) { return Vector3f(v.y(), v.x(), -v.z()); }
float yawToNEDdeg(const float yaw) { return 90.f - yaw; }
float yawToNEDrad(const float yaw) { return M_PI / 2.f - yaw; }
float yawToENUdeg(const float yaw) { return 90.f - yaw; }
float yawToENUrad(const float yaw) { return M_PI / 2.f - yaw; }
float pitchtoNED(const float p) { return -p; }
float pitchToENU(const float p) { return -p; }
Vector3f toEigen_point(const geometry_msgs::Point& p) { return Vector3f(p.x, p.y, p.z); }
Vector3f toEigen_vector(const geometry_msgs::Vector3& p) { return Vector3f(p.x, p.y, p.z); }
Vector3f toEigen_xyz(const pcl::PointXYZ& p) { return Vector3f(p.x, p.y, p.z); }
Vector3f toEigen_xyzi(const pcl::PointXYZI& p) { return Vector3f(p.x, p.y, p.z); }
Eigen::Quaternionf toEigen_q(const geometry_msgs::Quaternion& q) { return Eigen::Quaternionf(q.w, q.x, q.y, q.z); }
geometry_msgs::Point toPoint(const Vector3f& v) {
  geometry_msgs::Point p;
  p.x = v.x(), p.y = v.y(), p.z = v.z();
  return p;
}
static geometry_msgs::Vector3 vec3(const Vector3f& v) {
  geometry_msgs::Vector3 p;
  p.x = v.x(), p.y = v.y(), p.z = v.z();
  return p;
}
geometry_msgs::Vector3 toVector3(const Vector3f& v) { return vec3(v); }
geometry_msgs::Quaternion toQuaternion(const Eigen::Quaternionf& q) {
  geometry_msgs::Quaternion r;
  r.w = q.w(), r.x = q.x(), r.y = q.y(), r.z = q.z();
  return r;
}
pcl::PointXYZ toXYZ(const Vector3f& v) {
  pcl::PointXYZ p;
  p.x = v.x(), p.y = v.y(), p.z = v.z();
  return p;
}
static pcl::PointXYZI xyzi(float x, float y, float z, float i) {
  pcl::PointXYZI p;
  p.x = x, p.y = y, p.z = z, p.intensity = i;
  return p;
}
pcl::PointXYZI toXYZI_v(const Vector3f& v, float i) { return xyzi(v.x(), v.y(), v.z(), i); }
pcl::PointXYZI toXYZI_f(float x, float y, float z, float i) { return xyzi(x, y, z, i); }
pcl::PointXYZI toXYZI_p(const pcl::PointXYZ& p, float i) { return xyzi(p.x, p.y, p.z, i); }
geometry_msgs::Twist toTwist(const Vector3f& l, const Vector3f& a) {
  geometry_msgs::Twist t;
  t.linear = vec3(l);
  t.angular = vec3(a);
  return t;
}
geometry_msgs::PoseStamped toPoseStamped(const Vector3f& p, const Eigen::Quaternionf& q) {
  geometry_msgs::PoseStamped m;
  m.header.stamp = ros::Time::now();
  m.header.frame_id = "local_origin";
  m.pose.position.x = p.x(), m.pose.position.y = p.y(), m.pose.position.z = p.z();
  m.pose.orientation.w = q.w(), m.pose.orientation.x = q.x(), m.pose.orientation.y = q.y(), m.pose.orientation.z = q.z();
  return m;
}
Eigen::Quaterniond quaternionFromRPY(const Eigen::Vector3d& rpy) {
  return Eigen::Quaterniond(Eigen::AngleAxisd(rpy.z(), Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(rpy.y(), Eigen::Vector3d::UnitY()) *
                            Eigen::AngleAxisd(rpy.x(), Eigen::Vector3d::UnitX()));
}
Eigen::Quaterniond orientationToNED(const Eigen::Quaterniond& q) {
  return avoidance::quaternionFromRPY(NED_ENU_RPY) * (q * avoidance::quaternionFromRPY(AIRCRAFT_BASELINK_RPY));
}
Eigen::Quaterniond orientationToENU(const Eigen::Quaterniond& q) {
  return (avoidance::quaternionFromRPY(NED_ENU_RPY) * q) * avoidance::quaternionFromRPY(AIRCRAFT_BASELINK_RPY);
}
// ------------------------------------------------------------------------------------------------ C05 / C06 trajectory messages
static void unused(mavros_msgs::PositionTarget& p) {
  p.position.x = p.position.y = p.position.z = NAN;
  p.velocity.x = p.velocity.y = p.velocity.z = NAN;
  p.acceleration_or_force.x = p.acceleration_or_force.y = p.acceleration_or_force.z = NAN;
  p.yaw = p.yaw_rate = NAN;
}
void fillUnusedTrajectoryPoint(mavros_msgs::PositionTarget& p) { unused(p); }
void transformToTrajectory(mavros_msgs::Trajectory& m, geometry_msgs::PoseStamped pose, geometry_msgs::Twist vel) {
  m.header.stamp = ros::Time::now();
  m.type = 0;
  unused(m.point_1);
  m.point_1.position = pose.pose.position;
  m.point_1.velocity.x = vel.linear.x;
  m.point_1.velocity.y = vel.linear.y;
  m.point_1.velocity.z = vel.linear.z;
  m.point_1.yaw = tf::getYaw(pose.pose.orientation);
  m.point_1.yaw_rate = -vel.angular.z;
  unused(m.point_2);
  unused(m.point_3);
  unused(m.point_4);
  unused(m.point_5);
  m.time_horizon = {NAN, NAN, NAN, NAN, NAN};
  m.point_valid = {true, false, false, false, false};
}
static void control(mavros_msgs::PositionTarget& out, const Eigen::Vector4d& in) {
  out.position.x = static_cast<float>(in[1]);
  out.position.y = static_cast<float>(in[0]);
  out.position.z = -static_cast<float>(in[2]);
  out.yaw = M_PI / 2.f - static_cast<float>(in[3]);
}
void fillControlPoint(mavros_msgs::PositionTarget& out, const Eigen::Vector4d& in) { control(out, in); }
void transformToBezier(mavros_msgs::Trajectory& m, const std::array<Eigen::Vector4d, 5>& c, double duration) {
  m.header.stamp = ros::Time::now();
  m.type = 1;
  control(m.point_1, c[0]);
  control(m.point_2, c[1]);
  control(m.point_3, c[2]);
  control(m.point_4, c[3]);
  control(m.point_5, c[4]);
  m.time_horizon = {NAN, NAN, NAN, NAN, static_cast<float>(duration)};
  m.point_valid = {true, true, true, true, true};
}
// ------------------------------------------------------------------------------------------------ C19 cloud cleaning
pcl::PointCloud<pcl::PointXYZ> removeNaNAndGetMaxima(pcl::PointCloud<pcl::PointXYZ>& cloud) {
  pcl::PointCloud<pcl::PointXYZ> kept;
  int xh = -1, xl = -1, yh = -1, yl = -1, zh = -1, zl = -1;
  float xmax = -9999.f, xmin = 9999.f, ymax = -9999.f, ymin = 9999.f, zmax = -9999.f, zmin = 9999.f;
  for (const pcl::PointXYZ& p : cloud.points) {
    if (std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.z)) {
      const int n = kept.points.size();
      if (p.x > xmax) xmax = p.x, xh = n;
      if (p.x < xmin) xmin = p.x, xl = n;
      if (p.y > ymax) ymax = p.y, yh = n;
      if (p.y < ymin) ymin = p.y, yl = n;
      if (p.z > zmax) zmax = p.z, zh = n;
      if (p.z < zmin) zmin = p.z, zl = n;
      kept.points.push_back(p);
    }
  }
  cloud.points = kept.points;
  cloud.height = 1;
  cloud.width = kept.points.size();
  cloud.is_dense = true;
  pcl::PointCloud<pcl::PointXYZ> maxima;
  maxima.header.frame_id = cloud.header.frame_id;
  if (xh >= 0) maxima.push_back(kept.points[xh]);
  if (yh >= 0) maxima.push_back(kept.points[yh]);
  if (zh >= 0) maxima.push_back(kept.points[zh]);
  if (xl >= 0) maxima.push_back(kept.points[xl]);
  if (yl >= 0) maxima.push_back(kept.points[yl]);
  if (zl >= 0) maxima.push_back(kept.points[zl]);
  return maxima;
}
void updateFOVFromMaxima(FOV& fov, const pcl::PointCloud<pcl::PointXYZ>& maxima) {
  float h0 = 9999.f, h1 = -9999.f, v0 = 9999.f, v1 = -9999.f;
  for (const pcl::PointXYZ& p : maxima.points) {
    const PolarPoint d = avoidance::cartesianToPolarFCU(p);
    h0 = std::min(h0, d.z + 180.f);
    h1 = std::max(h1, d.z + 180.f);
    v0 = std::min(v0, d.e + 90.f);
    v1 = std::max(v1, d.e + 90.f);
  }
  const float direct = h1 - h0, around = 360.0f - h1 + h0;
  const float h = std::min(direct, around), v = std::min(v1 - v0, 360.f - v1 + v0);
  if (h > fov.h_fov_deg) {
    fov.h_fov_deg = h;
    fov.yaw_deg = avoidance::wrapAngleToPlusMinus180((h1 + h0) / 2.0 - (direct <= around ? 180.0f : 0.f));
  }
  if (v > fov.v_fov_deg) {
    fov.v_fov_deg = v;
    fov.pitch_deg = (v1 + v0) / 2.f - 90.f;
  }
}
// ------------------------------------------------------------------------------------------------ C42 field of view
static bool yawInside(const FOV& f, float z) { return std::abs(avoidance::wrapAngleToPlusMinus180(z - f.yaw_deg)) <= f.h_fov_deg / 2.f; }
static bool inside(const FOV& f, const PolarPoint& p) { return yawInside(f, p.z) && std::abs(p.e - f.pitch_deg) <= f.v_fov_deg / 2.f; }
bool pointInsideFOV(const FOV& f, const PolarPoint& p) { return inside(f, p); }
bool pointInsideFOV_any(const std::vector<FOV>& v, const PolarPoint& p) {
  bool any = false;
  for (size_t i = 0; i < v.size(); i++) any = any || avoidance::pointInsideFOV(v[i], p);
  return any;
}
bool pointInsideYawFOV(const FOV& f, const PolarPoint& p) { return yawInside(f, p.z); }
bool pointInsideYawFOV_any(const std::vector<FOV>& v, const PolarPoint& p) {
  bool any = false;
  for (size_t i = 0; i < v.size(); i++) any = any || avoidance::pointInsideYawFOV(v[i], p);
  return any;
}
static PolarPoint edge(int idx, const Vector3f& position, float yaw, float off) {
  const Vector3f c = avoidance::polarHistogramToCartesian(avoidance::histogramIndexToPolar(GRID_LENGTH_E / 2, idx, ALPHA_RES, 1.f), position);
  PolarPoint p = avoidance::cartesianToPolarFCU(c, position);
  p.z = p.z - yaw + off;
  avoidance::wrapPolar(p);
  return p;
}
bool histogramIndexYawInsideFOV(const FOV& f, const int idx, Vector3f position, float yaw) {
  return avoidance::pointInsideFOV(f, edge(idx, position, yaw, ALPHA_RES / 2.f)) || avoidance::pointInsideFOV(f, edge(idx, position, yaw, -ALPHA_RES / 2.f));
}
bool histogramIndexYawInsideFOV_any(const std::vector<FOV>& f, const int idx, Vector3f position, float yaw) {
  return avoidance::pointInsideFOV(f, edge(idx, position, yaw, ALPHA_RES / 2.f)) || avoidance::pointInsideFOV(f, edge(idx, position, yaw, -ALPHA_RES / 2.f));
}
bool isInWhichFOV(const std::vector<FOV>& v, const PolarPoint& p, int& idx) {
  int found = -1;
  for (int i = 0; i < v.size(); i++)
    if (avoidance::pointInsideYawFOV(v[i], p)) {
      if (found >= 0) {
        idx = -1;
        return false;
      }
      found = i;
    }
  idx = found;
  return found >= 0;
}
bool isOnEdgeOfFOV(const std::vector<FOV>& v, const PolarPoint& p, int& idx) {
  int i = -1;
  bool r = false;
  if (avoidance::isInWhichFOV(v, p, i)) {
    PolarPoint outside = p;
    const float half = v[i].h_fov_deg / 2.0f + ALPHA_RES / 2.0f;
    outside.z = avoidance::wrapAngleToPlusMinus180(avoidance::wrapAngleToPlusMinus180(p.z - v[i].yaw_deg) > 0.0f ? v[i].yaw_deg + half : v[i].yaw_deg - half);
    r = !avoidance::pointInsideYawFOV(v, outside);
    if (!r) i = -1;
  }
  idx = i;
  return r;
}
float scaleToFOV(const std::vector<FOV>& v, const PolarPoint& p) {
  int i;
  if (!avoidance::isOnEdgeOfFOV(v, p, i)) return avoidance::pointInsideYawFOV(v, p) ? 1.f : 0.f;
  const float raw = std::abs(p.z - v[i].yaw_deg);
  const float d = std::min(std::min(raw, std::abs(360.f - raw)), v[i].h_fov_deg / 2.f);
  return 1.0f - 2.0f * d / v[i].h_fov_deg;
}
}
