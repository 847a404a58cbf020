// tf::Vector3 of the tf library, with its arithmetic (the analysis reads these bodies as part of the program)
#pragma once
#include <cmath>
namespace tf {
typedef double tfScalar;
class Vector3 {
 public:
  double vx = 0, vy = 0, vz = 0;
  Vector3() {}
  Vector3(double x, double y, double z) : vx(x), vy(y), vz(z) {}
  double x() const { return vx; }
  double y() const { return vy; }
  double z() const { return vz; }
  double getX() const { return vx; }
  double getY() const { return vy; }
  double getZ() const { return vz; }
  void setX(double v) { vx = v; }
  void setY(double v) { vy = v; }
  void setZ(double v) { vz = v; }
  Vector3 operator+(const Vector3& o) const { return Vector3(vx + o.vx, vy + o.vy, vz + o.vz); }
  Vector3 operator-(const Vector3& o) const { return Vector3(vx - o.vx, vy - o.vy, vz - o.vz); }
  Vector3 operator*(double s) const { return Vector3(vx * s, vy * s, vz * s); }
  Vector3 operator/(double s) const { return Vector3(vx / s, vy / s, vz / s); }
  Vector3& operator*=(double s) { vx *= s; vy *= s; vz *= s; return *this; }
  Vector3& operator+=(const Vector3& o) { vx += o.vx; vy += o.vy; vz += o.vz; return *this; }
  Vector3& operator-=(const Vector3& o) { vx -= o.vx; vy -= o.vy; vz -= o.vz; return *this; }
  Vector3& operator/=(double s) { vx /= s; vy /= s; vz /= s; return *this; }
  double length2() const { return vx * vx + vy * vy + vz * vz; }
  double length() const { return std::sqrt(length2()); }
  double dot(const Vector3& o) const { return vx * o.vx + vy * o.vy + vz * o.vz; }
  double distance(const Vector3& o) const { return (*this - o).length(); }
  Vector3& normalize() { return *this /= length(); }
  Vector3 normalized() const { return *this / length(); }
};
}  // namespace tf
