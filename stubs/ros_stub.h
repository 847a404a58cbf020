// Minimal, header-only stand-in for the ROS / mavros / PCL / octomap / tf / yaml-cpp API surface which PX4-Avoidance
// uses.  It lets clang parse every translation unit of the repository with resolved types, and is functional enough
// that the seeded demonstrations can link ROS-dependent sources against it.
#pragma once
#include <float.h>
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <ctime>
#include <deque>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <queue>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <Eigen/Core>
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <Eigen/StdVector>
#define BOOST_BIND_GLOBAL_PLACEHOLDERS 1
#include <boost/array.hpp>
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/algorithm/string.hpp>

// ---------------------------------------------------------------- ros core
namespace ros {
class Duration {
 public:
  int32_t sec = 0, nsec = 0;
  Duration() {}
  Duration(int32_t s, int32_t n) { fromNSec(int64_t(s) * 1000000000LL + n); }
  explicit Duration(double t) { fromSec(t); }
  Duration& fromSec(double t) {
    sec = (int32_t)floor(t);
    nsec = (int32_t)std::round((t - sec) * 1e9);
    if (nsec >= 1000000000) { sec++; nsec -= 1000000000; }
    return *this;
  }
  Duration& fromNSec(int64_t t) {
    sec = (int32_t)(t / 1000000000LL);
    nsec = (int32_t)(t % 1000000000LL);
    if (nsec < 0) { nsec += 1000000000; sec--; }
    return *this;
  }
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; }
  int64_t toNSec() const { return (int64_t)sec * 1000000000LL + nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  bool sleep() const { return true; }
  Duration operator+(const Duration& o) const { Duration d; d.fromNSec(toNSec() + o.toNSec()); return d; }
  Duration operator-(const Duration& o) const { Duration d; d.fromNSec(toNSec() - o.toNSec()); return d; }
  Duration operator-() const { Duration d; d.fromNSec(-toNSec()); return d; }
  Duration operator*(double s) const { return Duration(toSec() * s); }
  Duration& operator+=(const Duration& o) { *this = *this + o; return *this; }
  Duration& operator-=(const Duration& o) { *this = *this - o; return *this; }
  Duration& operator*=(double s) { *this = *this * s; return *this; }
  bool operator==(const Duration& o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const Duration& o) const { return toNSec() != o.toNSec(); }
  bool operator<(const Duration& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Duration& o) const { return toNSec() > o.toNSec(); }
  bool operator<=(const Duration& o) const { return toNSec() <= o.toNSec(); }
  bool operator>=(const Duration& o) const { return toNSec() >= o.toNSec(); }
};
class WallDuration {
 public:
  double s = 0;
  WallDuration() {}
  explicit WallDuration(double t) : s(t) {}
  WallDuration(int32_t a, int32_t n) : s(a + 1e-9 * n) {}
  double toSec() const { return s; }
  bool sleep() const { return true; }
};
class Time {
 public:
  uint32_t sec = 0, nsec = 0;
  Time() {}
  Time(uint32_t s, uint32_t n) { fromNSec(uint64_t(s) * 1000000000ULL + n); }
  explicit Time(double t) { fromSec(t); }
  static int64_t& stubNow() { static int64_t n = 1000LL * 1000000000LL; return n; }
  static Time now() { Time t; t.fromNSec((uint64_t)stubNow()); return t; }
  static void init() {}
  static bool isValid() { return true; }
  static bool waitForValid() { return true; }
  static bool waitForValid(const WallDuration&) { return true; }
  static void setNow(const Time& t) { stubNow() = (int64_t)t.toNSec(); }
  Time& fromSec(double t) {
    sec = (uint32_t)floor(t);
    nsec = (uint32_t)std::round((t - sec) * 1e9);
    if (nsec >= 1000000000u) { sec++; nsec -= 1000000000u; }
    return *this;
  }
  Time& fromNSec(uint64_t t) { sec = (uint32_t)(t / 1000000000ULL); nsec = (uint32_t)(t % 1000000000ULL); return *this; }
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; }
  uint64_t toNSec() const { return (uint64_t)sec * 1000000000ULL + nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  Duration operator-(const Time& o) const { Duration d; d.fromNSec((int64_t)toNSec() - (int64_t)o.toNSec()); return d; }
  Time operator+(const Duration& d) const { Time t; t.fromNSec((uint64_t)((int64_t)toNSec() + d.toNSec())); return t; }
  Time operator-(const Duration& d) const { Time t; t.fromNSec((uint64_t)((int64_t)toNSec() - d.toNSec())); return t; }
  Time& operator+=(const Duration& d) { *this = *this + d; return *this; }
  Time& operator-=(const Duration& d) { *this = *this - d; return *this; }
  bool operator==(const Time& o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const Time& o) const { return toNSec() != o.toNSec(); }
  bool operator<(const Time& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Time& o) const { return toNSec() > o.toNSec(); }
  bool operator<=(const Time& o) const { return toNSec() <= o.toNSec(); }
  bool operator>=(const Time& o) const { return toNSec() >= o.toNSec(); }
};
typedef Time WallTime;
inline std::ostream& operator<<(std::ostream& o, const Time& t) { return o << t.toSec(); }
inline std::ostream& operator<<(std::ostream& o, const Duration& t) { return o << t.toSec(); }

struct TimerEvent { Time last_expected, last_real, current_expected, current_real; };
class CallbackQueue {
 public:
  void callAvailable() {}
  void callAvailable(WallDuration) {}
  void callOne() {}
};
typedef CallbackQueue CallbackQueueInterface;
inline CallbackQueue* getGlobalCallbackQueue() { static CallbackQueue q; return &q; }
struct TimerOptions {
  Duration period;
  boost::function<void(const TimerEvent&)> callback;
  CallbackQueue* queue = nullptr;
  TimerOptions() {}
  TimerOptions(Duration p, const boost::function<void(const TimerEvent&)>& cb, CallbackQueue* q, bool = false, bool = true)
      : period(p), callback(cb), queue(q) {}
};
class Timer {
 public:
  boost::function<void(const TimerEvent&)> cb;
  void start() {}
  void stop() {}
  void setPeriod(const Duration&, bool = true) {}
};
class AsyncSpinner {
 public:
  AsyncSpinner(uint32_t, CallbackQueue* = nullptr) {}
  void start() {}
  void stop() {}
};
class Rate {
 public:
  Rate(double) {}
  Rate(const Duration&) {}
  bool sleep() { return true; }
};
// everything published by the process, by topic
struct StubBus {
  std::mutex m;
  std::vector<std::pair<std::string, std::shared_ptr<void>>> log;
};
inline StubBus& stubBus() { static StubBus b; return b; }
template <typename M> std::vector<M> stubPublished(const std::string& topic) {
  std::vector<M> r;
  std::lock_guard<std::mutex> l(stubBus().m);
  for (auto& e : stubBus().log) if (e.first == topic) r.push_back(*std::static_pointer_cast<M>(e.second));
  return r;
}
inline void stubClear() { std::lock_guard<std::mutex> l(stubBus().m); stubBus().log.clear(); }
class Publisher {
 public:
  std::string topic;
  template <typename M> void publish(const M& m) const {
    std::lock_guard<std::mutex> l(stubBus().m);
    stubBus().log.push_back({topic, std::make_shared<M>(m)});
  }
  template <typename M> void publish(const boost::shared_ptr<M>& m) const { publish(*m); }
  uint32_t getNumSubscribers() const { return 1; }
  std::string getTopic() const { return topic; }
  void shutdown() {}
};
class Subscriber {
 public:
  std::shared_ptr<void> keep;
  void shutdown() {}
  std::string getTopic() const { return ""; }
  uint32_t getNumPublishers() const { return 1; }
};
class ServiceClient {
 public:
  std::function<bool(void*)> handler;
  template <typename T> bool call(T& req) { return handler ? handler(&req) : false; }
  bool exists() { return true; }
};
class ServiceServer {};
struct TransportHints { TransportHints& tcpNoDelay(bool = true) { return *this; } };
struct VoidT {};
class NodeHandle {
 public:
  std::string ns;
  NodeHandle(const std::string& n = "") : ns(n) {}
  NodeHandle(const NodeHandle&, const std::string& n) : ns(n) {}
  template <typename M> Publisher advertise(const std::string& t, uint32_t, bool = false) { Publisher p; p.topic = t; return p; }
  template <typename M, typename T> Subscriber subscribe(const std::string&, uint32_t, void (T::*)(M), T*, const TransportHints& = TransportHints()) { return Subscriber(); }
  template <typename M, typename T> Subscriber subscribe(const std::string&, uint32_t, void (T::*)(M) const, T*, const TransportHints& = TransportHints()) { return Subscriber(); }
  template <typename M> Subscriber subscribe(const std::string&, uint32_t, void (*)(M)) { return Subscriber(); }
  template <typename M> Subscriber subscribe(const std::string&, uint32_t, const boost::function<void(const boost::shared_ptr<M const>&)>&, const boost::shared_ptr<void const>& = boost::shared_ptr<void const>(), const TransportHints& = TransportHints()) { return Subscriber(); }
  template <typename T> Timer createTimer(Duration, void (T::*)(const TimerEvent&), T*, bool = false, bool = true) const { return Timer(); }
  Timer createTimer(Duration, const boost::function<void(const TimerEvent&)>& f, bool = false, bool = true) const { Timer t; t.cb = f; return t; }
  Timer createTimer(TimerOptions& o) const { Timer t; t.cb = o.callback; return t; }
  template <typename S> ServiceClient serviceClient(const std::string&, bool = false) { return ServiceClient(); }
  static std::map<std::string, std::vector<std::string>>& strlists() { static std::map<std::string, std::vector<std::string>> m; return m; }
  template <typename T> bool param(const std::string&, T& v, const T& d) const { v = d; return false; }
  template <typename T> T param(const std::string&, const T& d) const { return d; }
  template <typename T> bool getParam(const std::string&, T&) const { return false; }
  bool getParam(const std::string& k, std::vector<std::string>& v) const { auto it = strlists().find(k); if (it == strlists().end()) return false; v = it->second; return true; }
  bool hasParam(const std::string&) const { return false; }
  template <typename T> void setParam(const std::string&, const T&) const {}
  void setCallbackQueue(CallbackQueue*) {}
  std::string getNamespace() const { return ns; }
  std::string resolveName(const std::string& n, bool = true) const { return n; }
};
inline void init(int&, char**, const std::string&, uint32_t = 0) {}
inline std::atomic<bool>& stubOk() { static std::atomic<bool> b{true}; return b; }
inline bool ok() { return stubOk(); }
inline void spin() {}
inline void spinOnce() {}
inline void shutdown() { stubOk() = false; }
namespace this_node { inline const std::string& getName() { static std::string n = "node"; return n; } inline const std::string& getNamespace() { static std::string n = ""; return n; } }
namespace names { inline const std::map<std::string, std::string>& getRemappings() { static std::map<std::string, std::string> m; return m; } }
namespace param { template <typename T> bool get(const std::string&, T&) { return false; } inline bool has(const std::string&) { return false; } template <typename T> void set(const std::string&, const T&) {} }
namespace console { namespace levels { enum Level { Debug, Info, Warn, Error, Fatal, Count }; } inline bool set_logger_level(const std::string&, levels::Level) { return true; } inline void notifyLoggerLevelsChanged() {} }
inline void stubLog(const char*, ...) {}
struct StubStream { template <typename T> StubStream& operator<<(const T&) { return *this; } };
}  // namespace ros
#define ROSCONSOLE_DEFAULT_NAME "ros"
#define ROS_DEBUG(...) ::ros::stubLog(__VA_ARGS__)
#define ROS_INFO(...) ::ros::stubLog(__VA_ARGS__)
#define ROS_WARN(...) ::ros::stubLog(__VA_ARGS__)
#define ROS_ERROR(...) ::ros::stubLog(__VA_ARGS__)
#define ROS_FATAL(...) ::ros::stubLog(__VA_ARGS__)
#define ROS_DEBUG_ONCE(...) ::ros::stubLog(__VA_ARGS__)
#define ROS_INFO_ONCE(...) ::ros::stubLog(__VA_ARGS__)
#define ROS_WARN_ONCE(...) ::ros::stubLog(__VA_ARGS__)
#define ROS_ERROR_ONCE(...) ::ros::stubLog(__VA_ARGS__)
#define ROS_DEBUG_THROTTLE(r, ...) ::ros::stubLog(__VA_ARGS__)
#define ROS_INFO_THROTTLE(r, ...) ::ros::stubLog(__VA_ARGS__)
#define ROS_WARN_THROTTLE(r, ...) ::ros::stubLog(__VA_ARGS__)
#define ROS_ERROR_THROTTLE(r, ...) ::ros::stubLog(__VA_ARGS__)
#define ROS_DEBUG_COND(c, ...) ::ros::stubLog(__VA_ARGS__)
#define ROS_INFO_COND(c, ...) ::ros::stubLog(__VA_ARGS__)
#define ROS_WARN_COND(c, ...) ::ros::stubLog(__VA_ARGS__)
#define ROS_DEBUG_STREAM(x) do { ::ros::StubStream s__; s__ << x; } while (0)
#define ROS_INFO_STREAM(x) do { ::ros::StubStream s__; s__ << x; } while (0)
#define ROS_WARN_STREAM(x) do { ::ros::StubStream s__; s__ << x; } while (0)
#define ROS_ERROR_STREAM(x) do { ::ros::StubStream s__; s__ << x; } while (0)
#define ROS_ASSERT(x) ((void)0)
#define NODELET_DEBUG(...) ::ros::stubLog(__VA_ARGS__)
#define NODELET_INFO(...) ::ros::stubLog(__VA_ARGS__)
#define NODELET_WARN(...) ::ros::stubLog(__VA_ARGS__)
#define NODELET_ERROR(...) ::ros::stubLog(__VA_ARGS__)
#define PLUGINLIB_EXPORT_CLASS(a, b)

// ---------------------------------------------------------------- messages
#define STUB_PTRS(T) typedef boost::shared_ptr<T> Ptr; typedef boost::shared_ptr<T const> ConstPtr;
#define STUB_FREEPTRS(T) typedef boost::shared_ptr<T> T##Ptr; typedef boost::shared_ptr<T const> T##ConstPtr;
namespace std_msgs {
struct Header { uint32_t seq = 0; ros::Time stamp; std::string frame_id; STUB_PTRS(Header) };
struct ColorRGBA { float r = 0, g = 0, b = 0, a = 0; };
struct Bool { bool data = 0; STUB_PTRS(Bool) };
struct Float64 { double data = 0; STUB_PTRS(Float64) };
struct UInt32 { uint32_t data = 0; STUB_PTRS(UInt32) };
struct String { std::string data; STUB_PTRS(String) };
struct MultiArrayDimension { std::string label; uint32_t size = 0, stride = 0; };
struct MultiArrayLayout { std::vector<MultiArrayDimension> dim; uint32_t data_offset = 0; };
struct Float64MultiArray { MultiArrayLayout layout; std::vector<double> data; STUB_PTRS(Float64MultiArray) };
struct Int64MultiArray { MultiArrayLayout layout; std::vector<int64_t> data; STUB_PTRS(Int64MultiArray) };
}
namespace geometry_msgs {
struct Point { double x = 0, y = 0, z = 0; STUB_PTRS(Point) };
struct Vector3 { double x = 0, y = 0, z = 0; STUB_PTRS(Vector3) };
struct Quaternion { double x = 0, y = 0, z = 0, w = 0; STUB_PTRS(Quaternion) };
struct Pose { Point position; Quaternion orientation; STUB_PTRS(Pose) };
struct Twist { Vector3 linear, angular; STUB_PTRS(Twist) };
struct Transform { Vector3 translation; Quaternion rotation; };
struct PoseStamped { std_msgs::Header header; Pose pose; STUB_PTRS(PoseStamped) };
struct PointStamped { std_msgs::Header header; Point point; STUB_PTRS(PointStamped) };
struct TwistStamped { std_msgs::Header header; Twist twist; STUB_PTRS(TwistStamped) };
struct Vector3Stamped { std_msgs::Header header; Vector3 vector; STUB_PTRS(Vector3Stamped) };
struct TransformStamped { std_msgs::Header header; std::string child_frame_id; Transform transform; };
struct PoseArray { std_msgs::Header header; std::vector<Pose> poses; };
STUB_FREEPTRS(PoseStamped) STUB_FREEPTRS(TwistStamped)
}
namespace nav_msgs {
struct Path { std_msgs::Header header; std::vector<geometry_msgs::PoseStamped> poses; STUB_PTRS(Path) };
struct GridCells { std_msgs::Header header; float cell_width = 0, cell_height = 0; std::vector<geometry_msgs::Point> cells; };
struct Odometry { std_msgs::Header header; STUB_PTRS(Odometry) };
}
namespace sensor_msgs {
struct PointField { enum { INT8 = 1, UINT8, INT16, UINT16, INT32, UINT32, FLOAT32, FLOAT64 }; std::string name; uint32_t offset = 0; uint8_t datatype = 0; uint32_t count = 0; };
struct PointCloud2 {
  std_msgs::Header header; uint32_t height = 0, width = 0; std::vector<PointField> fields; bool is_bigendian = 0;
  uint32_t point_step = 0, row_step = 0; std::vector<uint8_t> data; bool is_dense = 0;
  std::vector<std::array<float, 4>> stub_points; STUB_PTRS(PointCloud2) };
STUB_FREEPTRS(PointCloud2)
struct Image { std_msgs::Header header; uint32_t height = 0, width = 0; std::string encoding; bool is_bigendian = 0; uint32_t step = 0; std::vector<uint8_t> data; STUB_PTRS(Image) };
struct CameraInfo { std_msgs::Header header; uint32_t height = 0, width = 0; boost::array<double, 9> K; STUB_PTRS(CameraInfo) };
struct Range { std_msgs::Header header; float range = 0; STUB_PTRS(Range) };
struct LaserScan { std_msgs::Header header; float angle_min = 0, angle_max = 0, angle_increment = 0, time_increment = 0, scan_time = 0, range_min = 0, range_max = 0; std::vector<float> ranges, intensities; STUB_PTRS(LaserScan) };
struct PointCloud2Modifier { PointCloud2Modifier(PointCloud2&) {} void setPointCloud2Fields(int, ...) {} void setPointCloud2FieldsByString(int, ...) {} void resize(size_t) {} };
template <typename T> struct PointCloud2Iterator { T v; PointCloud2Iterator(PointCloud2&, const std::string&) {} T& operator*() { return v; } PointCloud2Iterator& operator++() { return *this; } };
namespace image_encodings { const std::string MONO8 = "mono8"; const std::string RGB8 = "rgb8"; }
}
namespace visualization_msgs {
struct Marker {
  enum { ARROW = 0, CUBE, SPHERE, CYLINDER, LINE_STRIP, LINE_LIST, CUBE_LIST, SPHERE_LIST, POINTS, TEXT_VIEW_FACING, MESH_RESOURCE, TRIANGLE_LIST };
  enum { ADD = 0, MODIFY = 0, DELETE = 2, DELETEALL = 3 };
  std_msgs::Header header; std::string ns; int32_t id = 0, type = 0, action = 0; geometry_msgs::Pose pose; geometry_msgs::Vector3 scale;
  std_msgs::ColorRGBA color; ros::Duration lifetime; bool frame_locked = 0; std::vector<geometry_msgs::Point> points; std::vector<std_msgs::ColorRGBA> colors;
  std::string text, mesh_resource; bool mesh_use_embedded_materials = 0; };
struct MarkerArray { std::vector<Marker> markers; };
}
namespace mavros_msgs {
struct PositionTarget { std_msgs::Header header; uint8_t coordinate_frame = 0; uint16_t type_mask = 0; geometry_msgs::Point position; geometry_msgs::Vector3 velocity, acceleration_or_force; float yaw = 0, yaw_rate = 0; };
struct Trajectory {
  enum { MAV_TRAJECTORY_REPRESENTATION_WAYPOINTS = 0, MAV_TRAJECTORY_REPRESENTATION_BEZIER = 1 };
  std_msgs::Header header; uint8_t type = 0; PositionTarget point_1, point_2, point_3, point_4, point_5;
  boost::array<bool, 5> point_valid; boost::array<uint16_t, 5> command; boost::array<float, 5> time_horizon;
  Trajectory() { point_valid.fill(false); command.fill(0); time_horizon.fill(0); }
  STUB_PTRS(Trajectory) };
struct State { std_msgs::Header header; bool connected = false, armed = false, guided = false, manual_input = false; std::string mode; uint8_t system_status = 0; STUB_PTRS(State) };
struct Altitude { std_msgs::Header header; float monotonic = 0, amsl = 0, local = 0, relative = 0, terrain = 0, bottom_clearance = 0; STUB_PTRS(Altitude) };
struct CompanionProcessStatus { std_msgs::Header header; uint8_t state = 0, component = 0; STUB_PTRS(CompanionProcessStatus) };
struct ParamValue { int64_t integer = 0; double real = 0; };
struct Param { std_msgs::Header header; std::string param_id; ParamValue value; uint16_t param_index = 0, param_count = 0; STUB_PTRS(Param) };
struct ParamGetRequest { std::string param_id; };
struct ParamGetResponse { bool success = false; ParamValue value; };
struct ParamGet { typedef ParamGetRequest Request; typedef ParamGetResponse Response; Request request; Response response; };
struct SetModeRequest { uint8_t base_mode = 0; std::string custom_mode; };
struct SetModeResponse { bool mode_sent = 0; };
struct SetMode { SetModeRequest request; SetModeResponse response; };
struct Waypoint { uint8_t frame = 0; uint16_t command = 0; bool is_current = false, autocontinue = false; float param1 = 0, param2 = 0, param3 = 0, param4 = 0; double x_lat = 0, y_long = 0, z_alt = 0; };
struct WaypointList { uint16_t current_seq = 0; std::vector<Waypoint> waypoints; STUB_PTRS(WaypointList) };
}

// ---------------------------------------------------------------- tf
#include "tf_vector.h"
namespace tf {
typedef double tfScalar;
typedef Vector3 Point;
class Quaternion {
 public:
  double q[4] = {0, 0, 0, 1};
  Quaternion() {}
  Quaternion(double x, double y, double z, double w) { q[0] = x; q[1] = y; q[2] = z; q[3] = w; }
  double x() const { return q[0]; } double y() const { return q[1]; } double z() const { return q[2]; } double w() const { return q[3]; }
  double getX() const { return q[0]; } double getY() const { return q[1]; } double getZ() const { return q[2]; } double getW() const { return q[3]; }
  void setRPY(double r, double p, double y) { Eigen::Quaterniond e(Eigen::AngleAxisd(y, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(p, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(r, Eigen::Vector3d::UnitX())); q[0] = e.x(); q[1] = e.y(); q[2] = e.z(); q[3] = e.w(); }
  Quaternion slerp(const Quaternion& o, double t) const { Eigen::Quaterniond a(q[3], q[0], q[1], q[2]), b(o.q[3], o.q[0], o.q[1], o.q[2]); auto r = a.slerp(t, b); return Quaternion(r.x(), r.y(), r.z(), r.w()); }
  Quaternion& normalize() { return *this; }
};
class Matrix3x3 {
 public:
  Quaternion q;
  Matrix3x3() {}
  Matrix3x3(const Quaternion& x) : q(x) {}
  void getRPY(double& r, double& p, double& y, unsigned = 1) const { Eigen::Quaterniond e(q.w(), q.x(), q.y(), q.z()); r = atan2(2 * (e.w() * e.x() + e.y() * e.z()), 1 - 2 * (e.x() * e.x() + e.y() * e.y())); p = asin(2 * (e.w() * e.y() - e.z() * e.x())); y = atan2(2 * (e.w() * e.z() + e.x() * e.y()), 1 - 2 * (e.y() * e.y() + e.z() * e.z())); }
};
}
#include "tf_transform.h"
namespace tf {
class TransformException : public std::runtime_error { public: TransformException(const std::string& s) : std::runtime_error(s) {} };
class LookupException : public TransformException { public: using TransformException::TransformException; };
class ExtrapolationException : public TransformException { public: using TransformException::TransformException; };
class Transformer {
 public:
  static constexpr double DEFAULT_CACHE_TIME = 10.0;
  bool waitForTransform(const std::string&, const std::string&, const ros::Time&, const ros::Duration&, const ros::Duration& = ros::Duration(0.01), std::string* = nullptr) const { return true; }
  bool canTransform(const std::string&, const std::string&, const ros::Time&, std::string* = nullptr) const { return true; }
  void lookupTransform(const std::string&, const std::string&, const ros::Time&, StampedTransform&) const {}
  int getLatestCommonTime(const std::string&, const std::string&, ros::Time&, std::string*) const { return 0; }
};
class TransformListener : public Transformer {
 public:
  TransformListener(ros::Duration = ros::Duration(10.0), bool = true) {}
  void transformVector(const std::string&, const geometry_msgs::Vector3Stamped&, geometry_msgs::Vector3Stamped&) const {}
  void transformVector(const std::string&, const ros::Time&, const geometry_msgs::Vector3Stamped&, const std::string&, geometry_msgs::Vector3Stamped&) const {}
};
class TransformBroadcaster { public: void sendTransform(const StampedTransform&) {} };
inline double getYaw(const geometry_msgs::Quaternion& q) { return atan2(2 * (q.w * q.z + q.x * q.y), 1 - 2 * (q.y * q.y + q.z * q.z)); }
inline double getYaw(const Quaternion& q) { return atan2(2 * (q.w() * q.z() + q.x() * q.y()), 1 - 2 * (q.y() * q.y() + q.z() * q.z())); }
inline geometry_msgs::Quaternion createQuaternionMsgFromYaw(double y) { geometry_msgs::Quaternion q; q.z = sin(y / 2); q.w = cos(y / 2); return q; }
inline Quaternion createQuaternionFromYaw(double y) { return Quaternion(0, 0, sin(y / 2), cos(y / 2)); }
inline void quaternionTFToMsg(const Quaternion& a, geometry_msgs::Quaternion& b) { b.x = a.x(); b.y = a.y(); b.z = a.z(); b.w = a.w(); }
inline void quaternionMsgToTF(const geometry_msgs::Quaternion& a, Quaternion& b) { b = Quaternion(a.x, a.y, a.z, a.w); }
inline void pointMsgToTF(const geometry_msgs::Point& a, Vector3& b) { b = Vector3(a.x, a.y, a.z); }
inline void pointTFToMsg(const Vector3& a, geometry_msgs::Point& b) { b.x = a.x(); b.y = a.y(); b.z = a.z(); }
}

// ---------------------------------------------------------------- pcl
namespace pcl {
struct PCLHeader { uint32_t seq = 0; uint64_t stamp = 0; std::string frame_id; };
struct PointXYZ { float x = 0, y = 0, z = 0; PointXYZ() {} PointXYZ(float a, float b, float c) : x(a), y(b), z(c) {} };
struct PointXYZI { float x = 0, y = 0, z = 0, intensity = 0; PointXYZI() {} PointXYZI(float i) : intensity(i) {} PointXYZI(float a, float b, float c, float i = 0) : x(a), y(b), z(c), intensity(i) {} };
template <typename P> class PointCloud {
 public:
  PCLHeader header; std::vector<P> points; uint32_t width = 0, height = 0; bool is_dense = true;
  typedef boost::shared_ptr<PointCloud<P>> Ptr; typedef boost::shared_ptr<const PointCloud<P>> ConstPtr;
  typedef typename std::vector<P>::iterator iterator; typedef typename std::vector<P>::const_iterator const_iterator;
  typedef P PointType; typedef P value_type;
  iterator begin() { return points.begin(); } iterator end() { return points.end(); }
  const_iterator begin() const { return points.begin(); } const_iterator end() const { return points.end(); }
  size_t size() const { return points.size(); } bool empty() const { return points.empty(); }
  void reserve(size_t n) { points.reserve(n); } void resize(size_t n) { points.resize(n); if (width * height != n) { width = n; height = 1; } }
  const P& operator[](size_t i) const { return points[i]; } P& operator[](size_t i) { return points[i]; }
  const P& at(size_t i) const { return points.at(i); } P& at(size_t i) { return points.at(i); }
  const P& front() const { return points.front(); } const P& back() const { return points.back(); }
  void push_back(const P& p) { points.push_back(p); width = points.size(); height = 1; }
  template <class... A> void emplace_back(A&&... a) { points.emplace_back(a...); width = points.size(); height = 1; }
  iterator erase(iterator i) { iterator r = points.erase(i); width = points.size(); height = 1; return r; }
  iterator erase(iterator a, iterator b) { iterator r = points.erase(a, b); width = points.size(); height = 1; return r; }
  void clear() { points.clear(); width = 0; height = 0; }
  void swap(PointCloud& o) { std::swap(*this, o); }
  PointCloud& operator+=(const PointCloud& o) { points.insert(points.end(), o.points.begin(), o.points.end()); width = points.size(); height = 1; return *this; }
  PointCloud operator+(const PointCloud& o) const { PointCloud c(*this); c += o; return c; }
  Ptr makeShared() const { return Ptr(new PointCloud(*this)); }
};
template <typename P> void fromROSMsg(const sensor_msgs::PointCloud2& m, PointCloud<P>& c) { c.clear(); c.header.frame_id = m.header.frame_id; c.header.stamp = m.header.stamp.toNSec() / 1000ULL; c.header.seq = m.header.seq; for (auto& s : m.stub_points) { P p; p.x = s[0]; p.y = s[1]; p.z = s[2]; c.push_back(p); } }
template <typename P> void toROSMsg(const PointCloud<P>& c, sensor_msgs::PointCloud2& m) { m.header.frame_id = c.header.frame_id; m.stub_points.clear(); for (auto& p : c.points) m.stub_points.push_back({p.x, p.y, p.z, 0.f}); }
template <typename P> void removeNaNFromPointCloud(const PointCloud<P>& in, PointCloud<P>& out, std::vector<int>& idx) { PointCloud<P> r; r.header = in.header; idx.clear(); for (size_t i = 0; i < in.size(); i++) if (std::isfinite(in[i].x) && std::isfinite(in[i].y) && std::isfinite(in[i].z)) { r.push_back(in[i]); idx.push_back(i); } out = r; }
}
namespace pcl_conversions {
inline std_msgs::Header fromPCL(const pcl::PCLHeader& h) { std_msgs::Header r; r.seq = h.seq; r.stamp.fromNSec(h.stamp * 1000ULL); r.frame_id = h.frame_id; return r; }
inline void fromPCL(const pcl::PCLHeader& h, std_msgs::Header& r) { r = fromPCL(h); }
inline ros::Time fromPCL(uint64_t s) { ros::Time t; t.fromNSec(s * 1000ULL); return t; }
inline pcl::PCLHeader toPCL(const std_msgs::Header& h) { pcl::PCLHeader r; r.seq = h.seq; r.stamp = h.stamp.toNSec() / 1000ULL; r.frame_id = h.frame_id; return r; }
inline uint64_t toPCL(const ros::Time& t) { return t.toNSec() / 1000ULL; }
}
namespace pcl_ros {
template <typename P> void transformPointCloud(const pcl::PointCloud<P>& in, pcl::PointCloud<P>& out, const tf::Transform& t) { out = in; const auto& o = t.getOrigin(); for (auto& p : out.points) { p.x += o.x(); p.y += o.y(); p.z += o.z(); } }
template <typename P> bool transformPointCloud(const std::string& f, const pcl::PointCloud<P>& in, pcl::PointCloud<P>& out, const tf::TransformListener&) { out = in; out.header.frame_id = f; return true; }
inline void transformPointCloud(const std::string& f, const tf::Transform&, const sensor_msgs::PointCloud2& in, sensor_msgs::PointCloud2& out) { out = in; out.header.frame_id = f; }
inline bool transformPointCloud(const std::string& f, const sensor_msgs::PointCloud2& in, sensor_msgs::PointCloud2& out, const tf::TransformListener&) { out = in; out.header.frame_id = f; return true; }
}

// ---------------------------------------------------------------- octomap
namespace octomap {
class AbstractOcTree { public: virtual ~AbstractOcTree() {} virtual double getResolution() const { return 1.0; } };
class OcTreeNode { public: float v = 0; float getValue() const { return v; } float getLogOdds() const { return v; } double getOccupancy() const { return 1.0 / (1.0 + exp(-v)); } };
class OcTree : public AbstractOcTree {
 public:
  double res = 1.0; std::map<std::tuple<int, int, int>, OcTreeNode> nodes;
  OcTree(double r = 1.0) : res(r) {}
  double getResolution() const override { return res; }
  OcTreeNode* search(double x, double y, double z, unsigned = 0) const { auto& n = const_cast<OcTree*>(this)->nodes; auto it = n.find(std::make_tuple((int)floor(x), (int)floor(y), (int)floor(z))); return it == n.end() ? nullptr : &it->second; }
  size_t memoryUsage() const { return 0; }
  size_t size() const { return nodes.size(); }
  unsigned getTreeDepth() const { return 16; }
};
inline double probability(double l) { return 1.0 - (1.0 / (1.0 + exp(l))); }
inline float logodds(double p) { return (float)log(p / (1 - p)); }
}
namespace octomap_msgs {
struct Octomap { std_msgs::Header header; bool binary = false; std::string id; double resolution = 1.0; std::vector<int8_t> data; octomap::OcTree* stub_tree = nullptr; STUB_PTRS(Octomap) };
inline octomap::AbstractOcTree* msgToMap(const Octomap& m) { return m.stub_tree; }
inline octomap::AbstractOcTree* fullMsgToMap(const Octomap& m) { return m.stub_tree; }
inline octomap::AbstractOcTree* binaryMsgToMap(const Octomap& m) { return m.stub_tree; }
}

// ---------------------------------------------------------------- dynamic_reconfigure, nodelet, yaml
namespace dynamic_reconfigure {
template <class C> class Server {
 public:
  typedef boost::function<void(C&, uint32_t)> CallbackType;
  CallbackType cb;
  Server(const ros::NodeHandle& = ros::NodeHandle()) {}
  Server(boost::recursive_mutex&, const ros::NodeHandle& = ros::NodeHandle()) {}
  void setCallback(const CallbackType& f) { cb = f; }
  void updateConfig(const C&) {}
  void getConfigDefault(C& c) { c = C(); }
  void clearCallback() {}
};
}
namespace nodelet {
typedef std::map<std::string, std::string> M_string;
typedef std::vector<std::string> V_string;
class Nodelet {
 public:
  ros::NodeHandle nh_stub, pnh_stub;
  virtual ~Nodelet() {}
  virtual void onInit() = 0;
  const std::string& getName() const { static std::string n = "nodelet"; return n; }
  ros::NodeHandle& getNodeHandle() { return nh_stub; }
  ros::NodeHandle& getPrivateNodeHandle() { return pnh_stub; }
  ros::NodeHandle& getMTNodeHandle() { return nh_stub; }
};
class Loader { public: bool load(const std::string&, const std::string&, const M_string&, const V_string&) { return true; } };
}
namespace YAML {
class Node {
 public:
  template <typename K> Node operator[](const K&) const { return Node(); }
  template <typename T> T as() const { return T(); }
  bool IsDefined() const { return true; }
  typedef std::vector<Node>::const_iterator const_iterator;
  struct CI { Node operator*() const { return Node(); } CI& operator++() { return *this; } bool operator!=(const CI&) const { return false; } bool operator==(const CI&) const { return true; } };
  CI begin() const { return CI(); } CI end() const { return CI(); }
  size_t size() const { return 0; }
};
typedef Node::CI const_iterator;
inline Node Load(std::istream&) { return Node(); }
inline Node Load(const std::string&) { return Node(); }
inline Node LoadFile(const std::string&) { return Node(); }
}
