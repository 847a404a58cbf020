#include "spec.h"
#include "avoidance/transform_buffer.h"
using namespace avoidance::tf_buffer;
namespace spec {
typedef std::unordered_map<std::string, std::deque<tf::StampedTransform>> Buffers;
std::string getKey(const TransformBuffer*, const std::string& source, const std::string& target) { return source + "_to_" + target; }
// interpolation only between the two given stamps; nothing is written otherwise
bool interpolateTransform(const TransformBuffer*, const tf::StampedTransform& a, const tf::StampedTransform& b, tf::StampedTransform& t) {
  if (t.stamp_ < a.stamp_ || b.stamp_ < t.stamp_) return false;
  const float f = static_cast<float>((t.stamp_ - a.stamp_).toNSec()) / (b.stamp_ - a.stamp_).toNSec();
  t.setOrigin(a.getOrigin() * (1.f - f) + b.getOrigin() * f);
  t.setRotation(a.getRotation().slerp(b.getRotation(), f));
  return true;
}
// strictly newer transforms are appended, entries older than the window are dropped from the front
bool insertTransform(TransformBuffer* self, const std::string& source, const std::string& target, tf::StampedTransform t) {
  const std::string key = self->getKey(source, target);
  if (self->buffer_.count(key) == 0) self->buffer_[key] = std::deque<tf::StampedTransform>();
  std::deque<tf::StampedTransform>& q = self->buffer_[key];
  if (q.size() > 0 && !(q.back().stamp_ < t.stamp_)) return false;
  q.push_back(t);
  while (t.stamp_ - q.front().stamp_ > self->buffer_size_) q.pop_front();
  return true;
}
// the last buffered transform not later than the requested time and its successor bracket the answer
bool getTransform(const TransformBuffer* self, const std::string& source, const std::string& target, const ros::Time& time, tf::StampedTransform& t) {
  const std::string key = self->getKey(source, target);
  if (self->buffer_.count(key) == 0) return false;
  const std::deque<tf::StampedTransform>& q = self->buffer_.at(key);
  if (q.size() == 0 || q.back().stamp_ < time || q.front().stamp_ > time) return false;
  for (size_t j = 0; j + 1 < q.size(); j++) {
    const size_t i = q.size() - 2 - j;
    if (q[i].stamp_ <= time) {
      t.stamp_ = time;
      return self->interpolateTransform(q[i], q[i + 1], t);
    }
  }
  return false;
}
}
