// tf::Transform as the pair of translation and rotation (the analysis reads these bodies as part of the program)
#pragma once
namespace tf {
class Transform {
 public:
  Vector3 o; Quaternion r;
  Transform() {}
  Transform(const Quaternion& q, const Vector3& v = Vector3()) : o(v), r(q) {}
  const Vector3& getOrigin() const { return o; }
  Quaternion getRotation() const { return r; }
  void setOrigin(const Vector3& v) { o = v; }
  void setRotation(const Quaternion& q) { r = q; }
  void setIdentity() { o = Vector3(); r = Quaternion(); }
};
class StampedTransform : public Transform {
 public:
  ros::Time stamp_; std::string frame_id_, child_frame_id_;
  StampedTransform() {}
  StampedTransform(const Transform& t, const ros::Time& s, const std::string& f, const std::string& c) : Transform(t), stamp_(s), frame_id_(f), child_frame_id_(c) {}
};
}  // namespace tf
