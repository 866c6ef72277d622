#ifndef SIMROS_TF_H
#define SIMROS_TF_H
#include <ros/ros.h>
#include <geometry_msgs/TransformStamped.h>
#include <geometry_msgs/PointStamped.h>
#include <geometry_msgs/PoseStamped.h>
namespace tf {
struct Vector3 { double v[3]; Vector3() : v{0,0,0} {} Vector3(double x, double y, double z) : v{x,y,z} {} double x() const { return v[0]; } double y() const { return v[1]; } double z() const { return v[2]; } };
struct Quaternion { double v[4]; Quaternion() : v{0,0,0,1} {} Quaternion(double x, double y, double z, double w) : v{x,y,z,w} {}
  double x() const { return v[0]; } double y() const { return v[1]; } double z() const { return v[2]; } double w() const { return v[3]; } };
struct Transform { Vector3 o; Quaternion q; Transform() {} Transform(const Quaternion& r, const Vector3& t = Vector3()) : o(t), q(r) {}
  void setOrigin(const Vector3& t) { o = t; } void setRotation(const Quaternion& r) { q = r; } const Vector3& getOrigin() const { return o; } Quaternion getRotation() const { return q; } };
struct StampedTransform : Transform { ros::Time stamp_; std::string frame_id_, child_frame_id_;
  StampedTransform(const Transform& t, const ros::Time& s, const std::string& f, const std::string& c) : Transform(t), stamp_(s), frame_id_(f), child_frame_id_(c) {} };
class TransformBroadcaster {
 public:
  TransformBroadcaster() {}
  void sendTransform(const StampedTransform& t) {
    geometry_msgs::TransformStamped m;
    m.header.stamp = t.stamp_; m.header.frame_id = t.frame_id_; m.child_frame_id = t.child_frame_id_;
    m.transform.translation.x = t.o.x(); m.transform.translation.y = t.o.y(); m.transform.translation.z = t.o.z();
    m.transform.rotation.x = t.q.x(); m.transform.rotation.y = t.q.y(); m.transform.rotation.z = t.q.z(); m.transform.rotation.w = t.q.w();
    ros::Publisher("/tf").publish(m);
  }
};
}
#endif
