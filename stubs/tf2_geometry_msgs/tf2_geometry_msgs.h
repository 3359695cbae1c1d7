#pragma once
#include <tf2/LinearMath/Transform.h>
#include <tf2/utils.h>
#include <geometry_msgs/TransformStamped.h>
#include <geometry_msgs/PoseStamped.h>
#include <geometry_msgs/PointStamped.h>
#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include <geometry_msgs/Vector3Stamped.h>
#include <geometry_msgs/QuaternionStamped.h>
namespace tf2
{
inline geometry_msgs::Quaternion toMsg(const Quaternion& a) { geometry_msgs::Quaternion q; q.x = a.x(); q.y = a.y(); q.z = a.z(); q.w = a.w(); return q; }
inline geometry_msgs::Vector3 toMsg(const Vector3& a) { geometry_msgs::Vector3 v; v.x = a.x(); v.y = a.y(); v.z = a.z(); return v; }
inline geometry_msgs::Point& toMsg(const Vector3& a, geometry_msgs::Point& o) { o.x = a.x(); o.y = a.y(); o.z = a.z(); return o; }
inline geometry_msgs::Transform toMsg(const Transform& a) { geometry_msgs::Transform t; t.translation = toMsg(a.getOrigin()); t.rotation = toMsg(a.getRotation()); return t; }
inline geometry_msgs::Pose& toMsg(const Transform& a, geometry_msgs::Pose& o) { toMsg(a.getOrigin(), o.position); o.orientation = toMsg(a.getRotation()); return o; }
inline geometry_msgs::TransformStamped toMsg(const Stamped<Transform>& a)
{ geometry_msgs::TransformStamped t; t.header.stamp = a.stamp_; t.header.frame_id = a.frame_id_; t.transform = toMsg(static_cast<const Transform&>(a)); return t; }
inline geometry_msgs::QuaternionStamped toMsg(const Stamped<Quaternion>& a)
{ geometry_msgs::QuaternionStamped t; t.header.stamp = a.stamp_; t.header.frame_id = a.frame_id_; t.quaternion = toMsg(static_cast<const Quaternion&>(a)); return t; }
inline void fromMsg(const geometry_msgs::Vector3& a, Vector3& o) { o = Vector3(a.x, a.y, a.z); }
inline void fromMsg(const geometry_msgs::Point& a, Vector3& o) { o = Vector3(a.x, a.y, a.z); }
inline void fromMsg(const geometry_msgs::Quaternion& a, Quaternion& o) { o = Quaternion(a.x, a.y, a.z, a.w); }
inline void fromMsg(const geometry_msgs::Transform& a, Transform& o)
{ o = Transform(Quaternion(a.rotation.x, a.rotation.y, a.rotation.z, a.rotation.w), Vector3(a.translation.x, a.translation.y, a.translation.z)); }
inline void fromMsg(const geometry_msgs::Pose& a, Transform& o)
{ o = Transform(Quaternion(a.orientation.x, a.orientation.y, a.orientation.z, a.orientation.w), Vector3(a.position.x, a.position.y, a.position.z)); }
inline void fromMsg(const geometry_msgs::TransformStamped& a, Stamped<Transform>& o)
{ Transform t; fromMsg(a.transform, t); o = Stamped<Transform>(t, a.header.stamp, a.header.frame_id); }
inline void fromMsg(const geometry_msgs::PoseStamped& a, Stamped<Transform>& o)
{ Transform t; fromMsg(a.pose, t); o = Stamped<Transform>(t, a.header.stamp, a.header.frame_id); }
inline void fromMsg(const geometry_msgs::QuaternionStamped& a, Stamped<Quaternion>& o)
{ Quaternion q; fromMsg(a.quaternion, q); o = Stamped<Quaternion>(q, a.header.stamp, a.header.frame_id); }
inline void doTransform(const geometry_msgs::Pose& in, geometry_msgs::Pose& out, const geometry_msgs::TransformStamped& t)
{ Transform a, b; fromMsg(t.transform, a); fromMsg(in, b); toMsg(a * b, out); }
inline void doTransform(const geometry_msgs::PoseStamped& in, geometry_msgs::PoseStamped& out, const geometry_msgs::TransformStamped& t)
{ doTransform(in.pose, out.pose, t); out.header.stamp = t.header.stamp; out.header.frame_id = t.header.frame_id; }
inline void doTransform(const geometry_msgs::PointStamped& in, geometry_msgs::PointStamped& out, const geometry_msgs::TransformStamped& t)
{ Transform a; fromMsg(t.transform, a); Vector3 v; fromMsg(in.point, v); toMsg(a(v), out.point); out.header.frame_id = t.header.frame_id; }
inline void doTransform(const geometry_msgs::Vector3Stamped& in, geometry_msgs::Vector3Stamped& out, const geometry_msgs::TransformStamped& t)
{ Transform a; fromMsg(t.transform, a); Vector3 v; fromMsg(in.vector, v); out.vector = toMsg(a.getBasis() * v); out.header.frame_id = t.header.frame_id; }
}
