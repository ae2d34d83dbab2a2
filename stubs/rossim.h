// Simulated ROS 1 (the subset the repository's nodes use): clock, parameters,
// topics, transforms and bags live in this process.  Buffer, interpolation,
// message filter and error semantics follow roscpp, tf/tf2 and rosbag.
// Nothing here draws random numbers: the scenario decides what is delivered.
#ifndef VERIF_ROSSIM_H
#define VERIF_ROSSIM_H
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <vector>

namespace rossim { void yield(const char *where); int64_t clock_ns(); void sleep_ns(int64_t ns); }

// ---- time ------------------------------------------------------------------
namespace ros {
class Duration {
public:
  int32_t sec = 0, nsec = 0;
  Duration() {}
  Duration(int32_t s, int32_t n) { fromNSec((int64_t)s * 1000000000ll + n); }
  explicit Duration(double t) { fromSec(t); }
  Duration &fromSec(double t) { return fromNSec((int64_t)std::llround(t * 1e9)); }
  Duration &fromNSec(int64_t t) { int64_t s = t / 1000000000ll, n = t % 1000000000ll; if (n < 0) { n += 1000000000ll; --s; }
    if (s > std::numeric_limits<int32_t>::max() || s < std::numeric_limits<int32_t>::min()) throw std::runtime_error("Duration is out of dual 32-bit range"); sec = (int32_t)s; nsec = (int32_t)n; return *this; }
  int64_t toNSec() const { return (int64_t)sec * 1000000000ll + nsec; }
  double toSec() const { return sec + 1e-9 * nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  bool sleep() const { rossim::sleep_ns(toNSec()); return true; }
  Duration operator+(const Duration &o) const { Duration d; d.fromNSec(toNSec() + o.toNSec()); return d; }
  Duration operator-(const Duration &o) const { Duration d; d.fromNSec(toNSec() - o.toNSec()); return d; }
  Duration operator-() const { Duration d; d.fromNSec(-toNSec()); return d; }
  Duration operator*(double s) const { return Duration(toSec() * s); }
  Duration &operator+=(const Duration &o) { return *this = *this + o; }
  Duration &operator-=(const Duration &o) { return *this = *this - o; }
  bool operator==(const Duration &o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const Duration &o) const { return toNSec() != o.toNSec(); }
  bool operator<(const Duration &o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Duration &o) const { return toNSec() > o.toNSec(); }
  bool operator<=(const Duration &o) const { return toNSec() <= o.toNSec(); }
  bool operator>=(const Duration &o) const { return toNSec() >= o.toNSec(); }
};
using WallDuration = Duration;
struct TimeNotInitializedException : std::runtime_error { TimeNotInitializedException() : std::runtime_error("Cannot use ros::Time::now() before the first NodeHandle has been created or ros::start() has been called.") {} };
class Time {
public:
  uint32_t sec = 0, nsec = 0;
  Time() {}
  Time(uint32_t s, uint32_t n) { fromNSec((uint64_t)s * 1000000000ull + n); }
  explicit Time(double t) { fromSec(t); }
  Time &fromSec(double t) { if (t < 0) throw std::runtime_error("Time cannot be negative."); return fromNSec((uint64_t)std::llround(t * 1e9)); }
  Time &fromNSec(uint64_t t) { uint64_t s = t / 1000000000ull; if (s > std::numeric_limits<uint32_t>::max()) throw std::runtime_error("Time is out of dual 32-bit range"); sec = (uint32_t)s; nsec = (uint32_t)(t % 1000000000ull); return *this; }
  uint64_t toNSec() const { return (uint64_t)sec * 1000000000ull + nsec; }
  double toSec() const { return sec + 1e-9 * nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  static Time now();
  static void init();
  static bool isValid();
  static bool waitForValid() { return true; }
  Duration operator-(const Time &o) const { Duration d; d.fromNSec((int64_t)toNSec() - (int64_t)o.toNSec()); return d; }
  Time operator+(const Duration &o) const { int64_t t = (int64_t)toNSec() + o.toNSec(); if (t < 0) throw std::runtime_error("Time is out of dual 32-bit range"); Time r; r.fromNSec(t); return r; }
  Time operator-(const Duration &o) const { return *this + -o; }
  Time &operator+=(const Duration &o) { return *this = *this + o; }
  Time &operator-=(const Duration &o) { return *this = *this - o; }
  bool operator==(const Time &o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const Time &o) const { return toNSec() != o.toNSec(); }
  bool operator<(const Time &o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Time &o) const { return toNSec() > o.toNSec(); }
  bool operator<=(const Time &o) const { return toNSec() <= o.toNSec(); }
  bool operator>=(const Time &o) const { return toNSec() >= o.toNSec(); }
};
using WallTime = Time;
inline std::ostream &operator<<(std::ostream &os, const Time &t) { auto f = os.fill(); auto w = os.width(); os << t.sec << "." << std::setw(9) << std::setfill('0') << t.nsec; os.fill(f); os.width(w); return os; }
inline std::ostream &operator<<(std::ostream &os, const Duration &t) { os << t.toSec(); return os; }
}  // namespace ros

// ---- messages --------------------------------------------------------------
namespace std_msgs { struct Header { uint32_t seq = 0; ros::Time stamp; std::string frame_id; }; }
namespace geometry_msgs {
struct Vector3 { double x = 0, y = 0, z = 0; };
struct Point { double x = 0, y = 0, z = 0; };
struct Quaternion { double x = 0, y = 0, z = 0, w = 0; };
struct Transform { Vector3 translation; Quaternion rotation; };
struct TransformStamped { std_msgs::Header header; std::string child_frame_id; Transform transform; };
struct Pose { Point position; Quaternion orientation; };
struct PoseStamped { std_msgs::Header header; Pose pose; };
}
namespace sensor_msgs {
struct LaserScan {
  std_msgs::Header header;
  float angle_min = 0, angle_max = 0, angle_increment = 0, time_increment = 0, scan_time = 0, range_min = 0, range_max = 0;
  std::vector<float> ranges, intensities;
  using Ptr = boost::shared_ptr<LaserScan>; using ConstPtr = boost::shared_ptr<LaserScan const>;
};
using LaserScanPtr = LaserScan::Ptr; using LaserScanConstPtr = LaserScan::ConstPtr;
}
namespace nav_msgs {
struct MapMetaData { ros::Time map_load_time; float resolution = 0; uint32_t width = 0, height = 0; geometry_msgs::Pose origin; };
struct OccupancyGrid { std_msgs::Header header; MapMetaData info; std::vector<int8_t> data; };
struct Path { std_msgs::Header header; std::vector<geometry_msgs::PoseStamped> poses; };
}

// ---- tf --------------------------------------------------------------------
namespace tf {
using tfScalar = double;
struct Y { double v; Y(double x = 0) : v(x) {}
  Y(const Y &o) : v(o.v) { rossim::yield("tf copy"); }
  Y &operator=(const Y &o) { v = o.v; rossim::yield("tf assign"); return *this; }
  operator double() const { return v; } };    // a scalar another thread can observe being copied
class Vector3 {
  Y _v[3];
public:
  Vector3() {}
  Vector3(double x, double y, double z) { _v[0].v = x; _v[1].v = y; _v[2].v = z; }
  double x() const { return _v[0]; } double y() const { return _v[1]; } double z() const { return _v[2]; }
  double getX() const { return _v[0]; } double getY() const { return _v[1]; } double getZ() const { return _v[2]; }
  void setX(double a) { _v[0].v = a; rossim::yield("tf assign"); } void setY(double a) { _v[1].v = a; rossim::yield("tf assign"); } void setZ(double a) { _v[2].v = a; rossim::yield("tf assign"); }
  void setValue(double x, double y, double z) { setX(x); setY(y); setZ(z); }
  Vector3 operator+(const Vector3 &o) const { return {x() + o.x(), y() + o.y(), z() + o.z()}; }
  Vector3 operator-(const Vector3 &o) const { return {x() - o.x(), y() - o.y(), z() - o.z()}; }
  Vector3 operator-() const { return {-x(), -y(), -z()}; }
  Vector3 operator*(double s) const { return {x() * s, y() * s, z() * s}; }
  double length() const { return std::sqrt(x() * x() + y() * y() + z() * z()); }
  double dot(const Vector3 &o) const { return x() * o.x() + y() * o.y() + z() * o.z(); }
  double distance(const Vector3 &o) const { return (*this - o).length(); }
};
using Point = Vector3;
class Quaternion {
  double _x = 0, _y = 0, _z = 0, _w = 1;
public:
  Quaternion() {}
  Quaternion(double x, double y, double z, double w) : _x(x), _y(y), _z(z), _w(w) {}
  double x() const { return _x; } double y() const { return _y; } double z() const { return _z; } double w() const { return _w; }
  double getX() const { return _x; } double getY() const { return _y; } double getZ() const { return _z; } double getW() const { return _w; }
  void setRPY(double r, double p, double y) {
    double cr = std::cos(r / 2), sr = std::sin(r / 2), cp = std::cos(p / 2), sp = std::sin(p / 2), cy = std::cos(y / 2), sy = std::sin(y / 2);
    _x = sr * cp * cy - cr * sp * sy; _y = cr * sp * cy + sr * cp * sy; _z = cr * cp * sy - sr * sp * cy; _w = cr * cp * cy + sr * sp * sy; }
  double length2() const { return _x * _x + _y * _y + _z * _z + _w * _w; }
  Quaternion normalized() const { double l = std::sqrt(length2()); return {_x / l, _y / l, _z / l, _w / l}; }
  Quaternion inverse() const { return {-_x, -_y, -_z, _w}; }
  Quaternion operator*(const Quaternion &o) const { return {_w * o._x + _x * o._w + _y * o._z - _z * o._y, _w * o._y + _y * o._w + _z * o._x - _x * o._z, _w * o._z + _z * o._w + _x * o._y - _y * o._x, _w * o._w - _x * o._x - _y * o._y - _z * o._z}; }
  double dot(const Quaternion &o) const { return _x * o._x + _y * o._y + _z * o._z + _w * o._w; }
  double getAngle() const { return 2 * std::acos(std::max(-1.0, std::min(1.0, _w))); }
  Quaternion slerp(const Quaternion &q, double t) const {
    double d = dot(q), s = d < 0 ? -1 : 1; d = std::min(1.0, std::fabs(d)); double th = std::acos(d);
    if (th < 1e-12) return *this;
    double a = std::sin((1 - t) * th) / std::sin(th), b = s * std::sin(t * th) / std::sin(th);
    return {a * _x + b * q._x, a * _y + b * q._y, a * _z + b * q._z, a * _w + b * q._w}; }
  static Quaternion getIdentity() { return {}; }
};
class Matrix3x3 {
  Y _m[9];
public:
  Matrix3x3() { setIdentity(); }
  explicit Matrix3x3(const Quaternion &q) { setRotation(q); }
  void setIdentity() { for (int i = 0; i < 9; ++i) _m[i].v = i % 4 == 0; }
  double at(int r, int c) const { return _m[r * 3 + c]; }
  void set(int r, int c, double v) { _m[r * 3 + c].v = v; }
  void setRotation(const Quaternion &q) {
    double s = 2.0 / q.length2(), xs = q.x() * s, ys = q.y() * s, zs = q.z() * s, wx = q.w() * xs, wy = q.w() * ys, wz = q.w() * zs, xx = q.x() * xs, xy = q.x() * ys, xz = q.x() * zs, yy = q.y() * ys, yz = q.y() * zs, zz = q.z() * zs;
    double v[9] = {1 - (yy + zz), xy - wz, xz + wy, xy + wz, 1 - (xx + zz), yz - wx, xz - wy, yz + wx, 1 - (xx + yy)};
    for (int i = 0; i < 9; ++i) _m[i].v = v[i]; }
  Quaternion quat() const {
    double t = at(0, 0) + at(1, 1) + at(2, 2), r[4];
    if (t > 0) { double s = std::sqrt(t + 1); r[3] = s * 0.5; s = 0.5 / s; r[0] = (at(2, 1) - at(1, 2)) * s; r[1] = (at(0, 2) - at(2, 0)) * s; r[2] = (at(1, 0) - at(0, 1)) * s; }
    else { int i = at(0, 0) < at(1, 1) ? (at(1, 1) < at(2, 2) ? 2 : 1) : (at(0, 0) < at(2, 2) ? 2 : 0), j = (i + 1) % 3, k = (i + 2) % 3;
      double s = std::sqrt(at(i, i) - at(j, j) - at(k, k) + 1); r[i] = s * 0.5; s = 0.5 / s; r[3] = (at(k, j) - at(j, k)) * s; r[j] = (at(j, i) + at(i, j)) * s; r[k] = (at(k, i) + at(i, k)) * s; }
    return {r[0], r[1], r[2], r[3]}; }
  void getRotation(Quaternion &q) const { q = quat(); }
  Vector3 operator*(const Vector3 &v) const { return {at(0, 0) * v.x() + at(0, 1) * v.y() + at(0, 2) * v.z(), at(1, 0) * v.x() + at(1, 1) * v.y() + at(1, 2) * v.z(), at(2, 0) * v.x() + at(2, 1) * v.y() + at(2, 2) * v.z()}; }
  Matrix3x3 operator*(const Matrix3x3 &o) const { Matrix3x3 m; for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) m.set(r, c, at(r, 0) * o.at(0, c) + at(r, 1) * o.at(1, c) + at(r, 2) * o.at(2, c)); return m; }
  Matrix3x3 transpose() const { Matrix3x3 m; for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) m.set(r, c, at(c, r)); return m; }
  void getRPY(double &r, double &p, double &y) const { p = std::asin(std::max(-1.0, std::min(1.0, -at(2, 0)))); r = std::atan2(at(2, 1), at(2, 2)); y = std::atan2(at(1, 0), at(0, 0)); }
};
class Transform {
  Matrix3x3 _basis; Vector3 _origin;
public:
  Transform() {}
  explicit Transform(const Quaternion &q, const Vector3 &c = Vector3(0, 0, 0)) : _basis(q), _origin(c) {}
  explicit Transform(const Matrix3x3 &b, const Vector3 &c = Vector3(0, 0, 0)) : _basis(b), _origin(c) {}
  static Transform getIdentity() { return Transform(); }
  Vector3 &getOrigin() { return _origin; } const Vector3 &getOrigin() const { return _origin; }
  Matrix3x3 &getBasis() { return _basis; } const Matrix3x3 &getBasis() const { return _basis; }
  Quaternion getRotation() const { return _basis.quat(); }
  void setOrigin(const Vector3 &o) { _origin = o; }
  void setBasis(const Matrix3x3 &b) { _basis = b; }
  void setRotation(const Quaternion &q) { _basis = Matrix3x3(q); }
  void setIdentity() { _basis = Matrix3x3(); _origin = Vector3(0, 0, 0); }
  Vector3 operator()(const Vector3 &v) const { return _basis * v + _origin; }
  Vector3 operator*(const Vector3 &v) const { return (*this)(v); }
  Transform operator*(const Transform &t) const { return Transform(_basis * t._basis, (*this)(t._origin)); }
  Transform &operator*=(const Transform &t) { return *this = *this * t; }
  Transform inverse() const { Matrix3x3 inv = _basis.transpose(); return Transform(inv, inv * -_origin); }
  Transform inverseTimes(const Transform &t) const { return inverse() * t; }
};
using Pose = Transform;
class StampedTransform : public Transform {
public:
  ros::Time stamp_; std::string frame_id_, child_frame_id_;
  StampedTransform() {}
  StampedTransform(const Transform &t, const ros::Time &s, const std::string &f, const std::string &c) : Transform(t), stamp_(s), frame_id_(f), child_frame_id_(c) {}
  void setData(const Transform &t) { *static_cast<Transform *>(this) = t; }
};
inline Quaternion createQuaternionFromRPY(double r, double p, double y) { Quaternion q; q.setRPY(r, p, y); return q; }
inline Quaternion createQuaternionFromYaw(double y) { return createQuaternionFromRPY(0, 0, y); }
inline Quaternion createIdentityQuaternion() { return {}; }
inline double getYaw(const Quaternion &q) { double r, p, y; Matrix3x3(q).getRPY(r, p, y); return y; }
inline double getYaw(const geometry_msgs::Quaternion &q) { return getYaw(Quaternion(q.x, q.y, q.z, q.w)); }
inline geometry_msgs::Quaternion createQuaternionMsgFromYaw(double y) { auto q = createQuaternionFromYaw(y); geometry_msgs::Quaternion m; m.x = q.x(); m.y = q.y(); m.z = q.z(); m.w = q.w(); return m; }

struct TransformException : std::runtime_error { explicit TransformException(const std::string &s) : std::runtime_error(s) {} };
struct ConnectivityException : TransformException { using TransformException::TransformException; };
struct LookupException : TransformException { using TransformException::TransformException; };
struct ExtrapolationException : TransformException { using TransformException::TransformException; };
struct InvalidArgument : TransformException { using TransformException::TransformException; };

inline void transformStampedMsgToTF(const geometry_msgs::TransformStamped &m, StampedTransform &t) {
  auto &r = m.transform.rotation; Quaternion q(r.x, r.y, r.z, r.w); if (std::fabs(q.length2() - 1) > 0.1) q = q.normalized();
  t = StampedTransform(Transform(q, Vector3(m.transform.translation.x, m.transform.translation.y, m.transform.translation.z)), m.header.stamp, m.header.frame_id, m.child_frame_id); }
inline void transformStampedTFToMsg(const StampedTransform &t, geometry_msgs::TransformStamped &m) {
  m.header.stamp = t.stamp_; m.header.frame_id = t.frame_id_; m.child_frame_id = t.child_frame_id_;
  auto q = t.getRotation(); m.transform.rotation.x = q.x(); m.transform.rotation.y = q.y(); m.transform.rotation.z = q.z(); m.transform.rotation.w = q.w();
  m.transform.translation.x = t.getOrigin().x(); m.transform.translation.y = t.getOrigin().y(); m.transform.translation.z = t.getOrigin().z(); }
inline void quaternionTFToMsg(const Quaternion &q, geometry_msgs::Quaternion &m) { m.x = q.x(); m.y = q.y(); m.z = q.z(); m.w = q.w(); }
inline void quaternionMsgToTF(const geometry_msgs::Quaternion &m, Quaternion &q) { q = Quaternion(m.x, m.y, m.z, m.w); }
inline void pointTFToMsg(const Vector3 &v, geometry_msgs::Point &m) { m.x = v.x(); m.y = v.y(); m.z = v.z(); }
inline void poseTFToMsg(const Transform &t, geometry_msgs::Pose &m) { pointTFToMsg(t.getOrigin(), m.position); quaternionTFToMsg(t.getRotation(), m.orientation); }
struct tfMessage { std::vector<geometry_msgs::TransformStamped> transforms; };

inline std::string strip_slash(const std::string &s) { return !s.empty() && s[0] == '/' ? s.substr(1) : s; }

class Transformer {
  struct Sample { uint64_t stamp; std::string parent; Quaternion q; double x, y, z; };
  std::map<std::string, std::list<Sample>> _frames;    // child -> samples, newest first
  std::map<std::string, bool> _known;
  int64_t _cache_ns;
  std::map<int, std::function<void()>> _listeners; int _next = 0;
  static std::string secs(uint64_t ns) { char b[40]; snprintf(b, sizeof b, "%llu.%09llu", (unsigned long long)(ns / 1000000000ull), (unsigned long long)(ns % 1000000000ull)); return b; }
  // parent of the frame at the time, "" on an error
  std::string gather(const std::list<Sample> &l, uint64_t t, Sample &out, std::string &err) const {
    if (l.empty()) return "";
    if (t == 0) { out = l.front(); return out.parent; }
    if (l.size() == 1) { if (l.front().stamp == t) { out = l.front(); return out.parent; } err = "Lookup would require extrapolation at time " + secs(t) + ", but only time " + secs(l.front().stamp) + " is in the buffer"; return ""; }
    if (t == l.front().stamp) { out = l.front(); return out.parent; }
    if (t == l.back().stamp) { out = l.back(); return out.parent; }
    if (t > l.front().stamp) { err = "Lookup would require extrapolation into the future.  Requested time " + secs(t) + " but the latest data is at time " + secs(l.front().stamp); return ""; }
    if (t < l.back().stamp) { err = "Lookup would require extrapolation into the past.  Requested time " + secs(t) + " but the earliest data is at time " + secs(l.back().stamp); return ""; }
    auto it = l.begin(); while (it->stamp > t) ++it;
    const Sample &a = *it, &b = *std::prev(it);       // a.stamp <= t < b.stamp
    if (a.parent != b.parent) { out = a; return a.parent; }
    double r = (double)(t - a.stamp) / (double)(b.stamp - a.stamp);
    out = Sample{t, a.parent, a.q.slerp(b.q, r), a.x + (b.x - a.x) * r, a.y + (b.y - a.y) * r, a.z + (b.z - a.z) * r};
    return out.parent;
  }
  static Transform tr(const Sample &s) { return Transform(s.q, Vector3(s.x, s.y, s.z)); }
  enum Err { OK, LOOKUP, CONNECT, EXTRA };
  Err find(const std::string &target, const std::string &source, uint64_t t, Transform &out, std::string &msg) const {
    if (!_known.count(target)) { msg = "\"" + target + "\" passed to lookupTransform argument target_frame does not exist. "; return LOOKUP; }
    if (!_known.count(source)) { msg = "\"" + source + "\" passed to lookupTransform argument source_frame does not exist. "; return LOOKUP; }
    if (target == source) { out = Transform(); return OK; }
    if (t == 0) t = latest_common(target, source);
    Transform up, down; std::string f = source, top = source, err; bool extra = false;
    for (int depth = 0;; ++depth) {
      auto c = _frames.find(f); top = f; if (c == _frames.end()) break;
      Sample s; std::string p = gather(c->second, t, s, err);
      if (p.empty()) { extra = true; break; }
      if (f == target) { out = up; return OK; }
      up = tr(s) * up; f = p;
      if (depth > 1000) { msg = "The tf tree is invalid because it contains a loop."; return LOOKUP; }
    }
    if (f == target) { out = up; return OK; }
    f = target;
    for (int depth = 0; f != top; ++depth) {
      auto c = _frames.find(f); if (c == _frames.end()) break;
      Sample s; std::string p = gather(c->second, t, s, err);
      if (p.empty()) { msg = err + ", when looking up transform from frame [" + source + "] to frame [" + target + "]"; return EXTRA; }
      if (f == source) { out = down.inverse(); return OK; }
      down = tr(s) * down; f = p;
      if (depth > 1000) { msg = "The tf tree is invalid because it contains a loop."; return LOOKUP; }
    }
    if (f == source && f != top) { out = down.inverse(); return OK; }
    if (f != top) {
      if (extra) { msg = err + ", when looking up transform from frame [" + source + "] to frame [" + target + "]"; return EXTRA; }
      msg = "Could not find a connection between '" + target + "' and '" + source + "' because they are not part of the same tree.Tf has two or more unconnected trees."; return CONNECT;
    }
    out = down.inverse() * up; return OK;
  }
  uint64_t latest_common(const std::string &target, const std::string &source) const {
    uint64_t t = ~0ull; for (auto &f : {source, target}) { std::string g = f; for (int d = 0; d < 100; ++d) { auto c = _frames.find(g); if (c == _frames.end() || c->second.empty()) break; if (g != target || f == target) t = std::min(t, c->second.front().stamp); g = c->second.front().parent; if (g == target) break; } }
    return t == ~0ull ? 0 : t; }
public:
  explicit Transformer(bool = true, ros::Duration cache = ros::Duration(10.0)) : _cache_ns(cache.toNSec()) {}
  virtual ~Transformer() {}
  bool setTransform(const StampedTransform &t, const std::string & = "default_authority") {
    std::string c = strip_slash(t.child_frame_id_), p = strip_slash(t.frame_id_); auto q = t.getRotation(); auto &o = t.getOrigin();
    if (c == p || c.empty() || p.empty()) return false;
    if (!(std::isfinite(o.x()) && std::isfinite(o.y()) && std::isfinite(o.z()) && std::isfinite(q.w()) && std::isfinite(q.x()) && std::isfinite(q.y()) && std::isfinite(q.z()))) return false;
    auto &l = _frames[c]; uint64_t st = t.stamp_.toNSec();
    if (!l.empty() && (int64_t)(l.front().stamp - st) > _cache_ns && l.front().stamp > st) return false;      // TF_OLD_DATA
    auto it = l.begin(); while (it != l.end() && it->stamp > st) ++it;
    if (it != l.end() && it->stamp == st) return false;                                                        // TF_REPEATED_DATA
    l.insert(it, Sample{st, p, q, o.x(), o.y(), o.z()});
    while (!l.empty() && (int64_t)(l.front().stamp - l.back().stamp) > _cache_ns) l.pop_back();
    _known[c] = _known[p] = true;
    return true;
  }
  void changed() { auto ls = _listeners; for (auto &f : ls) if (_listeners.count(f.first)) f.second(); }
  void lookupTransform(const std::string &target, const std::string &source, const ros::Time &t, StampedTransform &out) const {
    Transform tr; std::string msg; std::string a = strip_slash(target), b = strip_slash(source);
    switch (find(a, b, t.toNSec(), tr, msg)) {
      case LOOKUP: throw LookupException(msg); case CONNECT: throw ConnectivityException(msg); case EXTRA: throw ExtrapolationException(msg); default: break; }
    ros::Time st = t; if (t.isZero()) st.fromNSec(latest_common(a, b));
    out = StampedTransform(tr, st, target, source);
  }
  bool canTransform(const std::string &target, const std::string &source, const ros::Time &t, std::string *err = nullptr) const {
    Transform tr; std::string msg; Err e = find(strip_slash(target), strip_slash(source), t.toNSec(), tr, msg); if (err) *err = msg; return e == OK; }
  bool waitForTransform(const std::string &target, const std::string &source, const ros::Time &t, const ros::Duration &timeout, const ros::Duration & = ros::Duration(0.01)) const;
  bool frameExists(const std::string &f) const { return _known.count(strip_slash(f)); }
  void clear() { for (auto &f : _frames) f.second.clear(); }
  int addTransformsChangedListener(std::function<void()> f) { _listeners[_next] = f; return _next++; }
  void removeTransformsChangedListener(int i) { _listeners.erase(i); }
};
}  // namespace tf

// ---- the simulated world -----------------------------------------------------
namespace rossim {
struct Param { int kind = 0; std::string s; double d = 0; int i = 0; bool b = false;      // 1 string 2 double 3 int 4 bool
  static Param str(const std::string &v) { Param p; p.kind = 1; p.s = v; return p; }
  static Param dbl(double v) { Param p; p.kind = 2; p.d = v; return p; }
  static Param integer(int v) { Param p; p.kind = 3; p.i = v; return p; }
  static Param boolean(bool v) { Param p; p.kind = 4; p.b = v; return p; } };
struct SubscriberBase { std::string topic; uint32_t queue = 0; virtual void deliver(const std::type_info &, const void *) = 0; virtual ~SubscriberBase() {} };
struct BagEntry { std::string topic; ros::Time time; const std::type_info *type; std::shared_ptr<void> msg; };
struct World {
  int64_t now_ns = 0;
  bool time_valid = false, ok = true;
  std::map<std::string, Param> params;
  std::vector<tf::Transformer *> listeners;
  std::vector<SubscriberBase *> subscribers;
  std::map<std::string, std::vector<BagEntry>> bags;
  std::vector<std::string> console;
  int advertised = 0;
  std::function<void()> spin;
  std::list<std::pair<SubscriberBase *, std::function<void()>>> callbacks;      // received, waiting for a spin
  uint64_t overflown = 0;
  // a stalled node takes no callbacks: messages wait in the subscribers' bounded queues, transforms in the buffers
  bool stalled = false, tf_pending = false;
  std::list<std::pair<SubscriberBase *, std::function<void()>>> waiting;
  bool hold(SubscriberBase *s, std::function<void()> f) {
    if (!stalled) return false;
    size_t mine = 0; for (auto &e : waiting) mine += e.first == s;
    if (s->queue && mine >= s->queue) { ++overflown; for (auto i = waiting.begin(); i != waiting.end(); ++i) if (i->first == s) { waiting.erase(i); break; } }
    waiting.emplace_back(s, f); return true; }
  void forget(SubscriberBase *s) { waiting.remove_if([s](const std::pair<SubscriberBase *, std::function<void()>> &e) { return e.first == s; }); }
  void resume() { stalled = false; while (!waiting.empty()) { auto f = waiting.front().second; waiting.pop_front(); f(); } if (tf_pending) { tf_pending = false; notify_tf(); } }
  void notify_tf() { auto ls = listeners; for (auto l : ls) if (std::find(listeners.begin(), listeners.end(), l) != listeners.end()) l->changed(); }
  std::function<void(const tf::StampedTransform &)> on_broadcast;
  std::function<void(const geometry_msgs::TransformStamped &)> on_broadcast_msg;
  std::function<void(const std::string &, const std::type_info &, const void *)> on_publish;
  void (*yield_hook)(const char *) = nullptr;
  void (*sleep_hook)(int64_t) = nullptr;
  // the network hands a message to every subscriber of the topic
  template <typename M> void deliver(const std::string &topic, boost::shared_ptr<M> m) { auto l = subscribers; for (auto s : l) if (s->topic == topic && std::find(subscribers.begin(), subscribers.end(), s) != subscribers.end()) s->deliver(typeid(M), &m); }
  void deliver_tf(const tf::tfMessage &m) {
    for (auto l : listeners) for (auto &t : m.transforms) { tf::StampedTransform st; tf::transformStampedMsgToTF(t, st); l->setTransform(st); }
    if (stalled) tf_pending = true; else notify_tf(); }
};
inline World *&world_ptr() { static World *w = nullptr; return w; }
inline World &w() { if (!world_ptr()) world_ptr() = new World; return *world_ptr(); }
inline void reset_world() { delete world_ptr(); world_ptr() = nullptr; }
inline void yield(const char *where) { if (world_ptr() && world_ptr()->yield_hook) world_ptr()->yield_hook(where); }
inline int64_t clock_ns() { return w().now_ns; }
inline void sleep_ns(int64_t n) { if (n <= 0) return; if (w().sleep_hook) w().sleep_hook(n); else w().now_ns += n; }
}  // namespace rossim

namespace ros {
inline Time Time::now() { if (!rossim::w().time_valid) throw TimeNotInitializedException(); rossim::yield("Time::now"); Time t; t.fromNSec(rossim::w().now_ns); return t; }
inline void Time::init() { rossim::w().time_valid = true; }
inline bool Time::isValid() { return rossim::w().time_valid; }
inline bool ok() { rossim::yield("ros::ok"); return rossim::w().ok; }
inline bool isShuttingDown() { return !rossim::w().ok; }
inline void shutdown() { rossim::w().ok = false; }
inline void requestShutdown() { rossim::w().ok = false; }
namespace init_options { enum InitOption { NoSigintHandler = 1, AnonymousName = 2, NoRosout = 4 }; }
inline void init(int &, char **, const std::string &, uint32_t = 0) {}
inline void spin() { if (rossim::w().spin) rossim::w().spin(); rossim::w().ok = false; }
inline void spinOnce() { for (size_t n = rossim::w().callbacks.size(); n-- && !rossim::w().callbacks.empty();) { auto f = rossim::w().callbacks.front().second; rossim::w().callbacks.pop_front(); f(); } }
class Rate {
  int64_t _start, _cycle;
public:
  Rate(double hz) : _start(rossim::clock_ns()), _cycle((int64_t)std::llround(1e9 / hz)) {}
  explicit Rate(const Duration &d) : _start(rossim::clock_ns()), _cycle(d.toNSec()) {}
  bool sleep() {
    int64_t end = _start + _cycle, now = rossim::clock_ns();
    if (now < _start) end = now + _cycle;
    int64_t s = end - now; _start = end;
    if (s <= 0) { if (now > end + _cycle) _start = now; rossim::yield("Rate::sleep"); return s == 0; }
    rossim::sleep_ns(s); return true; }
  void reset() { _start = rossim::clock_ns(); }
};
using WallRate = Rate;
namespace param {
inline bool conv(const rossim::Param &p, std::string &v) { if (p.kind != 1) return false; v = p.s; return true; }
inline bool conv(const rossim::Param &p, double &v) { if (p.kind == 2) v = p.d; else if (p.kind == 3) v = p.i; else return false; return true; }
inline bool conv(const rossim::Param &p, int &v) { if (p.kind == 3) v = p.i; else if (p.kind == 2) v = (int)std::floor(p.d + 0.5); else return false; return true; }
inline bool conv(const rossim::Param &p, bool &v) { if (p.kind != 4) return false; v = p.b; return true; }
template <typename T> bool get(const std::string &k, T &v) { auto i = rossim::w().params.find(k); return i != rossim::w().params.end() && conv(i->second, v); }
template <typename T> bool param(const std::string &k, T &v, const T &d) { if (get(k, v)) return true; v = d; return false; }
template <typename T> T param(const std::string &k, const T &d) { T v; param(k, v, d); return v; }
inline bool has(const std::string &k) { return rossim::w().params.count(k); }
inline void set(const std::string &k, const std::string &v) { rossim::w().params[k] = rossim::Param::str(v); }
inline void set(const std::string &k, const char *v) { rossim::w().params[k] = rossim::Param::str(v); }
inline void set(const std::string &k, double v) { rossim::w().params[k] = rossim::Param::dbl(v); }
inline void set(const std::string &k, int v) { rossim::w().params[k] = rossim::Param::integer(v); }
inline void set(const std::string &k, bool v) { rossim::w().params[k] = rossim::Param::boolean(v); }
}
class Publisher {
  std::string _topic;
public:
  Publisher() {}
  explicit Publisher(const std::string &t) : _topic(t) {}
  template <typename M> void publish(const M &m) const { rossim::yield("publish"); if (!rossim::w().ok) return; if (rossim::w().on_publish) rossim::w().on_publish(_topic, typeid(M), &m); }
  template <typename M> void publish(const boost::shared_ptr<M> &m) const { publish(*m); }
  std::string getTopic() const { return _topic; }
  uint32_t getNumSubscribers() const { return 1; }
};
class Subscriber {      // messages wait in a bounded queue for the next spin
  struct Impl : rossim::SubscriberBase {
    std::function<void()> (*make)(const Impl &, const std::type_info &, const void *) = nullptr; std::shared_ptr<void> fn;
    void deliver(const std::type_info &ti, const void *m) override {
      auto f = make(*this, ti, m); if (!f) return; auto &q = rossim::w().callbacks; size_t mine = 0; for (auto &e : q) mine += e.first == this;
      if (queue && mine >= queue) { ++rossim::w().overflown; for (auto i = q.begin(); i != q.end(); ++i) if (i->first == this) { q.erase(i); break; } }
      q.emplace_back(this, f); }
    ~Impl() { auto &s = rossim::w().subscribers; s.erase(std::remove(s.begin(), s.end(), (rossim::SubscriberBase *)this), s.end()); rossim::w().callbacks.remove_if([this](const std::pair<rossim::SubscriberBase *, std::function<void()>> &e) { return e.first == this; }); } };
  std::shared_ptr<Impl> _i;
public:
  Subscriber() {}
  template <typename M> static Subscriber create(const std::string &t, uint32_t q, std::function<void(boost::shared_ptr<M>)> f) {
    Subscriber s; s._i = std::make_shared<Impl>(); s._i->topic = t; s._i->queue = q; s._i->fn = std::make_shared<std::function<void(boost::shared_ptr<M>)>>(f);
    s._i->make = [](const Impl &i, const std::type_info &ti, const void *m) -> std::function<void()> {
      if (ti != typeid(M)) return nullptr; auto c = boost::make_shared<M>(**(const boost::shared_ptr<M> *)m); auto g = *std::static_pointer_cast<std::function<void(boost::shared_ptr<M>)>>(i.fn); return [c, g] { g(c); }; };
    rossim::w().subscribers.push_back(s._i.get()); return s; }
  void shutdown() { _i.reset(); }
};
class NodeHandle {
public:
  NodeHandle(const std::string & = "") { Time::init(); }
  template <typename M> Publisher advertise(const std::string &topic, uint32_t, bool = false) { ++rossim::w().advertised; return Publisher(topic); }
  template <typename T> bool param(const std::string &k, T &v, const T &d) const { return param::param(k, v, d); }
  template <typename M> Subscriber subscribe(const std::string &topic, uint32_t q, void (*f)(boost::shared_ptr<M>)) { return Subscriber::create<M>(topic, q, f); }
  template <typename M> Subscriber subscribe(const std::string &topic, uint32_t q, void (*f)(const boost::shared_ptr<M> &)) { return Subscriber::create<M>(topic, q, f); }
  template <typename M> Subscriber subscribe(const std::string &topic, uint32_t q, void (*f)(const boost::shared_ptr<M const> &)) { return Subscriber::create<M>(topic, q, [f](boost::shared_ptr<M> m) { f(m); }); }
  template <typename T> bool getParam(const std::string &k, T &v) const { return param::get(k, v); }
  bool ok() const { return ros::ok(); }
};
namespace message_traits {
template <typename M> struct TimeStamp { static Time value(const M &m) { return m.header.stamp; } };
template <typename M> struct FrameId { static std::string value(const M &m) { return m.header.frame_id; } };
}
}  // namespace ros

#define ROSSIM_LOG(...) do { char b_[600]; snprintf(b_, sizeof b_, __VA_ARGS__); ::rossim::w().console.push_back(b_); } while (0)
#define ROS_DEBUG(...) ROSSIM_LOG(__VA_ARGS__)
#define ROS_INFO(...) ROSSIM_LOG(__VA_ARGS__)
#define ROS_WARN(...) ROSSIM_LOG(__VA_ARGS__)
#define ROS_ERROR(...) ROSSIM_LOG(__VA_ARGS__)
#define ROS_FATAL(...) ROSSIM_LOG(__VA_ARGS__)

namespace tf {
inline bool Transformer::waitForTransform(const std::string &target, const std::string &source, const ros::Time &t, const ros::Duration &timeout, const ros::Duration &poll) const {
  int64_t end = rossim::clock_ns() + timeout.toNSec();
  while (!canTransform(target, source, t) && rossim::clock_ns() < end && rossim::w().ok) rossim::sleep_ns(poll.toNSec());
  return canTransform(target, source, t); }
}
namespace message_filters {
template <typename M> class Subscriber : public rossim::SubscriberBase {
  std::vector<std::function<void(const boost::shared_ptr<M> &)>> _cbs;
public:
  Subscriber(ros::NodeHandle, const std::string &t, uint32_t q) { topic = t; queue = q; rossim::w().subscribers.push_back(this); }
  Subscriber(const Subscriber &) = delete;
  ~Subscriber() { auto &s = rossim::w().subscribers; s.erase(std::remove(s.begin(), s.end(), (rossim::SubscriberBase *)this), s.end()); rossim::w().forget(this); }
  void deliver(const std::type_info &ti, const void *m) override {
    if (ti != typeid(M)) return; auto p = *(const boost::shared_ptr<M> *)m;
    if (!rossim::w().hold(this, [this, p] { for (auto &c : _cbs) c(p); })) for (auto &c : _cbs) c(p); }
  template <typename F> void registerCallback(const F &f) { _cbs.push_back(f); }
};
}
namespace tf {
class TransformListener : public Transformer {
public:
  explicit TransformListener(ros::Duration cache = ros::Duration(10.0), bool = true) : Transformer(true, cache) { rossim::w().listeners.push_back(this); }
  TransformListener(const TransformListener &) = delete;
  ~TransformListener() { auto &s = rossim::w().listeners; s.erase(std::remove(s.begin(), s.end(), (Transformer *)this), s.end()); }
};
template <typename M> class MessageFilter {
  Transformer &_tf; std::string _target; uint32_t _max; std::list<boost::shared_ptr<M>> _q; int _id;
  std::vector<std::function<void(const boost::shared_ptr<M> &)>> _cbs;
  bool ready(const M &m) const { return _tf.canTransform(_target, ros::message_traits::FrameId<M>::value(m), ros::message_traits::TimeStamp<M>::value(m)); }
  void out(const boost::shared_ptr<M> &m) { for (auto &c : _cbs) c(m); }
public:
  MessageFilter(message_filters::Subscriber<M> &s, Transformer &tf, const std::string &target, uint32_t max, ros::NodeHandle = ros::NodeHandle()) : _tf(tf), _target(target), _max(max) {
    s.registerCallback([this](const boost::shared_ptr<M> &m) { add(m); });
    _id = _tf.addTransformsChangedListener([this] { test(); }); }
  ~MessageFilter() { _tf.removeTransformsChangedListener(_id); }
  void add(const boost::shared_ptr<M> &m) {
    if (ros::message_traits::FrameId<M>::value(*m).empty()) return;
    if (ready(*m)) { out(m); return; }
    if (_max && _q.size() >= _max) _q.pop_front();
    _q.push_back(m); }
  void test() { for (auto i = _q.begin(); i != _q.end();) { if (ready(**i)) { auto m = *i; i = _q.erase(i); out(m); } else ++i; } }
  template <typename T, typename P> void registerCallback(void (T::*f)(P), T *o) { _cbs.push_back([f, o](const boost::shared_ptr<M> &m) { (o->*f)(boost::make_shared<M>(*m)); }); }
  template <typename F> void registerCallback(const F &f) { _cbs.push_back([f](const boost::shared_ptr<M> &m) { f(boost::make_shared<M>(*m)); }); }
  size_t queued() const { return _q.size(); }
  void clear() { _q.clear(); }
};
class TransformBroadcaster {
public:
  void sendTransform(const StampedTransform &t) { rossim::yield("sendTransform"); if (rossim::w().on_broadcast) rossim::w().on_broadcast(t); rossim::yield("sent"); }
  void sendTransform(const std::vector<StampedTransform> &v) { for (auto &t : v) sendTransform(t); }
  void sendTransform(const geometry_msgs::TransformStamped &m) { if (rossim::w().on_broadcast_msg) { auto c = m; c.header.frame_id = strip_slash(c.header.frame_id); c.child_frame_id = strip_slash(c.child_frame_id); rossim::w().on_broadcast_msg(c); } StampedTransform t; transformStampedMsgToTF(m, t); sendTransform(t); }
  void sendTransform(const std::vector<geometry_msgs::TransformStamped> &v) { for (auto &t : v) sendTransform(t); }
};
}  // namespace tf

// ---- bags --------------------------------------------------------------------
namespace rosbag {
struct BagException : std::runtime_error { using std::runtime_error::runtime_error; };
namespace bagmode { enum BagMode { Write = 1, Read = 2, Append = 4 }; }
class Bag { public: const std::vector<rossim::BagEntry> *_e = nullptr;
  Bag() {}
  explicit Bag(const std::string &f, uint32_t = bagmode::Read) { open(f); }
  void open(const std::string &f, uint32_t = bagmode::Read) { auto i = rossim::w().bags.find(f); if (i == rossim::w().bags.end()) throw BagException("Error opening file: " + f); _e = &i->second; }
  void close() { _e = nullptr; } };
class TopicQuery { public: std::vector<std::string> t; TopicQuery(const std::vector<std::string> &v) : t(v) {} TopicQuery(const std::string &s) : t{s} {} };
class MessageInstance { const rossim::BagEntry *_e; public: explicit MessageInstance(const rossim::BagEntry *e) : _e(e) {}
  const std::string &getTopic() const { return _e->topic; }
  const ros::Time &getTime() const { return _e->time; }
  template <typename M> bool isType() const { return *_e->type == typeid(M); }
  template <typename M> boost::shared_ptr<M> instantiate() const { if (!isType<M>()) return boost::shared_ptr<M>(); return boost::make_shared<M>(*(M *)_e->msg.get()); } };
class View { std::vector<const rossim::BagEntry *> _v; public:
  class iterator { const View *_o; size_t _i; public:
    using value_type = MessageInstance; using difference_type = std::ptrdiff_t; using pointer = MessageInstance *; using reference = MessageInstance; using iterator_category = std::forward_iterator_tag;
    iterator() : _o(nullptr), _i(0) {} iterator(const View *o, size_t i) : _o(o), _i(i) {}
    MessageInstance operator*() const { return MessageInstance(_o->_v.at(_i)); }
    iterator &operator++() { ++_i; return *this; } iterator operator++(int) { auto c = *this; ++_i; return c; }
    bool operator==(const iterator &o) const { return _i == o._i; } bool operator!=(const iterator &o) const { return _i != o._i; } };
  using const_iterator = iterator;
  View(const Bag &b, const TopicQuery &q) { for (auto &e : *b._e) if (std::find(q.t.begin(), q.t.end(), e.topic) != q.t.end()) _v.push_back(&e); }
  iterator begin() const { return iterator(this, 0); } iterator end() const { return iterator(this, _v.size()); }
  uint32_t size() const { return _v.size(); } };
}
#endif
