// Shared pieces of the harnesses: symbolic stand-ins for obstacles.
#ifndef COMMON_H
#define COMMON_H
#include "vh.h"
#include <deque>
#include <memory>
#include <map>
#include <set>
#include "DynamicObstacleAvoidance/Agent.hpp"
#include "DynamicObstacleAvoidance/Environment.hpp"
#include "DynamicObstacleAvoidance/Modulation.hpp"
#include "DynamicObstacleAvoidance/Obstacle/Ellipsoid.hpp"
#include "DynamicObstacleAvoidance/Obstacle/Aggregate.hpp"
#include "DynamicObstacleAvoidance/Obstacle/StarShapeHull.hpp"
#include "DynamicObstacleAvoidance/Utils/MathTools.hpp"
using namespace DynamicObstacleAvoidance;
using namespace vh;
typedef std::shared_ptr<Obstacle> OPtr;
typedef std::deque<OPtr> Obs;
using Eigen::Vector3d; using Eigen::Array3d; using Eigen::Quaterniond; using Eigen::Matrix3d;

// An obstacle whose answers are given by the harness.
struct Stub : public Obstacle {
  Vector3d normal{1, 0, 0}; double dist = 2; Vector3d repulsion{0, 0, 0}; bool closed = true;
  std::function<bool(const Vector3d&)> inside;
  mutable int asked_normal = 0, asked_dist = 0, asked_rep = 0;
  explicit Stub(const std::string& n, const State& s = State()) : Obstacle(n, s) { set_type("Ellipsoid"); }
  Stub(const std::string& n, const State& s, const Vector3d& ref) : Obstacle(n, s, ref) { set_type("Ellipsoid"); }
  using Obstacle::compute_distance_to_point;
  Vector3d compute_normal_to_agent(const Agent&) const override { ++asked_normal; return normal; }
  double compute_distance_to_point(const Vector3d&, const Array3d&) const override { ++asked_dist; return dist; }
  Vector3d compute_repulsion_vector(const Agent&) const override { ++asked_rep; return repulsion; }
  bool point_is_inside(const Vector3d& p) const override { return inside ? inside(p) : false; }
  bool is_closed() const override { return closed; }
};
inline Array3d arr(const std::string& n, double lo, double hi) { double x = real(n + ".x", lo, hi), y = real(n + ".y", lo, hi), z = real(n + ".z", lo, hi); return Array3d(x, y, z); }
inline B near(const Quaterniond& a, const Quaterniond& b, double tol = 1e-7) { return vh::near(a.w(), b.w(), tol) && vh::near(a.x(), b.x(), tol) && vh::near(a.y(), b.y(), tol) && vh::near(a.z(), b.z(), tol); }
inline B same(const Quaterniond& a, const Quaterniond& b) { return vh::eq(a.w(), b.w()) && vh::eq(a.x(), b.x()) && vh::eq(a.y(), b.y()) && vh::eq(a.z(), b.z()); }
inline double sqn(const Quaterniond& q) { return q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z(); }
inline double sqn(const Vector3d& v) { return v(0) * v(0) + v(1) * v(1) + v(2) * v(2); }
inline double dot(const Vector3d& a, const Vector3d& b) { return a(0) * b(0) + a(1) * b(1) + a(2) * b(2); }
// rotation of v by q, written out (independent of Eigen's and Pose's implementation)
inline Vector3d rot(const Quaterniond& q, const Vector3d& v) {
  double w = q.w(), x = q.x(), y = q.y(), z = q.z();
  return Vector3d((1 - 2 * (y * y + z * z)) * v(0) + 2 * (x * y - w * z) * v(1) + 2 * (x * z + w * y) * v(2),
                  2 * (x * y + w * z) * v(0) + (1 - 2 * (x * x + z * z)) * v(1) + 2 * (y * z - w * x) * v(2),
                  2 * (x * z - w * y) * v(0) + 2 * (y * z + w * x) * v(1) + (1 - 2 * (x * x + y * y)) * v(2));
}
inline Vector3d add(const Vector3d& a, const Vector3d& b) { return Vector3d(a(0) + b(0), a(1) + b(1), a(2) + b(2)); }
inline Vector3d world(const Obstacle& o, const Vector3d& local) { return add(o.get_position(), rot(o.get_orientation(), local)); }
// a symbolic choice among n alternatives, decided branch by branch
inline int pick(const std::string& name, int n) { double r = real(name, 0, n); for (int i = 0; i + 1 < n; ++i) if (truth(lt(r, i + 1))) return i; return n - 1; }
inline double ipow(double x, int n) { double r = 1; for (int i = 0; i < n; ++i) r = r * x; return r; }
#endif
