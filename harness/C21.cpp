// BOUNDS: 1..3 obstacles (thorough 4), 7 at fixed distances; arbitrary agent position and velocity, obstacle centres and reference points, linear and angular velocities (positions within [-1000,1000], velocities within [-100,100]), distances in [-1,1000], weights in [0,1], orthonormal bases from arbitrary unit quaternions or from the code's own basis for an arbitrary horizontal normal
// REPLACED: exp by an uninterpreted positive function with exp(0) = 1
#include "common.h"
typedef std::deque<Matrix3d> Mats;
static Vector3d cr(const Vector3d& a, const Vector3d& b) { return Vector3d(a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0)); }
static Vector3d sc(double s, const Vector3d& a) { return Vector3d(s * a(0), s * a(1), s * a(2)); }
static Vector3d diff(const Vector3d& a, const Vector3d& b) { return Vector3d(a(0) - b(0), a(1) - b(1), a(2) - b(2)); }
static double fade(double d) { double m = truth(lt(d, 1)) ? 1.0 : d; return std::exp(-(m - 1)); }
static Matrix3d basis(const std::string& n) { Quaterniond q = unit_quat(n); Matrix3d m; m.col(0) = rot(q, Vector3d(1, 0, 0)); m.col(1) = rot(q, Vector3d(0, 1, 0)); m.col(2) = rot(q, Vector3d(0, 0, 1)); return m; }
static std::shared_ptr<Stub> moving(int i, const char* nm, bool lin, bool ang) {
  auto o = std::make_shared<Stub>(nm, State(vec("c", -1000, 1000))); o->set_reference_position(vec("f", -1000, 1000)); if (lin) o->set_linear_velocity(vec("l", -1000, 1000)); if (ang) o->set_angular_velocity(vec("a", -1000, 1000)); return o; }
static void go(int n, bool ortho, bool lin, bool ang) {
  static const char* nm[] = {"a", "b", "c", "d"}; Agent a{State(vec("p", -1000, 1000)), real("m", 0, 20)}; Vector3d v = vec("v", -100, 100); a.set_linear_velocity(v);
  Obs obs; Eigen::ArrayXd d(n), w(n); Mats bs; Vector3d want(0, 0, 0);
  for (int i = 0; i < n; ++i) { auto o = moving(i, nm[i], lin, ang); obs.push_back(o); d(i) = real("d", -1, 1000); w(i) = real("w", 0, 1); bs.push_back(ortho ? basis("q") : Matrix3d(Matrix3d::Identity()));
    want = add(want, sc(w(i) * fade(d(i)), add(o->get_linear_velocity(), cr(o->get_angular_velocity(), diff(a.get_position(), o->get_position()))))); }
  auto r = Modulation::compute_relative_velocities(a, obs, d, w, bs);
  check("weighted-surface-velocity", near(r.second, want)); check("relative", near(r.first, diff(v, want)));
}
HARNESS(one) { go(1, false, true, true); }
HARNESS(one_basis_translating) { go(1, true, true, false); }
HARNESS(one_basis_rotating) { go(1, true, false, true); }
HARNESS(two) { go(2, false, true, true); }
HARNESS(two_basis) { go(2, true, true, false); }
HARNESS(three) { go(3, false, true, true); }
HARNESS(deep_four) { go(4, false, true, true); }
HARNESS(static_obstacles) { Agent a{State(vec("p", -1000, 1000))}; Vector3d v = vec("v", -100, 100); a.set_linear_velocity(v); int n = 2; Obs obs; Eigen::ArrayXd d(n), w(n); Mats bs;
  for (int i = 0; i < n; ++i) { obs.push_back(moving(i, i ? "b" : "a", false, false)); d(i) = real("d", -1, 1000); w(i) = real("w", 0, 1); bs.push_back(basis("q")); }
  auto r = Modulation::compute_relative_velocities(a, obs, d, w, bs); check("nothing", near(r.second, Vector3d(0, 0, 0))); check("own", near(r.first, v)); }
HARNESS(at_surface) { Agent a{State(vec("p", -1000, 1000))}; Obs obs; Eigen::ArrayXd d(1), w(1); Mats bs; auto o = moving(0, "a", true, true); obs.push_back(o); d(0) = real("d", -1, 1); w(0) = 1; bs.push_back(Matrix3d::Identity());
  auto r = Modulation::compute_relative_velocities(a, obs, d, w, bs); check("full", near(r.second, add(o->get_linear_velocity(), cr(o->get_angular_velocity(), diff(a.get_position(), o->get_position()))))); }
HARNESS(fades) { Agent a{State(vec("p", -1000, 1000))}; Obs obs; Eigen::ArrayXd d(1), e(1), w(1); Mats bs; auto o = std::make_shared<Stub>("a"); o->set_linear_velocity(Vector3d(3, 0, 0)); obs.push_back(o); d(0) = real("d", 1, 60); e(0) = 1; w(0) = 1; bs.push_back(Matrix3d::Identity());
  double r = Modulation::compute_relative_velocities(a, obs, d, w, bs).second(0), f = Modulation::compute_relative_velocities(a, obs, e, w, bs).second(0);
  check("never-more-than-full", le(r, f)); check("positive", gt(r, 0)); }
// the orthonormal basis the code itself builds
static void own_basis(const Vector3d& nrm) { Stub s("s"); s.normal = nrm; Agent a{State(vec("p", -1000, 1000))}; auto o = moving(0, "a", true, true); Obs obs; obs.push_back(o); Eigen::ArrayXd d(1), w(1); d(0) = real("d", 0, 1000); w(0) = real("w", 0, 1); Mats bs;
  bs.push_back(std::get<1>(Modulation::compute_basis_matrices(nrm, a, s)));
  auto r = Modulation::compute_relative_velocities(a, obs, d, w, bs); check("own-basis", near(r.second, sc(w(0) * fade(d(0)), add(o->get_linear_velocity(), cr(o->get_angular_velocity(), diff(a.get_position(), o->get_position())))))); }
HARNESS(own_basis_level) { own_basis(rot(yaw_quat("n"), Vector3d(1, 0, 0))); }
HARNESS(own_basis_vertical) { own_basis(Vector3d(0, 0, boolean("up") ? 1 : -1)); }
HARNESS(own_basis_inclined) { own_basis(Vector3d(0.48, 0.64, -0.6)); }
HARNESS(seven) { static const char* nm[] = {"a", "b", "c", "d", "e", "f", "g"}; int n = 7; Agent a{State(vec("p", -1000, 1000))}; Vector3d v = vec("v", -100, 100); a.set_linear_velocity(v); Obs obs; Eigen::ArrayXd d(n), w(n); Mats bs; Vector3d want(0, 0, 0);
  for (int i = 0; i < n; ++i) { auto o = moving(i, nm[i], true, i % 2); obs.push_back(o); d(i) = i % 3 ? 1.25 * i : 0.5; w(i) = real("w", 0, 1); bs.push_back(Matrix3d::Identity()); want = add(want, sc(w(i) * fade(d(i)), add(o->get_linear_velocity(), cr(o->get_angular_velocity(), diff(a.get_position(), o->get_position()))))); }
  auto r = Modulation::compute_relative_velocities(a, obs, d, w, bs); check("weighted-surface-velocity", near(r.second, want)); check("relative", near(r.first, diff(v, want))); }
