// BOUNDS: every rotation about the vertical and every translation within [-1000,1000]^3; matrix: a real ellipsoid with any yaw, position, half-axes, margins and reference point, any agent position around it; velocity: one to three real ellipsoids at fixed relative places, still or moving (linear and vertical angular velocity), agent velocity symbolic in one or two components, repulsion on or off; agents inside one of two obstacles at critical distances 0.75 and 0.25; merged pairs of ellipsoids under every translation
// ASSUMES: hulls of merged obstacles are sampled at world-fixed directions, so for them only translations are claimed
#include "common.h"
static Vector3d sc(double s, const Vector3d& a) { return Vector3d(s * a(0), s * a(1), s * a(2)); }
static Quaterniond mul(const Quaterniond& a, const Quaterniond& b) { return Quaterniond(a.w() * b.w() - a.x() * b.x() - a.y() * b.y() - a.z() * b.z(), a.w() * b.x() + a.x() * b.w() + a.y() * b.z() - a.z() * b.y(), a.w() * b.y() - a.x() * b.z() + a.y() * b.w() + a.z() * b.x(), a.w() * b.z() + a.x() * b.y() - a.y() * b.x() + a.z() * b.w()); }
struct Frame { Quaterniond q; Vector3d t; Vector3d p(const Vector3d& x) const { return add(t, rot(q, x)); } Vector3d v(const Vector3d& x) const { return rot(q, x); } };
static Frame frame(int kind) { Frame f; f.t = kind == 3 ? Vector3d(0, 0, 0) : vec("t", -1000, 1000); f.q = kind == 0 ? Quaterniond(1, 0, 0, 0) : kind == 2 ? Quaterniond(0.28, 0, 0, 0.96) : yaw_quat("f"); return f; }
static Matrix3d mat(const Quaterniond& q) { Matrix3d m; m.col(0) = rot(q, Vector3d(1, 0, 0)); m.col(1) = rot(q, Vector3d(0, 1, 0)); m.col(2) = rot(q, Vector3d(0, 0, 1)); return m; }
static Matrix3d sandwich(const Matrix3d& r, const Matrix3d& m) { Matrix3d o; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double s = 0; for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) s = s + r(i, k) * m(k, l) * r(j, l); o(i, j) = s; } return o; }
static std::shared_ptr<Ellipsoid> moved(const Ellipsoid& e, const Frame& f) { auto o = std::make_shared<Ellipsoid>(e.get_name(), State(f.p(e.get_position()), mul(f.q, e.get_orientation())), e.get_safety_margin()); o->set_axis_lengths(e.get_axis_lengths()); o->set_reference_position(f.p(e.get_reference_position())); o->set_linear_velocity(f.v(e.get_linear_velocity())); o->set_angular_velocity(f.v(e.get_angular_velocity())); return o; }
static void matrix(int kind, const Vector3d& l, bool sized, bool refd, double yaw) { Frame f = frame(kind); Ellipsoid e("e", State(vec("c", -1000, 1000), yaw == 0 ? Quaterniond(1, 0, 0, 0) : yaw == 1 ? Quaterniond(0.8, 0, 0, 0.6) : yaw_quat("q")), 0.25); if (sized) e.set_axis_lengths(Array3d(real("ax", 0.2, 50), 1, 1.5)); else e.set_axis_lengths(Array3d(2, 1, 1.5)); if (refd) e.set_reference_position(world(e, Vector3d(0.25, -0.5, 0.125)));
  Vector3d p = world(e, l); double m = 0.5; Agent a{State(p), m}, b{State(f.p(p)), m}; auto o = moved(e, f);
  auto x = Modulation::compute_modulation_matrix(a, e), y = Modulation::compute_modulation_matrix(b, *o); check("distance", near(std::get<2>(x), std::get<2>(y))); check("matrix", near(std::get<0>(y), sandwich(mat(f.q), std::get<0>(x)))); }
HARNESS(matrix_translated) { matrix(0, Vector3d(real("l", 0.5, 9), 2, 0.5), false, true, 1); }
HARNESS(matrix_turned) { matrix(1, Vector3d(2, real("l", -9, 9), -1), false, true, 1); }
HARNESS(matrix_turned_any_place) { matrix(2, Vector3d(real("l", 0.5, 9), real("k", -9, 9), 0.5), false, false, 1); }
HARNESS(matrix_any_obstacle_yaw) { matrix(2, Vector3d(3, -2, 1), false, true, 2); }
HARNESS(matrix_any_size) { matrix(2, Vector3d(3, -2, 1), true, false, 1); }
// end to end
static void inside(int kind, double critical) { Frame f = frame(kind); Vector3d o = vec("o", -1000, 1000), p = o; Environment u(false), w(false); static const Vector3d at[] = {Vector3d(0.5, 0.5, 0), Vector3d(2, -2, 0)}; static const char* nm[] = {"a", "b"};
  for (int i = 0; i < 2; ++i) { auto e = std::make_shared<Ellipsoid>(nm[i], State(add(o, at[i]), i ? Quaterniond(0.8, 0, 0, 0.6) : Quaterniond(1, 0, 0, 0))); u.add_obstacle(e); w.add_obstacle(moved(*e, f)); } u.update(); w.update();
  Agent a{State(p)}, b{State(f.p(p))}; Vector3d v(1, 0.5, 0.25); a.set_linear_velocity(v); b.set_linear_velocity(f.v(v)); double power = pick("power", 2) ? 3 : 2; bool rep = boolean("repulsion"), local = boolean("local");
  check("velocity", near(Modulation::modulate_velocity(b, w, local, rep, false, critical, power), f.v(Modulation::modulate_velocity(a, u, local, rep, false, critical, power)), 1e-6)); }
HARNESS(inside_translated) { inside(0, 0.75); }
HARNESS(inside_turned) { inside(2, 0.75); }
HARNESS(inside_not_critical) { inside(2, 0.25); }
static Environment env(const std::vector<std::shared_ptr<Ellipsoid>>& o, bool merge = false) { Environment e(merge); for (auto& x : o) e.add_obstacle(x); e.update(); return e; }
static void velocity(int n, int kind, const Vector3d& v, bool moving, bool merge = false, bool planar = false) {
  static const Vector3d at[] = {Vector3d(0, 0, 0), Vector3d(6, 1, 0), Vector3d(2, -5, 0)}; static const char* nm[] = {"a", "b", "c"}; Frame f = frame(kind); Vector3d o = vec("o", -1000, 1000); std::vector<std::shared_ptr<Ellipsoid>> u, w;
  for (int i = 0; i < n; ++i) { auto e = std::make_shared<Ellipsoid>(nm[i], State(add(o, merge ? Vector3d(1.5 * i, 0, 0) : at[i]), i == 1 ? Quaterniond(0.8, 0, 0, 0.6) : Quaterniond(1, 0, 0, 0)), 0.25); e->set_axis_lengths(Array3d(1 + i, 1, 1)); if (!merge) e->set_reference_position(add(e->get_position(), Vector3d(0.125, 0.25, 0))); if (moving) { e->set_linear_velocity(Vector3d(0.5, -0.25, 0)); e->set_angular_velocity(Vector3d(0, 0, 0.5)); } u.push_back(e); w.push_back(moved(*e, f)); }
  Vector3d p = add(o, Vector3d(2, 2, 0)); Agent a{State(p), 0.25}, b{State(f.p(p)), 0.25}; a.set_linear_velocity(v); b.set_linear_velocity(f.v(v)); Environment eu = env(u, merge), ew = env(w, merge); bool rep = boolean("repulsion");
  check("obstacles", lit(eu.get_obstacle_list().size() == ew.get_obstacle_list().size() && eu.get_obstacle_list().size() == (merge ? 1u : (size_t)n)));
  Vector3d x = Modulation::modulate_velocity(a, eu, false, rep, planar), y = Modulation::modulate_velocity(b, ew, false, rep, planar); check("velocity", near(y, f.v(x), 1e-6)); }
HARNESS(velocity_one_turned) { velocity(1, 1, Vector3d(-1, -2, 0.5), false); }
HARNESS(deep_velocity_one_turned) { velocity(1, 1, Vector3d(real("v", -100, 100), 0.5, 0), false); }
HARNESS(velocity_one) { velocity(1, 2, Vector3d(real("v", -100, 100), 0.5, 0), false); }
HARNESS(velocity_one_moving) { velocity(1, 2, Vector3d(real("v", -100, 100), 0.5, 0), true); }
HARNESS(velocity_one_moving_turned) { velocity(1, 1, Vector3d(-1, -2, 0.5), true); }
HARNESS(velocity_one_translated) { velocity(1, 0, Vector3d(real("v", 0.1, 100), real("w", -100, 100), 0), true); }
HARNESS(velocity_one_planar) { velocity(1, 2, Vector3d(-1, real("v", -100, 100), 0), false, false, true); }
HARNESS(velocity_two_turned) { velocity(2, 1, Vector3d(-1, -2, 0.5), false); }
static Vector3d some_velocity() { static const Vector3d v[] = {Vector3d(-3, 1, 0), Vector3d(0.25, 2, -1), Vector3d(0, -4, 0), Vector3d(-1, -1, 0.25)}; return v[pick("v", 4)]; }
HARNESS(velocity_two) { velocity(2, 1, some_velocity(), true); }
HARNESS(velocity_three_moving) { velocity(3, 1, Vector3d(1, -2, 0.5), true); }
HARNESS(velocity_three) { velocity(3, 1, some_velocity(), false); }
HARNESS(merged_translated) { velocity(2, 0, Vector3d(real("v", 0.1, 100), -0.5, 0), false, true); }
