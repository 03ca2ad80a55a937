// BOUNDS: one obstacle with five fixed orientations of normal and reference direction (radial, oblique, vertical, three-dimensional, turned obstacle) at symbolic distance value in [0,1000]; every agent velocity in [-100,100]^3, every obstacle linear and angular velocity in [-100,100]^3; turns by the modulation of more than 0 but less than 1e-4 rad left out
// REPLACED: normal and distance of the obstacle (a stand-in obstacle); the modulation matrix itself is the real one (C17)
#include "common.h"
static void go(const Quaterniond& q, const Vector3d& n, const Vector3d& l, double d, const Vector3d& v, const Vector3d& lin, const Vector3d& ang, const char* = "") {
  auto o = std::make_shared<Stub>("o", State(Vector3d(1, -2, 0.5), q)); o->normal = n; o->dist = d;
  o->set_linear_velocity(lin); o->set_angular_velocity(ang);
  Vector3d off = rot(q, l), pos = add(o->get_reference_position(), off); Agent ag{State(pos)}; ag.set_linear_velocity(v);
  Environment env(false); env.add_obstacle(o); env.update();
  Vector3d out = Modulation::modulate_velocity(ag, env);
  Matrix3d M = std::get<0>(Modulation::compute_modulation_matrix(ag, *o));
  Vector3d u = add(lin, ang.cross(off)); double e = truth(le(d, 1)) ? 1.0 : std::exp(-(d - 1)); u = Vector3d(e * u(0), e * u(1), e * u(2));
  Vector3d r(v(0) - u(0), v(1) - u(1), v(2) - u(2)), w = add(Vector3d(M * r), u);
  // the code approximates turns below 1e-4 rad to first order: turns between 0 and 1e-4 rad are left out
  Vector3d mr = M * r, cr = r.cross(mr); if (!truth(eq(sqn(cr), 0))) { double c = dot(mr, r) / (std::sqrt(sqn(mr)) * std::sqrt(sqn(r))); assume(le(c, 1) && ge(c, -1)); assume(ge(std::acos(c), 1e-4)); }
  check("modulated", near(out, w, 1e-6));
  if (truth(le(d, 1))) { Vector3d wn = rot(q, n); Vector3d diff(out(0) - u(0), out(1) - u(1), out(2) - u(2)); check("not-into-obstacle", near(dot(diff, wn), 0, 1e-6)); }
}
static const Vector3d Z(0, 0, 0);
static Quaterniond id() { return Quaterniond(1, 0, 0, 0); }
HARNESS(radial_static) { go(id(), Vector3d(1, 0, 0), Vector3d(2, 0, 0), real("d", 0, 1000), vec("v", -100, 100), Z, Z); }
HARNESS(radial_static_planar) { go(id(), Vector3d(1, 0, 0), Vector3d(2, 0, 0), real("d", 0, 1000), vec2("v", -100, 100), Z, Z); }
HARNESS(vertical_velocity) { go(id(), Vector3d(1, 0, 0), Vector3d(2, 0, 0), real("d", 0, 1000), Vector3d(0, 0, real("v", -100, 100)), Z, Z); }
HARNESS(oblique_static) { go(id(), Vector3d(1, 0, 0), Vector3d(3, 4, 0), real("d", 0, 1000), vec2("v", -100, 100), Z, Z); }
HARNESS(overhead_static) { go(id(), Vector3d(0, 0, 1), Vector3d(0, 0, 2), real("d", 0, 1000), vec("v", -100, 100), Z, Z); }
HARNESS(below_oblique) { go(id(), Vector3d(0, 0, -1), Vector3d(3, 0, -4), real("d", 0, 1000), vec2("v", -5, 5, 1), Z, Z); }
HARNESS(slanted_static) { go(id(), Vector3d(2. / 3, 1. / 3, 2. / 3), Vector3d(2, 1, 2), real("d", 0, 1000), vec2("v", -100, 100), Z, Z); }
HARNESS(turned_static) { go(Quaterniond(0.8, 0, 0, 0.6), Vector3d(0.6, 0.8, 0), Vector3d(3, 4, 0), real("d", 0, 1000), vec2("v", -100, 100), Z, Z); }
HARNESS(tilted_static) { go(Quaterniond(0.5, 0.5, 0.5, 0.5), Vector3d(1, 0, 0), Vector3d(2, 0, 0), real("d", 0, 1000), vec2("v", -100, 100), Z, Z); }
HARNESS(moving_contact) { go(id(), Vector3d(1, 0, 0), Vector3d(2, 0, 0), real("d", 0, 1), vec2("v", -100, 100), vec2("lin", -100, 100), Z); }
HARNESS(moving_contact_3d) { go(id(), Vector3d(1, 0, 0), Vector3d(2, 0, 0), real("d", 0, 1), vec2("v", -100, 100), vec("lin", -100, 100), Z); }
HARNESS(rotating_contact) { go(id(), Vector3d(1, 0, 0), Vector3d(3, 4, 0), real("d", 0, 1), vec2("v", -100, 100), Vector3d(1, 0, 0), Vector3d(0, 0, real("ang", -100, 100))); }
HARNESS(moving_away) { go(id(), Vector3d(1, 0, 0), Vector3d(2, 0, 0), real("d", 1, 1000), vec2("v", -100, 100), Vector3d(real("lin", -100, 100), 0, 0), Z); }
HARNESS(rotating_away) { go(id(), Vector3d(1, 0, 0), Vector3d(2, 0, 0), real("d", 1, 1000), vec2("v", -100, 100), Z, Vector3d(0, 0, real("ang", -100, 100))); }
HARNESS(tumbling_contact) { go(Quaterniond(0.8, 0, 0, 0.6), Vector3d(1, 0, 0), Vector3d(2, 0, 0), real("d", 0, 1), vec2("v", -100, 100), Z, vec("ang", -100, 100)); }
// the real ellipsoid in an aggregating environment, agent anywhere along a ray
static void real_one(double ax, double ay, double dx, double dy, const Vector3d& v, const Vector3d& lin, double smax = 4) {
  auto o = std::make_shared<Ellipsoid>("o", State(Vector3d(1, -2, 0.5))); o->set_axis_lengths(Array3d(ax, ay, 1)); o->set_linear_velocity(lin);
  double s = real("s", 0.3, smax); Vector3d l(s * dx, s * dy, 0); Agent ag{State(add(o->get_position(), l))}; ag.set_linear_velocity(v);
  Environment env; env.add_obstacle(o); env.update();
  Vector3d out = Modulation::modulate_velocity(ag, env); auto t = Modulation::compute_modulation_matrix(ag, *o); Matrix3d M = std::get<0>(t); double d = l(0) * l(0) / (ax * ax) + l(1) * l(1) / (ay * ay);
  check("distance", near(std::get<2>(t), d));
  double e = truth(le(d, 1)) ? 1.0 : std::exp(-(d - 1)); Vector3d u(e * lin(0), e * lin(1), e * lin(2)), r(v(0) - u(0), v(1) - u(1), v(2) - u(2)), w = add(Vector3d(M * r), u);
  Vector3d mr = M * r, cr = r.cross(mr); if (!truth(eq(sqn(cr), 0))) { double c = dot(mr, r) / (std::sqrt(sqn(mr)) * std::sqrt(sqn(r))); assume(le(c, 1) && ge(c, -1)); assume(ge(std::acos(c), 1e-4)); }
  check("modulated", near(out, w, 1e-6));
  if (truth(le(d, 1))) check("not-into-ellipsoid", near((out(0) - u(0)) * l(0) / (ax * ax) + (out(1) - u(1)) * l(1) / (ay * ay), 0, 1e-6));
}
HARNESS(ellipsoid_ray) { real_one(2, 1, 1.2, 0.8, vec2("v", -100, 100), Z); }
HARNESS(ellipsoid_axis_moving) { real_one(2, 1, 2, 0, vec2("v", -100, 100), vec2("lin", -100, 100), 1); }
HARNESS(ellipsoid_ray_moving) { real_one(2, 1, 1.2, 0.8, vec2("v", -100, 100), vec2("lin", -100, 100), 1); }
HARNESS(any_normal_contact) { Vector3d n = unit_vec("n"); assume(gt(n(2), 0.01)); go(id(), n, Vector3d(2 * n(0), 2 * n(1), 2 * n(2)), real("d", 0, 1), Vector3d(real("v.x", -100, 100), real("v.y", 0.01, 5), 0), Z, Z); }
