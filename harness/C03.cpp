// BOUNDS: any unit orientation, position in [-1000,1000]^3, axis lengths in [0,50], margins in [0,20], extra margin in [-1,2] per axis, local coordinates in [-100,100]
// BOUNDS: curvature factors 1,1,1 with all lengths symbolic; curvature 1..3 (thorough 1..5) per axis with non-degenerate lengths
#include "common.h"
static double level(const Vector3d& l, const Array3d& len, const int* c) {
  double s = 0; for (int i = 0; i < 3; ++i) s = s + ipow(l(i) / len(i), 2 * c[i]); return s;
}
static const int one[3] = {1, 1, 1};
HARNESS(plain) {
  Array3d m = arr("m", 0, 20), a = arr("a", 0.01, 50), x = arr("x", 0, 2); Vector3d l = vec("l", -100, 100);
  Ellipsoid e("e", State(vec("p", -1000, 1000), unit_quat("q")), m); e.set_axis_lengths(a);
  Array3d len(a(0) + m(0) + x(0), a(1) + m(1) + x(1), a(2) + m(2) + x(2));
  const Obstacle& o = e; double d = o.compute_distance_to_point(world(e, l), x);
  check("level", near(d, level(l, len, one)));
}
HARNESS(surface) {
  Array3d m = arr("m", 0, 20), a = arr("a", 0.01, 50), x = arr("x", 0, 2); Vector3d u = unit_vec("u"); double k = real("k", 0, 4);
  Ellipsoid e("e", State(vec("p", -1000, 1000), unit_quat("q")), m); e.set_axis_lengths(a);
  Vector3d l(k * u(0) * (a(0) + m(0) + x(0)), k * u(1) * (a(1) + m(1) + x(1)), k * u(2) * (a(2) + m(2) + x(2)));   // scaled point of the inflated surface
  double d = e.compute_distance_to_point(world(e, l), x);
  check("on", implies(eq(k, 1), near(d, 1))); check("inside", iff(lt(k, 1), lt(d, 1))); check("outside", iff(gt(k, 1), gt(d, 1)));
}
HARNESS(scalar_margin) {
  Array3d m = arr("m", 0, 20), a = arr("a", 0.01, 50); double x = real("x", 0, 2); Vector3d l = vec("l", -100, 100);
  Ellipsoid e("e", State(vec("p", -1000, 1000), unit_quat("q")), m); e.set_axis_lengths(a);
  Array3d len(a(0) + m(0) + x, a(1) + m(1) + x, a(2) + m(2) + x);
  const Obstacle& o = e;
  check("scalar", near(o.compute_distance_to_point(world(e, l), x), level(l, len, one)));
  Array3d len0(a(0) + m(0), a(1) + m(1), a(2) + m(2));
  check("default", near(o.compute_distance_to_point(world(e, l)), level(l, len0, one)));
}
HARNESS(agent) {
  Array3d m = arr("m", 0, 20), a = arr("a", 0.01, 50); double x = real("x", 0, 2); Vector3d l = vec("l", -100, 100);
  Ellipsoid e("e", State(vec("p", -1000, 1000), unit_quat("q")), m); e.set_axis_lengths(a);
  Array3d len(a(0) + m(0) + x, a(1) + m(1) + x, a(2) + m(2) + x);
  Agent ag(State(world(e, l)), x); const Obstacle& o = e;
  check("agent", near(o.compute_distance_to_agent(ag), level(l, len, one)));
  check("curvature-default", same(e.get_curvature_factor(0), 1) && same(e.get_curvature_factor(1), 1) && same(e.get_curvature_factor(2), 1));
}
HARNESS(degenerate) {   // any of the three inflated lengths may be at or below the threshold
  Array3d m = arr("m", 0, 20), a = arr("a", 0, 50), x = arr("x", -1, 2); Vector3d l = vec("l", -100, 100);
  Ellipsoid e("e", State(vec("p", -1000, 1000), unit_quat("q")), m); e.set_axis_lengths(a);
  Array3d len; for (int i = 0; i < 3; ++i) len(i) = truth(gt(a(i) + m(i) + x(i), 1e-4)) ? a(i) + m(i) + x(i) : 1.0;
  check("level", near(e.compute_distance_to_point(world(e, l), x), level(l, len, one)));
}
HARNESS(curvature) {
  Array3d m = arr("m", 0, 20), a = arr("a", 0.01, 50), x = arr("x", 0, 2); Vector3d l = vec("l", -100, 100);
  int n = thorough() ? 5 : 3, c[3] = {integer("c0", 1, n), integer("c1", 1, n), integer("c2", 1, n)};
  Ellipsoid e("e", State(vec("p", -1000, 1000), yaw_quat("q")), m); e.set_axis_lengths(a); e.set_curvature_factor(Array3d(c[0], c[1], c[2]));
  Array3d len(a(0) + m(0) + x(0), a(1) + m(1) + x(1), a(2) + m(2) + x(2));
  check("level", near(e.compute_distance_to_point(world(e, l), x), level(l, len, c)));
}
HARNESS(curvature_degenerate) {
  Array3d m = arr("m", 0, 20), a = arr("a", 0, 50), x = arr("x", -1, 2); Vector3d l = vec("l", -100, 100);
  int c[3] = {integer("c0", 1, 2), integer("c1", 1, 2), 2};
  Ellipsoid e("e", State(vec("p", -1000, 1000)), m); e.set_axis_lengths(a); e.set_curvature_factor(Array3d(c[0], c[1], c[2]));
  Array3d len; for (int i = 0; i < 3; ++i) len(i) = truth(gt(a(i) + m(i) + x(i), 1e-4)) ? a(i) + m(i) + x(i) : 1.0;
  check("level", near(e.compute_distance_to_point(world(e, l), x), level(l, len, c)));
}
