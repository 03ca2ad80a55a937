// BOUNDS: any unit orientation (curvature one) or any rotation about the vertical (curvature 1..3, thorough 1..4, per axis), position in [-1000,1000]^3
// BOUNDS: axis lengths plus margins in [0.01,9] (real shapes: margins in [0,20]), local agent position in [-100,100]^3 not at the centre
#include "common.h"
static Array3d L;   // inflated lengths: the axis lengths are what remains after both margins
static Array3d axes(const Array3d& m, double x) {
  L = arr("L", 0.01, 9); Array3d a(L(0) - m(0) - x, L(1) - m(1) - x, L(2) - m(2) - x);
  for (int i = 0; i < 3; ++i) assume(ge(a(i), 0.01) && le(a(i), 5)); return a;
}
static void go(const Ellipsoid& e, double x, const Vector3d& l, const int* c) {
  assume(!(eq(l(0), 0) && eq(l(1), 0) && eq(l(2), 0)));
  Agent ag(State(world(e, l)), x); const Obstacle& o = e;
  Vector3d n = o.compute_normal_to_agent(ag), g;
  for (int i = 0; i < 3; ++i) { g(i) = 2 * c[i] * ipow(l(i) / L(i), 2 * c[i] - 1) / L(i); }
  check("unit", near(sqn(n), 1));
  check("parallel", near(n(0) * g(1), n(1) * g(0)) && near(n(1) * g(2), n(2) * g(1)) && near(n(2) * g(0), n(0) * g(2)));
  check("outward", gt(dot(n, g), 0));
}
HARNESS(sphere_like) {
  Array3d m = arr("m", 0, 20); int c[3] = {1, 1, 1}; double x = real("x", 0, 2);
  Ellipsoid e("e", State(vec("p", -1000, 1000), unit_quat("q")), m); e.set_axis_lengths(axes(m, x));
  go(e, x, vec("l", -100, 100), c);
}
HARNESS(curvature) {
  Array3d m = arr("m", 0, 20); double x = real("x", 0.1, 2);
  int n = thorough() ? 4 : 3, c[3] = {integer("c0", 1, n), integer("c1", 1, n), integer("c2", 1, n)};
  Ellipsoid e("e", State(vec("p", -1000, 1000), yaw_quat("q")), m); e.set_axis_lengths(axes(m, x)); e.set_curvature_factor(Array3d(c[0], c[1], c[2]));
  go(e, x, vec("l", -100, 100), c);
}
HARNESS(plane) {   // agent in the obstacle's horizontal plane
  Array3d m = arr("m", 0, 20); int c[3] = {integer("c0", 1, 2), integer("c1", 1, 2), 1}; double x = real("x", 0, 2);
  Ellipsoid e("e", State(vec("p", -1000, 1000), yaw_quat("q")), m); e.set_axis_lengths(axes(m, x)); e.set_curvature_factor(Array3d(c[0], c[1], c[2]));
  go(e, x, vec2("l", -100, 100), c);
}
