// BOUNDS: any rotation about the vertical, position in [-1000,1000]^3, axis lengths in [0.01,50], margins in [0,20], point in [-100,100]^3 in the obstacle frame
#include "common.h"
HARNESS(outline) {
  Array3d m = arr("m", 0, 20), a = arr("a", 0.01, 50); Vector3d l = vec("l", -100, 100);
  Ellipsoid e("e", State(vec("p", -1000, 1000), yaw_quat("q")), m); e.set_axis_lengths(a);
  double X = l(0) / (a(0) + m(0)), Y = l(1) / (a(1) + m(1));
  const Obstacle& o = e; bool in = o.point_is_inside(world(e, l));
  check("iff", iff(lit(in), le(X * X + Y * Y, 1)));
  Vector3d l2(l(0), l(1), real("h", -10, 10));
  check("height", lit(in == o.point_is_inside(world(e, l2))));
}
HARNESS(polar) {   // along a ray of the outline
  Array3d m = arr("m", 0, 20), a = arr("a", 0.01, 50); double c = real("c", -1, 1), s = real("s", -1, 1), k = real("k", 0, 5); assume(eq(c * c + s * s, 1));
  Ellipsoid e("e", State(vec("p", -1000, 1000), yaw_quat("q")), m); e.set_axis_lengths(a);
  Vector3d l(k * c * (a(0) + m(0)), k * s * (a(1) + m(1)), real("z", -3, 3));
  bool in = e.point_is_inside(world(e, l));
  check("ray", iff(lit(in), le(k, 1)));
}
HARNESS(level) {
  Array3d m = arr("m", 0, 20), a = arr("a", 0.01, 50); Vector3d l = vec2("l", -100, 100);
  Ellipsoid e("e", State(vec("p", -1000, 1000), yaw_quat("q")), m); e.set_axis_lengths(a);
  Vector3d w = world(e, l); bool in = e.point_is_inside(w); double d = static_cast<const Obstacle&>(e).compute_distance_to_point(w);
  check("level", iff(lit(in), le(d, 1)));
}
HARNESS(closed) { Ellipsoid e("e", State(vec("p", -1000, 1000), yaw_quat("q")), real("m", 0, 20)); check("closed", lit(e.is_closed())); check("centre", lit(e.point_is_inside(e.get_position()))); }
