// BOUNDS: any rotation about the vertical, position in [-1000,1000]^3, axis lengths in [0.05,50], margins in [0,20], the two points in [-10,10]^2 in the obstacle frame at any height, at least 0.01 apart
#include "common.h"
struct S { Array3d m, a; Ellipsoid e; double A, Bx; S() : m(arr("m", 0, 20)), a(arr("a", 0.05, 50)), e("e", State(vec("p", -1000, 1000), yaw_quat("q")), m) { e.set_axis_lengths(a); A = a(0) + m(0); Bx = a(1) + m(1); } };
// the line through p (direction d) meets the ellipse iff (p x d)^2 <= (A d_y)^2 + (B d_x)^2
static B meets(const S& s, const Vector3d& p, const Vector3d& d) { double c = p(0) * d(1) - p(1) * d(0), u = s.A * d(1), v = s.Bx * d(0); return le(c * c, u * u + v * v); }
static void go(S& s, const Vector3d& p, const Vector3d& d, bool concrete_dir = false) {
  Vector3d q = add(p, d); Obstacle& o = s.e; Vector3d pos = s.e.get_position(); Quaterniond ori = s.e.get_orientation();
  auto r = o.compute_interesection_points(world(s.e, p), world(s.e, q));
  check("exactly-when", iff(lit(r.first), meets(s, p, d)));
  check("unchanged", same(o.get_position(), pos) && same(o.get_orientation(), ori) && same(o.get_reference_position(), pos));
  if (!r.first) return;
  // back in the obstacle frame (conjugate rotation)
  Quaterniond qc(ori.w(), -ori.x(), -ori.y(), -ori.z()); Vector3d pts[2];
  Vector3d w1 = r.second.first, w2 = r.second.second;
  pts[0] = rot(qc, Vector3d(w1(0) - pos(0), w1(1) - pos(1), w1(2) - pos(2))); pts[1] = rot(qc, Vector3d(w2(0) - pos(0), w2(1) - pos(1), w2(2) - pos(2)));
  for (int i = 0; i < 2; ++i) {
    double X = pts[i](0) / s.A, Y = pts[i](1) / s.Bx;
    check(i ? "outline2" : "outline1", near(X * X + Y * Y, 1));
    check(i ? "line2" : "line1", near((pts[i](0) - p(0)) * d(1), (pts[i](1) - p(1)) * d(0)));
    check(i ? "height2" : "height1", near(pts[i](2), 0));
  }
  // both of them: on opposite sides of the foot of the chord midpoint, i.e. distinct unless the line is tangent
  double c = p(0) * d(1) - p(1) * d(0), u = s.A * d(1), v = s.Bx * d(0);
  check("both", implies(lt(c * c, u * u + v * v), !(eq(pts[0](0), pts[1](0)) && eq(pts[0](1), pts[1](1)))));
}
HARNESS(general) { S s; Vector3d p = vec("a", -10, 10), d = vec2("d", -10, 10); assume(ge(d(0) * d(0) + d(1) * d(1), 1e-4)); d(2) = real("dz", -5, 5); go(s, p, d); }
HARNESS(along_x) { S s; Vector3d p = vec("a", -10, 10); double k = real("k", -10, 10); assume(ge(k * k, 1e-4)); go(s, p, Vector3d(k, 0, 0)); }
HARNESS(along_y) { S s; Vector3d p = vec("a", -10, 10); double k = real("k", -10, 10); assume(ge(k * k, 1e-4)); go(s, p, Vector3d(0, k, 0)); }
HARNESS(through_centre) { S s; Vector3d d = vec2("d", -10, 10); assume(ge(d(0) * d(0) + d(1) * d(1), 1e-4)); go(s, Vector3d(0, 0, 0), d); }
