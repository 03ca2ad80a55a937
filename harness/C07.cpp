// BOUNDS: any rotation about the vertical, position in [-1000,1000]^3, axis lengths in [0.05,50], margins in [0,20], agent in [-100,100]^3 in the obstacle frame, velocity in [-100,100]^3, any previous reference point in [-1000,1000]^3
#include "common.h"
static void go(const Vector3d& d, const Vector3d& l, double zz) {
  Array3d m = arr("m", 0, 20), a = arr("a", 0.05, 50); Vector3d r0 = vec("r", -1000, 1000), lv = vec("lv", -100, 100), wv = vec("wv", -100, 100);
  Ellipsoid e("e", State(vec("p", -1000, 1000), yaw_quat("q"), lv, wv), r0, m); e.set_axis_lengths(a);
  Vector3d pos = e.get_position(); Quaterniond ori = e.get_orientation();
  Vector3d ap = world(e, l), av = rot(ori, d);
  Agent ag(State(ap, Quaterniond(1, 0, 0, 0), av, Vector3d(0, 0, 0)), 0.3);
  Vector3d ec = ag.get_envelope().get_position();
  double A = a(0) + m(0), Bx = a(1) + m(1), c = l(0) * d(1) - l(1) * d(0), u = A * d(1), v = Bx * d(0);
  bool heading = truth(gt(d(0) * d(0) + d(1) * d(1), 0));
  bool meets = heading && truth(le(c * c, u * u + v * v));
  e.shift_reference_point(ag);
  Vector3d r = e.get_reference_position();
  if (meets) {
    // midpoint of the two roots of the quadratic in the line parameter
    double t = -(l(0) * d(0) * (Bx * Bx) + l(1) * d(1) * (A * A)) / (d(0) * d(0) * (Bx * Bx) + d(1) * d(1) * (A * A));
    Vector3d mid(l(0) + t * d(0), l(1) + t * d(1), 0);
    check("midpoint", near(r, world(e, mid)));
    double X = mid(0) / A, Y = mid(1) / Bx;
    check("inside", le(X * X + Y * Y, 1));
    check("on-heading", near((r(0) - ap(0)) * av(1), (r(1) - ap(1)) * av(0)));
  } else check("stays", same(r, r0));
  check("obstacle-kept", same(e.get_position(), pos) && same(e.get_orientation(), ori) && same(e.get_linear_velocity(), lv) && same(e.get_angular_velocity(), wv) && same(Vector3d(e.get_axis_lengths()), Vector3d(a)) && same(Vector3d(e.get_safety_margin()), Vector3d(m)) && same(Vector3d(e.get_curvature_factor()), Vector3d(1, 1, 1)));
  check("agent-kept", same(ag.get_position(), ap) && same(ag.get_linear_velocity(), av) && same(ag.get_safety_margin(), 0.3) && same(ag.get_envelope().get_position(), ec));
  e.shift_reference_point(ag);
  check("again", near(e.get_reference_position(), r));
}
HARNESS(general) { go(vec2("d", -5, 5), vec("l", -100, 100), 0); }
HARNESS(climbing) { Vector3d d = vec("d", -5, 5); go(d, vec("l", -100, 100), 0); }
HARNESS(along_y) { go(Vector3d(0, real("k", -5, 5), 0), vec("l", -100, 100), 0); }
HARNESS(along_x) { go(Vector3d(real("k", -5, 5), 0, 0), vec("l", -100, 100), 0); }
HARNESS(vertical) { go(Vector3d(0, 0, real("k", -5, 5)), vec("l", -100, 100), 0); }
// the default implementation for obstacles that report no crossing keeps the reference point
struct None : public Obstacle { using Obstacle::Obstacle; std::pair<bool, std::pair<Vector3d, Vector3d>> r; mutable Vector3d x1, x2; mutable int n = 0;
  std::pair<bool, std::pair<Vector3d, Vector3d>> compute_interesection_points(const Vector3d& a, const Vector3d& b) override { x1 = a; x2 = b; ++n; return r; } };
HARNESS(any_obstacle) {   // whatever the obstacle's own crossing points are
  None o("o", State(vec("p", -1000, 1000)), vec("r", -1000, 1000), 0.); Vector3d r0 = o.get_reference_position(), a = vec("a", -1000, 1000), b = vec("b", -1000, 1000);
  bool hit = boolean("hit"); o.r = std::make_pair(hit, std::make_pair(a, b));
  Agent ag(State(vec("ap", -1000, 1000), Quaterniond(1, 0, 0, 0), vec("v", -100, 100), Vector3d(0, 0, 0)), 0.);
  o.shift_reference_point(ag);
  Vector3d ap = ag.get_position(), av = ag.get_linear_velocity(), d1(o.x1(0) - ap(0), o.x1(1) - ap(1), o.x1(2) - ap(2)), d2(o.x2(0) - ap(0), o.x2(1) - ap(1), o.x2(2) - ap(2)), dd(o.x2(0) - o.x1(0), o.x2(1) - o.x1(1), o.x2(2) - o.x1(2));
  check("line", near(d1.cross(av), Vector3d(0, 0, 0)) && near(d2.cross(av), Vector3d(0, 0, 0)) && implies(gt(sqn(av), 0), gt(sqn(dd), 0)));
  if (hit) check("mid", near(o.get_reference_position(), Vector3d((a(0) + b(0)) / 2, (a(1) + b(1)) / 2, (a(2) + b(2)) / 2)));
  else check("kept", same(o.get_reference_position(), r0));
}
