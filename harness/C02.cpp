// BOUNDS: quaternion components in [-4,4] with squared norm at least 1e-3; positions and velocities in [-50,50]^3
#include "common.h"
static Quaterniond any(const std::string& n) {
  double w = real(n + ".w", -4, 4), x = real(n + ".x", -4, 4), y = real(n + ".y", -4, 4), z = real(n + ".z", -4, 4);
  assume(ge(w * w + x * x + y * y + z * z, 1e-3)); return Quaterniond(w, x, y, z);
}
// q is the unit quaternion of the rotation asked for
static B is_unit_of(const Quaterniond& q, const Quaterniond& in) {
  double n = std::sqrt(sqn(in));
  return near(q, Quaterniond(in.w() / n, in.x() / n, in.y() / n, in.z() / n)) || near(q, Quaterniond(-in.w() / n, -in.x() / n, -in.y() / n, -in.z() / n));
}
static void orient(const char* what, const Quaterniond& q, const Quaterniond& in, bool ctor) {
  std::string w(what);
  check((w + "-norm").c_str(), near(sqn(q), 1));
  check((w + "-rotation").c_str(), is_unit_of(q, in));
  if (ctor) check((w + "-representative").c_str(), ge(q.w(), 0));
}
static const Vector3d Z3(0, 0, 0);
static B ident(const Quaterniond& q) { return same(q, Quaterniond(1, 0, 0, 0)); }
HARNESS(pose_ctor) {
  Quaterniond q = any("q"); Vector3d p = vec("p", -50, 50);
  Pose a(p, q); orient("pq", a.get_orientation(), q, true); check("pq-position", same(a.get_position(), p));
}
HARNESS(pose_ctor7) {
  Quaterniond q = any("q"); Vector3d p = vec("p", -50, 50);
  Pose a(p(0), p(1), p(2), q.w(), q.x(), q.y(), q.z()); orient("p7", a.get_orientation(), q, true); check("p7-position", same(a.get_position(), p));
}
HARNESS(pose_copy) {
  Quaterniond q = any("q"); Vector3d p = vec("p", -50, 50); Pose a(p, q), b(a), c; c = a;
  check("copy", same(b.get_position(), a.get_position()) && same(b.get_orientation(), a.get_orientation()));
  check("assign", same(c.get_position(), a.get_position()) && same(c.get_orientation(), a.get_orientation()));
}
HARNESS(pose_set) {
  Quaterniond q = any("q"); Vector3d p = vec("p", -50, 50), p2 = vec("r", -50, 50);
  Pose a(p, unit_quat("u")); Quaterniond o = a.get_orientation();
  a.set_position(p2); check("set-position", same(a.get_position(), p2) && same(a.get_orientation(), o));
  a.set_position(p(0), p(1), p(2)); check("set-position3", same(a.get_position(), p) && same(a.get_orientation(), o));
  a.set_orientation(q); orient("set", a.get_orientation(), q, false); check("set-keeps", same(a.get_position(), p));
}
HARNESS(defaults) {
  Vector3d p = vec("p", -50, 50);
  Pose d, e(p), f(p(0), p(1), p(2));
  check("pose", same(d.get_position(), Z3) && ident(d.get_orientation()) && same(e.get_position(), p) && ident(e.get_orientation()) && same(f.get_position(), p) && ident(f.get_orientation()));
  State s, t(p), u(p(0), p(1), p(2)), v{Pose(p, unit_quat("u"))};
  check("state-zero", same(s.get_position(), Z3) && ident(s.get_orientation()) && same(s.get_linear_velocity(), Z3) && same(s.get_angular_velocity(), Z3));
  check("state-p", same(t.get_position(), p) && ident(t.get_orientation()) && same(t.get_linear_velocity(), Z3) && same(t.get_angular_velocity(), Z3));
  check("state-xyz", same(u.get_position(), p) && ident(u.get_orientation()) && same(u.get_linear_velocity(), Z3) && same(u.get_angular_velocity(), Z3));
  check("state-pose", same(v.get_position(), p) && same(v.get_linear_velocity(), Z3) && same(v.get_angular_velocity(), Z3));
}
HARNESS(state_ctor) {
  Quaterniond q = any("q"); Vector3d p = vec("p", -50, 50), l = vec("l", -50, 50), w = vec("w", -50, 50);
  State s(p, q, l, w); orient("state", s.get_orientation(), q, true);
  check("state-fields", same(s.get_position(), p) && same(s.get_linear_velocity(), l) && same(s.get_angular_velocity(), w) && same(s.get_pose().get_position(), p) && same(s.get_pose().get_orientation(), s.get_orientation()));
  State t(p, q); orient("state2", t.get_orientation(), q, true);
  check("state2-fields", same(t.get_position(), p) && same(t.get_linear_velocity(), Z3) && same(t.get_angular_velocity(), Z3));
}
template <class S> static void setters(S& s, const Vector3d& l0, const Vector3d& w0) {
  Quaterniond q = any("q"); Vector3d p = vec("p2", -50, 50), l = vec("l2", -50, 50), w = vec("w2", -50, 50);
  Vector3d p0 = s.get_position(); Quaterniond o0 = s.get_orientation();
  s.set_linear_velocity(l);
  check("linear", same(s.get_position(), p0) && same(s.get_orientation(), o0) && same(s.get_linear_velocity(), l) && same(s.get_angular_velocity(), w0));
  s.set_angular_velocity(w);
  check("angular", same(s.get_position(), p0) && same(s.get_orientation(), o0) && same(s.get_linear_velocity(), l) && same(s.get_angular_velocity(), w));
  s.set_position(p);
  check("position", same(s.get_position(), p) && same(s.get_orientation(), o0) && same(s.get_linear_velocity(), l) && same(s.get_angular_velocity(), w));
  s.set_orientation(q); orient("orientation", s.get_orientation(), q, false);
  check("orientation-only", same(s.get_position(), p) && same(s.get_linear_velocity(), l) && same(s.get_angular_velocity(), w));
  Pose np(vec("p3", -50, 50), unit_quat("u3")); s.set_pose(np);
  check("pose", same(s.get_position(), np.get_position()) && same(s.get_orientation(), np.get_orientation()) && same(s.get_linear_velocity(), l) && same(s.get_angular_velocity(), w));
}
HARNESS(state_set) {
  Vector3d l = vec("l", -50, 50), w = vec("w", -50, 50); State s(vec("p", -50, 50), unit_quat("u"), l, w);
  check("xyz", (s.set_position(1., 2., 3.), same(s.get_position(), Vector3d(1, 2, 3))));
  setters(s, l, w);
}
HARNESS(obstacle_set) {
  Vector3d l = vec("l", -50, 50), w = vec("w", -50, 50); Ellipsoid s("o", State(vec("p", -50, 50), unit_quat("u"), l, w));
  s.set_position(1., 2., 3.); check("xyz", same(s.get_position(), Vector3d(1, 2, 3)));
  setters(s, l, w);
}
HARNESS(agent_set) {
  // concrete heading: the envelope computation is the subject of C23
  Vector3d l(0, 0, 0), w = vec("w", -50, 50); Agent s(State(vec("p", -50, 50), unit_quat("u"), l, w));
  Quaterniond q = any("q"); Vector3d p = vec("p2", -50, 50), w2 = vec("w2", -50, 50), l2(3, 0, 0);
  Vector3d p0 = s.get_position(); Quaterniond o0 = s.get_orientation();
  check("ctor", same(s.get_linear_velocity(), l) && same(s.get_angular_velocity(), w));
  s.set_linear_velocity(l2);
  check("linear", same(s.get_position(), p0) && same(s.get_orientation(), o0) && same(s.get_linear_velocity(), l2) && same(s.get_angular_velocity(), w));
  s.set_angular_velocity(w2);
  check("angular", same(s.get_position(), p0) && same(s.get_orientation(), o0) && same(s.get_linear_velocity(), l2) && same(s.get_angular_velocity(), w2));
  s.set_position(p);
  check("position", same(s.get_position(), p) && same(s.get_orientation(), o0) && same(s.get_linear_velocity(), l2) && same(s.get_angular_velocity(), w2));
  s.set_orientation(q); orient("orientation", s.get_orientation(), q, false);
  check("orientation-only", same(s.get_position(), p) && same(s.get_linear_velocity(), l2) && same(s.get_angular_velocity(), w2));
  Pose np(vec("p3", -50, 50), unit_quat("u3")); s.set_pose(np);
  check("pose", same(s.get_position(), np.get_position()) && same(s.get_orientation(), np.get_orientation()) && same(s.get_linear_velocity(), l2) && same(s.get_angular_velocity(), w2));
}
HARNESS(obstacle_ctor) {
  Quaterniond q = any("q"); Vector3d p = vec("p", -50, 50), l = vec("l", -50, 50), w = vec("w", -50, 50);
  Ellipsoid e("o", State(p, q, l, w)); orient("obstacle", e.get_orientation(), q, true);
  check("obstacle-fields", same(e.get_position(), p) && same(e.get_linear_velocity(), l) && same(e.get_angular_velocity(), w));
}
