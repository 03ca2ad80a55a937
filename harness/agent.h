// What the envelope of an agent must be, from the agent's own getters.
#ifndef AGENT_H
#define AGENT_H
#include "common.h"
inline const Ellipsoid& env_of(const Agent& a) { return static_cast<const Ellipsoid&>(a.get_envelope()); }
inline void check_envelope(const Agent& a) {
  const Ellipsoid& e = env_of(a); Vector3d p = a.get_position(), v = a.get_linear_velocity(); double m = a.get_safety_margin(); if (truth(lt(m, 0.1))) m = 0.1;
  double n2 = sqn(v); bool moving = truth(gt(n2, 0)); double off = moving ? 0.5 : 0.0; Vector3d c = p;
  if (moving) { double n = std::sqrt(n2); c = Vector3d(p(0) + 0.5 * v(0) / n, p(1) + 0.5 * v(1) / n, p(2) + 0.5 * v(2) / n); }
  check("centre", near(e.get_position(), c)); check("reference", near(e.get_reference_position(), c));
  Array3d x = e.get_axis_lengths(), sm = e.get_safety_margin(); check("half-axes", near(x(0), off + m) && near(x(1), m) && near(x(2), m) && near(sm(0), 0) && near(sm(1), 0) && near(sm(2), 0));
  double h2 = v(0) * v(0) + v(1) * v(1); check("upright", near(rot(e.get_orientation(), Vector3d(0, 0, 1)), Vector3d(0, 0, 1)));
  if (truth(gt(h2, 0))) { double h = std::sqrt(h2); check("heading", near(rot(e.get_orientation(), Vector3d(h, 0, 0)), Vector3d(v(0), v(1), 0))); }
}
inline Quaterniond quat(const std::string& n) { return unit_quat(n); }
// one public operation that changes an agent
enum { OPS = 8 };
inline void operate(Agent& a, int k) {
  if (k == 0) a.set_position(vec("sp", -10, 10)); else if (k == 1) a.set_linear_velocity(vec("sv", -5, 5)); else if (k == 2) a.set_safety_margin(real("sm", 0, 2)); else if (k == 3) a.set_orientation(unit_quat("sq"));
  else if (k == 4) a.set_angular_velocity(vec("sw", -5, 5)); else if (k == 5) a.set_pose(Pose(vec("sp", -10, 10), unit_quat("sq"))); else if (k == 6) a.transform(Pose(vec("tp", -10, 10), unit_quat("tq"))); else a.set_linear_velocity(Vector3d(0, 0, 0));
}
struct Look { Vector3d p, l, w, ep, er; Quaterniond q, eq; double m; Array3d ax; };
inline Look look(const Agent& a) { const Ellipsoid& e = env_of(a); Look s; s.p = a.get_position(); s.l = a.get_linear_velocity(); s.w = a.get_angular_velocity(); s.q = a.get_orientation(); s.m = a.get_safety_margin(); s.ep = e.get_position(); s.er = e.get_reference_position(); s.eq = e.get_orientation(); s.ax = e.get_axis_lengths(); return s; }
inline B same_state(const Look& a, const Look& b) { return same(a.p, b.p) && same(a.l, b.l) && same(a.w, b.w) && same(a.q, b.q) && same(a.m, b.m); }
inline B same_envelope(const Look& a, const Look& b) { return same(a.ep, b.ep) && same(a.er, b.er) && same(a.eq, b.eq) && same(a.ax(0), b.ax(0)) && same(a.ax(1), b.ax(1)) && same(a.ax(2), b.ax(2)); }
inline B same_all(const Look& a, const Look& b) { return same_state(a, b) && same_envelope(a, b); }
inline Agent any_agent(bool moving = true) { return Agent(State(vec("p", -10, 10), unit_quat("q"), moving ? vec("v", -5, 5) : Vector3d(0, 0, 0), vec("w", -5, 5)), real("m", 0, 2)); }
#endif
