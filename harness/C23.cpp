// BOUNDS: every constructor; every agent state (positions within [-1000,1000], any unit quaternion, velocity within [-100,100]^3 including zero and vertical), margin in [0,20]; then every sequence of two (thorough three) mutating operations (position, velocity, margin, orientation, angular velocity, pose, transform, stopping), copy or assignment
#include "agent.h"
HARNESS(default_agent) { Agent a; check_envelope(a); check("at-rest", same(a.get_position(), Vector3d(0, 0, 0)) && same(a.get_linear_velocity(), Vector3d(0, 0, 0)) && same(a.get_safety_margin(), 0)); }
HARNESS(margin_only) { double m = real("m", -1, 20); Agent a(m); check_envelope(a); check("kept", same(a.get_safety_margin(), m)); }
HARNESS(from_state) { Agent a = any_agent(); check_envelope(a); }
HARNESS(from_state_default_margin) { Agent a{State(vec("p", -1000, 1000), unit_quat("q"), vec("v", -100, 100), vec("w", -100, 100))}; check_envelope(a); }
HARNESS(from_position) { Agent a{State(vec("p", -1000, 1000)), real("m", 0, 20)}; check_envelope(a); }
HARNESS(level_heading) { Agent a{State(vec("p", -1000, 1000), yaw_quat("q"), vec2("v", -100, 100), Vector3d(0, 0, 0)), real("m", 0, 20)}; check_envelope(a); }
HARNESS(vertical_heading) { Agent a{State(vec("p", -1000, 1000), yaw_quat("q"), Vector3d(0, 0, real("vz", -100, 100)), Vector3d(0, 0, 0)), real("m", 0, 20)}; check_envelope(a); }
HARNESS(one_operation) { Agent a = any_agent(); operate(a, pick("op", OPS)); check_envelope(a); }
static void seq(int n, bool copies, int first = -1) { Agent a = any_agent(boolean("moving"));
  for (int i = 0; i < n; ++i) operate(a, i == 0 && first >= 0 ? first : pick("op", OPS));
  if (copies) { int c = pick("copy", 4); if (c == 1) { Agent b(a); operate(b, pick("op", OPS)); check_envelope(b); } else if (c == 2) { Agent b(real("m", 0, 20)); b.set_linear_velocity(Vector3d(1, 2, 0)); b = a; check_envelope(b); operate(b, 2); check_envelope(b); } else if (c == 3) { a = a; check_envelope(a); } else { Agent b = a.transformed(Pose(vec("tp", -1000, 1000), unit_quat("tq"))); check_envelope(b); } }
  else check_envelope(a); }
// copies: heading and margin given, so that only the order of operations forks
static void copies(int c) { Agent a{State(vec("p", -1000, 1000), unit_quat("q"), Vector3d(real("v", 0.1, 100), 1, 0.5), vec("w", -100, 100)), real("m", 0.2, 20)};
  if (c == 0) { Agent b(a); check_envelope(b); operate(b, pick("op", OPS)); check_envelope(b); } else if (c == 1) { Agent b(0.3); b.set_linear_velocity(Vector3d(1, 2, 0)); b = a; check_envelope(b); operate(b, pick("op", OPS)); check_envelope(b); }
  else if (c == 2) { Agent& r = a; a = r; check_envelope(a); operate(a, pick("op", OPS)); } else { Agent b = a.transformed(Pose(vec("tp", -1000, 1000), unit_quat("tq"))); check_envelope(b); operate(b, pick("op", OPS)); check_envelope(b); }
  check_envelope(a); }
HARNESS(copied) { copies(0); }
HARNESS(assigned) { copies(1); }
HARNESS(self_assigned) { copies(2); }
HARNESS(transformed) { copies(3); }
HARNESS(copied_vector) { std::vector<Agent> v; v.push_back(any_agent()); v.push_back(Agent{State(vec("p", -1000, 1000)), 0.5}); std::swap(v[0], v[1]); check_envelope(v[1]); v.erase(v.begin()); check_envelope(v[0]); }
HARNESS(two_operations_0) { seq(2, false, 0); }
HARNESS(two_operations_1) { seq(2, false, 1); }
HARNESS(two_operations_2) { seq(2, false, 2); }
HARNESS(two_operations_3) { seq(2, false, 3); }
HARNESS(two_operations_4) { seq(2, false, 4); }
HARNESS(two_operations_5) { seq(2, false, 5); }
HARNESS(two_operations_6) { seq(2, false, 6); }
HARNESS(two_operations_7) { seq(2, false, 7); }
HARNESS(deep_three_operations_0) { seq(3, false, 0); }
HARNESS(deep_three_operations_1) { seq(3, false, 1); }
HARNESS(deep_three_operations_2) { seq(3, false, 2); }
HARNESS(deep_three_operations_3) { seq(3, false, 3); }
HARNESS(deep_three_operations_4) { seq(3, false, 4); }
HARNESS(deep_three_operations_5) { seq(3, false, 5); }
HARNESS(deep_three_operations_6) { seq(3, false, 6); }
HARNESS(deep_three_operations_7) { seq(3, false, 7); }
HARNESS(deep_one_then_copy) { seq(1, true); }
// the envelope covers the agent and its margin ahead
static void covers(const Vector3d& v) { Agent a{State(vec("p", -1000, 1000))}; double m = real("m", 0, 20); a.set_safety_margin(m); a.set_linear_velocity(v); double h = std::sqrt(v(0) * v(0) + v(1) * v(1)), mm = m; if (truth(lt(m, 0.1))) mm = 0.1; double t = real("t", 0, 1);
  check("covers", lit(env_of(a).point_is_inside(Vector3d(a.get_position()(0) + t * mm * v(0) / h, a.get_position()(1) + t * mm * v(1) / h, a.get_position()(2))))); }
HARNESS(covers_ahead_axis) { covers(Vector3d(real("v", 0.01, 5), 0, 0)); }
HARNESS(covers_ahead) { covers(Vector3d(3, -4, 0)); }
HARNESS(covers_climbing) { covers(Vector3d(2, -1, 2)); }
HARNESS(covers_any_heading) { Quaterniond q = yaw_quat("h"); covers(rot(q, Vector3d(1, 0, 0))); }
HARNESS(covers_at_rest) { Agent a{State(vec("p", -1000, 1000))}; a.set_safety_margin(real("m", 0, 20)); double r = real("r", 0, 0.0999); Quaterniond q = yaw_quat("h"); check("covers", lit(env_of(a).point_is_inside(add(a.get_position(), rot(q, Vector3d(r, 0, 0)))))); }
