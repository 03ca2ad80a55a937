// BOUNDS: every agent state (positions within [-1000,1000], any unit quaternion, velocity within [-100,100]^3, margin in [0,20]) and transformation; after copying, assigning or transforming, one (thorough two) arbitrary mutating operations on either agent
#include "agent.h"
static void independent(Agent& x, Agent& y, int n) {   // changing x leaves y alone and vice versa
  Look ly = look(y); for (int i = 0; i < n; ++i) operate(x, pick("op", OPS)); check("other-untouched", same_all(look(y), ly));
  Look lx = look(x); operate(y, pick("back", OPS)); check("first-untouched", same_all(look(x), lx)); check("own-envelope", lit(&x.get_envelope() != &y.get_envelope())); }
HARNESS(copied) { Agent a = any_agent(); Look l = look(a); Agent b(a); check("equal", same_all(look(b), l)); check("original", same_all(look(a), l)); check_envelope(b); }
HARNESS(assigned) { Agent a = any_agent(); Look l = look(a); Agent b(State(vec("bp", -1000, 1000)), real("bm", 0, 20)); b.set_linear_velocity(vec("bv", -100, 100)); Agent& r = (b = a); check("equal", same_all(look(b), l)); check("original", same_all(look(a), l)); check("returns-itself", lit(&r == &b)); check_envelope(b); }
HARNESS(self_assigned) { Agent a = any_agent(); Look l = look(a); Agent& o = a; a = o; check("equal", same_all(look(a), l)); }
HARNESS(copied_default) { Agent a; Agent b(a); Agent c(real("m", 0, 20)); c = a; check("equal", same_all(look(a), look(b)) && same_all(look(a), look(c))); }
HARNESS(copied_independent) { Agent a = any_agent(false); Agent b(a); if (boolean("first")) independent(a, b, 1); else independent(b, a, 1); }
HARNESS(copied_independent_moving) { Agent a = any_agent(); Agent b(a); if (boolean("first")) independent(a, b, 1); else independent(b, a, 1); }
HARNESS(assigned_independent) { Agent a = any_agent(); Agent b; b = a; if (boolean("first")) independent(a, b, 1); else independent(b, a, 1); }
HARNESS(deep_copied_independent) { Agent a = any_agent(false); Agent b(a); independent(a, b, 2); }
HARNESS(deep_original_independent) { Agent a = any_agent(false); Agent b(a); independent(b, a, 2); }
HARNESS(outlives) { Agent b; { Agent a = any_agent(); b = a; operate(a, pick("op", OPS)); } Look l = look(b); { Agent c(b); operate(c, pick("op", OPS)); } check("unaffected", same_all(look(b), l)); check_envelope(b); }
static void moved(const Agent& b, const Agent& a, const Vector3d& p, const Quaterniond& q) {
  check("position", near(b.get_position(), add(p, rot(q, a.get_position()))));
  for (int i = 0; i < 3; ++i) { Vector3d u(i == 0, i == 1, i == 2); check("orientation", near(rot(b.get_orientation(), u), rot(q, rot(a.get_orientation(), u)))); }
  check("rest-kept", same(b.get_linear_velocity(), a.get_linear_velocity()) && same(b.get_angular_velocity(), a.get_angular_velocity()) && same(b.get_safety_margin(), a.get_safety_margin())); }
HARNESS(transformed) { Agent a = any_agent(); Look l = look(a); Vector3d p = vec("tp", -1000, 1000); Quaterniond q = unit_quat("tq"); Agent b = a.transformed(Pose(p, q)); check("original", same_all(look(a), l)); moved(b, a, p, q); check_envelope(b); }
HARNESS(transform) { Agent a = any_agent(); Agent c(a); Vector3d p = vec("tp", -1000, 1000); Quaterniond q = unit_quat("tq"); a.transform(Pose(p, q)); moved(a, c, p, q); check_envelope(a); }
HARNESS(transformed_independent) { Agent a = any_agent(); Agent b = a.transformed(Pose(vec("tp", -1000, 1000), unit_quat("tq"))); if (boolean("first")) independent(a, b, 1); else independent(b, a, 1); }
