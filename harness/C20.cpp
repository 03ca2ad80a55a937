// BOUNDS: no obstacle, or one to three (eight, of which one meets the envelope) obstacles at fixed directions with symbolic distance values in [0,1000]; every agent velocity within [-100,100], repulsion on or off; every combination of which obstacles meet the envelope (by containing its centre, or by a point of their outline); real ellipsoids at distances of 4 to 1000 for the envelope test itself
// REPLACED: normals, distances, repulsion and outline points of the obstacles (stand-ins derived from the real ellipsoid)
#include "common.h"
static const Vector3d AT(1, -2, 0.5), Z(0, 0, 0);
static const Vector3d NRM[3] = {Vector3d(1, 0, 0), Vector3d(0, 1, 0), Vector3d(0, 0, 1)};
static const Vector3d OFF[3] = {Vector3d(1, 0, 0), Vector3d(0, 1, 0), Vector3d(-1, 1, 0)};
struct Thing : public Ellipsoid { Vector3d n, rep; double d = 2; int hit = 0; Vector3d far;
  Thing(const std::string& nm, int k, double dist, int h) : Ellipsoid(nm, State(Vector3d(AT(0) - 50 * OFF[k](0), AT(1) - 50 * OFF[k](1), AT(2)))), n(NRM[k]), rep(0.5, 0.25, -1), d(dist), hit(h) { far = get_position(); }
  using Ellipsoid::compute_distance_to_point;
  Vector3d compute_normal_to_agent(const Agent&) const override { return n; }
  double compute_distance_to_point(const Vector3d&, const Array3d&) const override { return d; }
  Vector3d compute_repulsion_vector(const Agent&) const override { return rep; }
  bool point_is_inside(const Vector3d&) const override { return hit == 1; }
  Eigen::MatrixXd sample_from_parameterization(unsigned int, bool) const override { Eigen::MatrixXd m(3, 2); m.col(0) = far; m.col(1) = hit == 2 ? AT : far; return m; } };
typedef std::vector<std::shared_ptr<Thing>> Things;
static Things things(int n, bool fixed_dist, bool hits) { Things t; static const char* nm[3] = {"a", "b", "c"}; for (int i = 0; i < n; ++i) t.push_back(std::make_shared<Thing>(nm[i], i, fixed_dist ? 1.5 + i : real("d", 0, 1000), hits ? pick("hit", 3) : 0)); return t; }
static Environment world_of(const Things& t) { Environment e(false); for (auto& o : t) e.add_obstacle(o); e.update(); return e; }
static Agent agent(const Vector3d& v) { Agent a{State(AT)}; a.set_linear_velocity(v); return a; }
HARNESS(no_obstacles) { Environment e(boolean("aggregated")); if (boolean("updated")) e.update(); Vector3d v = vec("v", -100, 100); Agent a{State(vec("p", -1000, 1000), unit_quat("q")), real("m", 0, 20)}; a.set_linear_velocity(v);
  bool l = boolean("local"), r = boolean("repulsion"), p = boolean("planar"); check("own-velocity", same(Modulation::modulate_velocity(a, e, l, r, p, real("crit", 0, 3), real("power", 0.5, 3)), v)); }
static void local(int n, const Vector3d& v, bool fixed_dist) {
  Things t = things(n, fixed_dist, true); Environment e = world_of(t); Agent a = agent(v); bool rep = boolean("repulsion"); bool any = false; for (auto& o : t) any = any || o->hit;
  Vector3d out = Modulation::modulate_velocity(a, e, true, rep);
  if (any) check("as-global", near(out, Modulation::modulate_velocity(a, e, false, rep))); else check("unchanged", same(out, v));
}
HARNESS(local_one) { local(1, vec2("v", -100, 100), false); }
HARNESS(local_two) { local(2, Vector3d(real("v", -100, 100), 0, 0), false); }
HARNESS(local_three) { local(3, Vector3d(0, real("v", -100, 100), 0), true); }
HARNESS(local_at_rest) { local(2, Z, false); }
struct Snap { std::vector<Vector3d> p, r, l, w; std::vector<Quaterniond> q; std::vector<Array3d> a; };
static Snap snap(const Things& t) { Snap s; for (auto& o : t) { s.p.push_back(o->get_position()); s.r.push_back(o->get_reference_position()); s.l.push_back(o->get_linear_velocity()); s.w.push_back(o->get_angular_velocity()); s.q.push_back(o->get_orientation()); s.a.push_back(o->get_axis_lengths()); } return s; }
static void twice(int n, const Vector3d& v, bool fixed_dist) {
  Things t = things(n, fixed_dist, false); for (auto& o : t) { o->set_linear_velocity(Vector3d(0.5, 0, 0)); o->set_reference_position(add(o->get_position(), Vector3d(0.25, 0, 0))); }
  Environment e = world_of(t); Agent a{State(AT, Quaterniond(0.8, 0, 0, 0.6)), 0.25}; a.set_linear_velocity(v); bool rep = boolean("repulsion"); Snap s = snap(t); Obs l = e.get_obstacle_list();
  Vector3d o1 = Modulation::modulate_velocity(a, e, false, rep); Snap u = snap(t);
  bool ok = true; (void)ok; for (int i = 0; i < n; ++i) { check("obstacles-untouched", same(s.p[i], u.p[i]) && same(s.r[i], u.r[i]) && same(s.l[i], u.l[i]) && same(s.w[i], u.w[i]) && same(s.q[i], u.q[i]) && same(s.a[i](0), u.a[i](0)) && same(s.a[i](1), u.a[i](1)) && same(s.a[i](2), u.a[i](2))); }
  check("list-untouched", lit(e.get_obstacle_list() == l));
  check("agent-untouched", same(a.get_position(), AT) && same(a.get_linear_velocity(), v) && same(a.get_angular_velocity(), Z) && same(a.get_orientation(), Quaterniond(0.8, 0, 0, 0.6)) && same(a.get_safety_margin(), 0.25));
  Vector3d o2 = Modulation::modulate_velocity(a, e, false, rep); check("repeatable", same(o1, o2));
}
HARNESS(twice_one) { twice(1, vec2("v", -100, 100), false); }
HARNESS(twice_two) { twice(2, Vector3d(real("v", -100, 100), 0, 0), false); }
// the real envelope and a real obstacle far along a line: nothing in sight
static void far_away(const Vector3d& v, double dx, double dy) {
  auto o = std::make_shared<Ellipsoid>("o", State(add(AT, Vector3d(dx, dy, 0)))); o->set_axis_lengths(Array3d(1, 0.5, 1)); Environment e; e.add_obstacle(o); e.update(); Agent a = agent(v);
  check("out-of-sight", same(Modulation::modulate_velocity(a, e, true), v));
}
HARNESS(out_of_sight_ahead) { far_away(Vector3d(real("v", 0.1, 100), 0, 0), real("d", 4, 1000), 0); }
HARNESS(out_of_sight_behind) { far_away(Vector3d(real("v", 0.1, 100), 0, 0), -real("d", 4, 1000), 0); }
HARNESS(out_of_sight_beside) { far_away(Vector3d(0, 0, real("v", -100, 100)), 0, real("d", 4, 1000)); }
HARNESS(in_sight) { auto o = std::make_shared<Ellipsoid>("o", State(add(AT, Vector3d(real("d", 0.3, 1.4), 0, 0)))); Environment e; e.add_obstacle(o); e.update(); Agent a = agent(Vector3d(real("v", 0.1, 100), 0, 0));
  check("in-sight-as-global", near(Modulation::modulate_velocity(a, e, true), Modulation::modulate_velocity(a, e))); }
static void local_many(int n, const Vector3d& v) { static const char* nm[] = {"a", "b", "c", "d", "e", "f", "g", "h"}; int who = integer("who", -1, n - 1), how = 1 + boolean("outline"); Environment e(false); for (int i = 0; i < n; ++i) e.add_obstacle(std::make_shared<Thing>(nm[i], i % 3, 1.5 + i, i == who ? how : 0)); e.update(); Agent a = agent(v); bool rep = boolean("repulsion");
  Vector3d out = Modulation::modulate_velocity(a, e, true, rep); if (who >= 0) check("as-global", near(out, Modulation::modulate_velocity(a, e, false, rep))); else check("unchanged", same(out, v)); }
HARNESS(local_eight) { local_many(8, Vector3d(real("v", -100, 100), 0, 0)); }
