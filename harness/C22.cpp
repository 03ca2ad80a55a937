// BOUNDS: one obstacle (stand-in with symbolic distance, or a real ellipsoid / aggregate of one or two ellipsoids, or of one to three members answering the inside test freely), agent anywhere within [-20,20], every threshold in [0.1,5]; modulation with one to three obstacles, distances symbolic, repulsion vectors symbolic; with seven, any subset of them near
// REPLACED: in the modulation entries the distances, normals and repulsion vectors of the obstacles; in the aggregate entries the members' geometry (symbolic answers)
#include "common.h"
static Vector3d sc(double s, const Vector3d& a) { return Vector3d(s * a(0), s * a(1), s * a(2)); }
static Vector3d diff(const Vector3d& a, const Vector3d& b) { return Vector3d(a(0) - b(0), a(1) - b(1), a(2) - b(2)); }
static const Vector3d Z(0, 0, 0);
HARNESS(threshold) { Stub s("s"); s.dist = real("d", -2, 1000); s.repulsion = vec("r", -5, 5); double t = real("t", 0.1, 5); Agent a{State(vec("p", -20, 20)), real("m", 0, 20)};
  Vector3d r = s.generate_repulsion(a, t); if (truth(lt(s.dist, t))) check("acts-when-near", same(r, s.repulsion)); else check("nothing-when-far", same(r, Z)); }
HARNESS(default_threshold) { Stub s("s"); s.dist = real("d", -2, 1000); s.repulsion = vec("r", -5, 5); Agent a{State(vec("p", -20, 20))}; Vector3d r = s.generate_repulsion(a); check("threshold-1.1", (lt(s.dist, 1.1) && same(r, s.repulsion)) || (ge(s.dist, 1.1) && same(r, Z))); }
// the real ellipsoid, seen in its own frame
static void ellipsoid(bool yaw, bool own_ref, bool scaled) {
  Quaterniond q = yaw ? yaw_quat("q") : unit_quat("q"); Vector3d c = vec("c", -10, 10); Ellipsoid e("e", State(c, q), real("om", 0, 20)); Vector3d ax(1, 1, 1);
  if (scaled) { ax = Vector3d(real("ax", 0.2, 50), real("ay", 0.2, 50), real("az", 0.2, 50)); e.set_axis_lengths(Array3d(ax(0), ax(1), ax(2))); }
  Vector3d l = vec("l", -10, 10); assume(gt(sqn(l), 0.0001)); Vector3d ref = own_ref ? add(c, rot(q, vec("r", -1, 1))) : c; if (own_ref) e.set_reference_position(ref);
  Agent a{State(world(e, l)), real("m", 0, 20)}; double om = e.get_safety_margin()(0), m = a.get_safety_margin(); double d = 0; for (int i = 0; i < 3; ++i) { double L = ax(i) + om + m; d = d + l(i) * l(i) / (L * L); }
  Vector3d want = sc(2 / d, diff(a.get_position(), ref)); check("vector", near(e.compute_repulsion_vector(a), want));
  double t = real("t", 0.1, 5); Vector3d g = e.generate_repulsion(a, t); if (truth(lt(d, t))) check("acts-when-near", near(g, want)); else check("nothing-when-far", near(g, Z));
}
HARNESS(ellipsoid_level) { ellipsoid(true, false, true); }
HARNESS(ellipsoid_tilted) { ellipsoid(false, false, false); }
HARNESS(ellipsoid_reference) { ellipsoid(true, true, true); }
// an aggregate whose members answer as told
HARNESS(aggregate) {
  auto a1 = std::make_shared<Ellipsoid>("a", State(Vector3d(0, 0, 0))), a2 = std::make_shared<Ellipsoid>("b", State(Vector3d(1.5, 0, 0))); Obs o; o.push_back(a1); o.push_back(a2); Aggregate g(o); const Obstacle& go = g;
  static const Vector3d at[] = {Vector3d(0.2, 0.1, 0), Vector3d(4, 1, 0), Vector3d(0.75, -3, 0.5), Vector3d(1.6, 0.5, 0), Vector3d(-7, 2, 1)};
  Agent a{State(at[pick("at", 5)]), real("m", 0, 20)}; bool in = g.point_is_inside(a.get_position()); double d = go.compute_distance_to_agent(a); assume(gt(d, 0.001));
  Vector3d want = sc((in ? -20 : 20) / d, diff(a.get_position(), g.get_reference_position())); check("vector", near(g.compute_repulsion_vector(a), want, 1e-6));
  Vector3d r = g.generate_repulsion(a, 1.1); if (truth(lt(d, 1.1))) check("acts-when-near", near(r, want, 1e-6)); else check("nothing-when-far", same(r, Z)); }
// modulation with and without repulsion
struct Thing : public Ellipsoid { Vector3d n{1, 0, 0}, rep{0, 0, 0}; double d = 2; Thing(const std::string& nm, const Vector3d& nrm, double dist) : Ellipsoid(nm, State(diff(Vector3d(1, -2, 0.5), sc(50, nrm)))), n(nrm), d(dist) {}
  using Ellipsoid::compute_distance_to_point; Vector3d compute_normal_to_agent(const Agent&) const override { return n; } double compute_distance_to_point(const Vector3d&, const Array3d&) const override { return d; } Vector3d compute_repulsion_vector(const Agent&) const override { return rep; } };
static void shift(int n, const Vector3d& v, bool symbolic_rep) {
  static const Vector3d nr[] = {Vector3d(1, 0, 0), Vector3d(0, 1, 0), Vector3d(-0.6, 0.8, 0)}; static const char* nm[] = {"a", "b", "c"}; Environment e(false); Vector3d sum(0, 0, 0); Agent a{State(Vector3d(1, -2, 0.5))}; a.set_linear_velocity(v);
  for (int i = 0; i < n; ++i) { auto t = std::make_shared<Thing>(nm[i], nr[i], real("d", 0, 1000)); t->rep = symbolic_rep ? vec("r", -5, 5) : Vector3d(0.5 + i, -1, 0.25); e.add_obstacle(t); if (truth(lt(t->d, 1.1))) sum = add(sum, t->rep); } e.update();
  assume(le(sqn(sum), 0) || ge(sqn(sum), 1.1e-8)); // (shifts of at most 1e-4 are ignored by design)
  check("shifted", near(Modulation::modulate_velocity(a, e, false, true), add(Modulation::modulate_velocity(a, e), sum), 1e-6));
}
HARNESS(shift_one) { shift(1, vec2("v", -100, 100), true); }
HARNESS(shift_two) { shift(2, Vector3d(real("v", -100, 100), 0.5, 0), false); }
HARNESS(shift_three) { shift(3, Vector3d(-1, 0.5, 0), true); }
HARNESS(shift_at_rest) { shift(2, Z, true); }
HARNESS(shift_seven) { static const Vector3d nr[] = {Vector3d(1, 0, 0), Vector3d(0, 1, 0), Vector3d(-0.6, 0.8, 0)}; static const char* nm[] = {"a", "b", "c", "d", "e", "f", "g"}; Environment e(false); Vector3d sum(0, 0, 0); Agent a{State(Vector3d(1, -2, 0.5))}; a.set_linear_velocity(Vector3d(-1, 0.5, 0));
  for (int i = 0; i < 7; ++i) { bool near_it = boolean("near"); auto t = std::make_shared<Thing>(nm[i], nr[i % 3], near_it ? 1.05 : 1.2 + i); t->rep = Vector3d(real("r", 0.5, 5), 1 + i, 0.25); e.add_obstacle(t); if (near_it) sum = add(sum, t->rep); } e.update();
  bool local = boolean("local"); check("shifted", near(Modulation::modulate_velocity(a, e, local, true), local ? Vector3d(-1, 0.5, 0) : add(Modulation::modulate_velocity(a, e), sum), 1e-6)); }
// members that answer the inside test freely: a member can contain the agent beyond the star-shaped hull
struct Member : public Ellipsoid { bool any = false; double r; Member(const std::string& n, const Vector3d& at, double rad) : Ellipsoid(n, State(at)), r(rad) {} bool point_is_inside(const Vector3d&) const override { return any; }
  std::pair<bool, std::pair<Vector3d, Vector3d>> compute_interesection_points(const Vector3d& a, const Vector3d& b) override { Vector3d d(b(0) - a(0), b(1) - a(1), b(2) - a(2)); double t = r * (1 + 0.2 * d(0)), u = 2 * t; return {true, {Vector3d(a(0) + t * d(0), a(1) + t * d(1), a(2)), Vector3d(a(0) + u * d(0), a(1) + u * d(1), a(2))}}; } };
HARNESS(aggregate_members) { int n = integer("n", 1, 3); static const char* nm[] = {"a", "b", "c"}; static const Vector3d at[] = {Vector3d(1, 0.5, 0), Vector3d(-0.5, 1, 0), Vector3d(0, -1, 0)}, dir[] = {Vector3d(1, 0, 0), Vector3d(-0.6, 0.8, 0), Vector3d(0, -1, 0), Vector3d(-0.8, -0.6, 0)}; Obs o; std::vector<std::shared_ptr<Member>> m; for (int i = 0; i < n; ++i) { m.push_back(std::make_shared<Member>(nm[i], at[i], 1.5 + 0.25 * i)); o.push_back(m[i]); }
  Aggregate g(o); StarShapeHull out(false); out.compute_from_primitives(g.get_primitives(), g.get_reference_position()); double h = real("h", 0.05, 1000); int k = integer("dir", 0, 3); Vector3d p = add(g.get_reference_position(), sc(h, dir[k])); bool in = out.point_is_inside(p); for (auto& x : m) { x->any = boolean("member_has_it"); in = in || x->any; }
  Agent a{State(p), real("m", 0, 20)}; const Obstacle& go = g; double d = go.compute_distance_to_agent(a); Vector3d want = sc((in ? -20 : 20) / d, sc(h, dir[k])); check("vector", near(g.compute_repulsion_vector(a), want, 1e-6));
  Vector3d r = g.generate_repulsion(a, 1.1); if (truth(lt(d, 1.1))) check("acts-when-near", near(r, want, 1e-6)); else check("nothing-when-far", same(r, Z)); }
