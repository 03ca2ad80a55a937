// BOUNDS: environments of two or three obstacles, aggregated or not; between two updates every obstacle may move (position and reference point, any place within [-20,20]), one may be resized, removed, replaced or added, aggregation switched, and every intersection relation may turn into every other; real circles coming together, drifting apart and growing at symbolic distances, with the modulated velocity of an agent
// ASSUMES: an obstacle that is moved is given its reference point again, as set_position leaves it where it was
// REPLACED: in the stand-in entries the pairwise intersection test (one symbolic truth value per pair and update) and the crossing points with a ray (two radii depending on the direction and the size)
#include "common.h"
static std::map<std::string, bool> rel; static int epoch;
static bool related(const std::string& a, const std::string& b) { std::string k = std::to_string(epoch) + (a < b ? a + b : b + a); auto it = rel.find(k); if (it == rel.end()) it = rel.insert({k, boolean("rel-" + k)}).first; return it->second; }
struct Node : public Ellipsoid { using Ellipsoid::Ellipsoid;
  bool is_intersecting_ellipsoid(const Ellipsoid& o) const override { return related(get_name(), o.get_name()); }
  bool point_is_inside(const Vector3d&) const override { return false; }
  std::pair<bool, std::pair<Vector3d, Vector3d>> compute_interesection_points(const Vector3d& a, const Vector3d& b) override { Vector3d d(b(0) - a(0), b(1) - a(1), 0); double s = get_axis_lengths(0), t = s * (2 + 0.2 * d(0)), u = s * (1 - 0.1 * d(1));
    return {true, {Vector3d(a(0) + t * d(0), a(1) + t * d(1), a(2)), Vector3d(a(0) + u * d(0), a(1) + u * d(1), a(2))}}; } };
typedef std::vector<std::shared_ptr<Node>> Ns;
static Vector3d place(const std::string& n) { return Vector3d(real(n + ".x", -20, 20), real(n + ".y", -20, 20), 0); }
static std::shared_ptr<Node> node(const std::string& n, const Vector3d& p) { auto o = std::make_shared<Node>(n, State(p)); o->set_reference_position(add(p, Vector3d(0.125, 0.25, 0))); return o; }
static std::shared_ptr<Node> copy(const Node& o) { auto c = std::make_shared<Node>(o.get_name(), State(o.get_position(), Quaterniond(1, 0, 0, 0), o.get_linear_velocity(), o.get_angular_velocity()), o.get_reference_position(), o.get_safety_margin()); c->set_axis_lengths(o.get_axis_lengths()); return c; }
static void compare(Environment& e, const std::map<std::string, std::shared_ptr<Node>>& reg, bool answers) { std::map<std::string, std::shared_ptr<Node>> cp; Environment f(e.is_aggregated()); for (auto& r : reg) { cp[r.first] = copy(*r.second); } e.update(); for (auto& r : cp) f.add_obstacle(r.second); f.update();
  Obs x = e.get_obstacle_list(), y = f.get_obstacle_list(); check("count", lit(x.size() == y.size())); if (x.size() != y.size()) return;
  for (size_t i = 0; i < x.size(); ++i) { check("name", lit(x[i]->get_name() == y[i]->get_name() && x[i]->get_type() == y[i]->get_type())); check("position", near(x[i]->get_position(), y[i]->get_position())); check("reference", near(x[i]->get_reference_position(), y[i]->get_reference_position()));
    if (answers) { Agent a{State(add(x[i]->get_position(), Vector3d(2, 1.5, 0))), 0.25}, b{State(add(y[i]->get_position(), Vector3d(2, 1.5, 0))), 0.25}; check("inside", lit(x[i]->point_is_inside(a.get_position()) == y[i]->point_is_inside(b.get_position()))); check("distance", near(x[i]->compute_distance_to_agent(a), y[i]->compute_distance_to_agent(b))); check("normal", near(x[i]->compute_normal_to_agent(a), y[i]->compute_normal_to_agent(b))); } }
  for (auto& r : reg) { check("member-reference", near(r.second->get_reference_position(), cp[r.first]->get_reference_position())); check("member-position", near(r.second->get_position(), cp[r.first]->get_position())); } }
static void move(Node& o, const Vector3d& p) { o.set_position(p); o.set_reference_position(add(p, Vector3d(-0.25, 0.125, 0))); }
static const char* NM[] = {"a", "b", "c"}; static const Vector3d AT[] = {Vector3d(1, 2, 0), Vector3d(-3, 0.5, 0), Vector3d(0, -4, 0)};
static void history(int n, int op, bool agg, bool answers, int times = 1) { rel.clear(); epoch = 0; Environment e(agg); std::map<std::string, std::shared_ptr<Node>> reg; for (int i = 0; i < n; ++i) { reg[NM[i]] = node(NM[i], AT[i]); e.add_obstacle(reg[NM[i]]); } e.update(); if (answers && !e.get_obstacle_list().empty()) { Agent g{State(Vector3d(2, 9, 0))}; for (auto& o : e.get_obstacle_list()) { o->compute_distance_to_agent(g); o->compute_normal_to_agent(g); } }
  for (int t = 0; t < times; ++t) { ++epoch; std::string u = t ? "second" : "first";
    if (op == 0) { for (auto& r : reg) move(*r.second, place(u + r.first)); }
    else if (op == 1) { int k = pick(u, n); move(*reg[NM[k]], place(u)); }
    else if (op == 2) { int k = pick(u, n); reg[NM[k]]->set_axis_lengths(Array3d(1.5 + pick(u + "s", 3), 1, 1)); }
    else if (op == 3) { std::string k = NM[pick(u, n)]; if (reg.count(k)) { e.remove_obstacle(k); reg.erase(k); } }
    else if (op == 4) { std::string k = NM[pick(u, n)]; e.remove_obstacle(k); reg[k] = node(k, place(u)); e.add_obstacle(reg[k]); }
    else if (op == 5) { std::string k = t ? "aa" : "d"; reg[k] = node(k, place(u)); e.add_obstacle(reg[k]); }
    else e.set_aggregated(!e.is_aggregated());
    if (op != 6 && boolean("early" + u)) e.update();
    compare(e, reg, answers); } }
HARNESS(all_move) { history(2, 0, true, false); }
HARNESS(all_move_three) { history(3, 0, true, false); }
HARNESS(all_move_answers) { history(2, 0, true, true); }
HARNESS(one_moves_answers) { history(2, 1, true, true); }
HARNESS(one_moves_twice) { history(2, 1, true, false, 2); }
HARNESS(resized) { history(2, 2, true, true); }
HARNESS(removed) { history(3, 3, true, false, 2); }
HARNESS(replaced) { history(2, 4, true, false); }
HARNESS(added) { history(2, 5, true, false); }
HARNESS(added_plain) { history(2, 5, false, true, 2); }
HARNESS(deep_added_twice) { history(2, 5, true, false, 2); }
HARNESS(deep_one_of_three_moves) { history(3, 1, true, true); }
HARNESS(switched) { history(3, 6, true, false, 2); }
HARNESS(switched_on) { history(3, 6, false, false, 1); }
HARNESS(plain_moves) { history(3, 0, false, true); }
HARNESS(plain_resized) { history(3, 2, false, true); }
HARNESS(plain_replaced) { history(3, 4, false, true, 2); }
// real circles and the modulated velocity
typedef std::shared_ptr<Ellipsoid> E;
static E circle(const std::string& n, double x, double r) { auto e = std::make_shared<Ellipsoid>(n, State(x, 0.25, 0), 0.125); e->set_axis_lengths(Array3d(r, r, r)); return e; }
static void drift(const Ellipsoid& now, Environment& e, Ellipsoid& a, Ellipsoid& b, size_t want) { e.update(); check("count", lit(e.get_obstacle_list().size() == want)); Environment f; auto ca = std::make_shared<Ellipsoid>(a), cb = std::make_shared<Ellipsoid>(b); f.add_obstacle(ca); f.add_obstacle(cb); f.update();
  Agent g{State(-3.5, 1.5, 0), 0.25}; g.set_linear_velocity(Vector3d(1, -0.25, 0)); bool rep = boolean("repulsion"); check("velocity", near(Modulation::modulate_velocity(g, e, false, rep), Modulation::modulate_velocity(g, f, false, rep), 1e-6)); }
static void shift(Ellipsoid& b, double x) { b.set_position(x, 0.25, 0); b.set_reference_position(b.get_position()); }
HARNESS(coming_together) { auto a = circle("a", 0, 1), b = circle("b", 8, 1); Environment e; e.add_obstacle(a); e.add_obstacle(b); e.update(); check("apart", lit(e.get_obstacle_list().size() == 2)); shift(*b, 0.25 + 0.5 * pick("x", 3)); drift(*b, e, *a, *b, 1); }
HARNESS(drifting_apart) { auto a = circle("a", 0, 1), b = circle("b", 0.5, 1); Environment e; e.add_obstacle(a); e.add_obstacle(b); e.update(); check("together", lit(e.get_obstacle_list().size() == 1)); shift(*b, real("x", 4, 20)); drift(*b, e, *a, *b, 2); }
HARNESS(growing) { auto a = circle("a", 0, 1), b = circle("b", 3, 1); Environment e; e.add_obstacle(a); e.add_obstacle(b); e.update(); check("apart", lit(e.get_obstacle_list().size() == 2)); double r = 3.25 + 0.25 * pick("r", 3); b->set_axis_lengths(Array3d(r, r, r)); drift(*b, e, *a, *b, 1); }
// a plain list shows the obstacles as they are even before the next update
HARNESS(moved_without_update) { auto a = circle("a", 0, 1), b = circle("b", 8, 1); Environment e(false); e.add_obstacle(a); e.add_obstacle(b); e.update(); Agent g{State(-3.5, 1.5, 0), 0.25}; g.set_linear_velocity(Vector3d(1, -0.25, 0)); Modulation::modulate_velocity(g, e); shift(*b, real("x", 2, 20)); a->set_linear_velocity(Vector3d(0.5, 0, 0));
  Environment f(false); f.add_obstacle(std::make_shared<Ellipsoid>(*a)); f.add_obstacle(std::make_shared<Ellipsoid>(*b)); f.update(); check("velocity", near(Modulation::modulate_velocity(g, e), Modulation::modulate_velocity(g, f), 1e-6)); }
// an obstacle that has left its group
HARNESS(left_group) { auto a = circle("a", 0, 1), b = circle("b", 0.25 + 0.25 * pick("d", 4), 1); Vector3d own = a->get_reference_position(); Environment e; e.add_obstacle(a); e.add_obstacle(b); e.update(); check("together", lit(e.get_obstacle_list().size() == 1)); shift(*b, 8); e.update(); check("apart", lit(e.get_obstacle_list().size() == 2)); check("own-reference-point", near(a->get_reference_position(), own)); }
