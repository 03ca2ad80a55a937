// BOUNDS: ellipsoids with any pose about the vertical, half-axes, margins, reference point and curvature factor 1 or 2, two of them with an agent each, asked in the order first, second, first; one or two changes through any setter between two questions; hulls and aggregates with symbolic centre; modulation with one or two obstacles and every flag except planar mode; helpers on any arguments
// ASSUMES: planar mode (which moves reference points by design, see C07) and the random number helper are outside this property
// REPLACED: in the hull entries the members' inside test and crossing points
#include "common.h"
typedef std::shared_ptr<Ellipsoid> E;
static E any(const std::string& n, bool curved = false, double yaw = 2, bool fixed = false) { E e = std::make_shared<Ellipsoid>("e", State(vec(n + "c", -100, 100), yaw == 2 ? yaw_quat(n + "q") : Quaterniond(0.8, 0, 0, 0.6), vec(n + "v", -5, 5), vec(n + "w", -5, 5)), vec(n + "r", -100, 100), fixed ? Array3d(0.25, 0, 0.5) : arr(n + "m", 0, 20)); if (fixed) e->set_axis_lengths(Array3d(real(n + "a", 0.01, 50), 1, 1.5)); else e->set_axis_lengths(arr(n + "a", 0.01, 50)); if (curved) e->set_curvature_factor(Array3d(2, 1, 1)); return e; }
struct Fields { Vector3d p, l, w, r; Quaterniond q; Array3d a, c, m; std::string n, t; };
static Fields fields(const Ellipsoid& e) { Fields f; f.p = e.get_position(); f.l = e.get_linear_velocity(); f.w = e.get_angular_velocity(); f.r = e.get_reference_position(); f.q = e.get_orientation(); f.a = e.get_axis_lengths(); f.c = e.get_curvature_factor(); f.m = e.get_safety_margin(); f.n = e.get_name(); f.t = e.get_type(); return f; }
static B eq3(const Array3d& a, const Array3d& b) { return same(a(0), b(0)) && same(a(1), b(1)) && same(a(2), b(2)); }
static B unchanged(const Fields& a, const Fields& b) { return same(a.p, b.p) && same(a.l, b.l) && same(a.w, b.w) && same(a.r, b.r) && same(a.q, b.q) && eq3(a.a, b.a) && eq3(a.c, b.c) && eq3(a.m, b.m) && lit(a.n == b.n && a.t == b.t); }
// one question with everything it answers
typedef std::vector<double> Answer;
static void put(Answer& a, const Vector3d& v) { a.push_back(v(0)); a.push_back(v(1)); a.push_back(v(2)); }
enum { KINDS = 10 };
static Answer ask(int k, Ellipsoid& e, const Agent& g, const Vector3d& x, double t) { const Obstacle& o = e; Answer a;
  if (k == 0) { a.push_back(o.compute_distance_to_point(x, Array3d(t, 0.5, 0.25))); a.push_back(o.compute_distance_to_point(x, t)); }
  else if (k == 1) a.push_back(o.compute_distance_to_agent(g));
  else if (k == 2) put(a, o.compute_normal_to_agent(g));
  else if (k == 3) a.push_back(o.point_is_inside(x));
  else if (k == 4) { auto r = e.compute_interesection_points(x, g.get_position()); a.push_back(r.first); if (r.first) { put(a, r.second.first); put(a, r.second.second); } }
  else if (k == 5) { put(a, o.compute_repulsion_vector(g)); a.push_back(o.get_repulsion_factor(g, t)); }
  else if (k == 6) put(a, o.generate_repulsion(g, 1 + t));
  else if (k == 7) { a.push_back(e.area(true)); a.push_back(e.area(false)); }
  else if (k == 8) { auto m = o.sample_from_parameterization(3, true); for (int i = 0; i < 3; ++i) put(a, m.col(i)); auto n = o.sample_from_parameterization(4, false); for (int i = 0; i < 4; ++i) put(a, n.col(i)); a.push_back(o.is_closed()); }
  else { auto m = Modulation::compute_basis_matrices(Vector3d(0.6, 0, 0.8), g, o); for (int i = 0; i < 3; ++i) { put(a, m.first.col(i)); put(a, m.second.col(i)); } }
  return a; }
static B agree(const Answer& a, const Answer& b, double tol = 0) { B r = lit(a.size() == b.size()); for (size_t i = 0; i < a.size() && i < b.size(); ++i) r = r && (tol == 0 ? same(a[i], b[i]) : near(a[i], b[i], tol)); return r; }
static double margin(const char* n, int k) { return k == 5 || k == 6 ? 0.5 : real(n, 0, 20); }
static bool plainly(int k) { return k == 2 || k == 4 || k == 5 || k == 6 || k == 8 || k == 9; }
static Vector3d off(const Ellipsoid& e, const char* n, int k) { return plainly(k) ? world(e, Vector3d(real(std::string(n) + "l", 0.1, 100), n[0] == 'p' ? 2 : -1, n[0] == 'x' ? 3 : 0.5)) : vec(n, -100, 100); }
static void tie(Ellipsoid& e) { e.set_reference_position(world(e, Vector3d(0.0625, 0.25, 0))); }
static void twice(int k, bool curved) { E e = any("e", curved, plainly(k) ? 1 : 2, k == 5 || k == 6), o = any("o", false, plainly(k) ? 1 : 2, k == 5 || k == 6); Agent a{State(off(*e, "p", k)), margin("am", k)}, b{State(off(*o, "s", k)), margin("bm", k)}; Vector3d x = off(*e, "x", k), y = off(*o, "y", k); double t = real("t", 0, 9), u = real("u", 0, 9);
  if (k == 5 || k == 6 || k == 9) { tie(*e); tie(*o); } Fields f = fields(*e); Vector3d p = a.get_position(); Answer first = ask(k, *e, a, x, t); check("fields", unchanged(f, fields(*e))); ask(k, *o, b, y, u); Answer again = ask(k, *e, a, x, t); check("same-answer", agree(first, again));
  ask(k, *e, b, y, u); check("same-answer-after-another-agent", agree(first, ask(k, *e, a, x, t))); check("fields", unchanged(f, fields(*e))); check("agent", same(p, a.get_position())); }
HARNESS(distance) { twice(0, false); }
HARNESS(distance_curved) { twice(0, true); }
HARNESS(agent_distance) { twice(1, false); }
HARNESS(normal) { twice(2, false); }
HARNESS(normal_curved) { twice(2, true); }
HARNESS(inside) { twice(3, false); }
HARNESS(intersection) { twice(4, false); }
HARNESS(repulsion) { twice(5, false); }
HARNESS(generated_repulsion) { twice(6, false); }
HARNESS(area) { twice(7, false); }
HARNESS(samples) { twice(8, false); }
HARNESS(bases) { twice(9, false); }
// answers after a change are those of an obstacle freshly built with the present fields
static void change(Ellipsoid& e, int k, const std::string& n, bool plain) {
  if (k == 0) e.set_position(vec(n, -100, 100)); else if (k == 1) e.set_axis_lengths(arr(n, 0.01, 50)); else if (k == 2) e.set_reference_position(vec(n, -100, 100)); else if (k == 3) e.set_orientation(plain ? Quaterniond(0.6, 0, 0, 0.8) : yaw_quat(n));
  else if (k == 4) e.set_pose(Pose(vec(n, -100, 100), plain ? Quaterniond(0.6, 0, 0, 0.8) : yaw_quat(n + "q"))); else if (k == 5) e.set_curvature_factor(Array3d(1, 2, 1)); else if (k == 6) e.set_linear_velocity(vec(n, -5, 5)); else if (k == 7) e.set_angular_velocity(vec(n, -5, 5)); else { double x = real(n, -100, 100); e.set_position(x, 1, 2); } }
static void changed(int k, int changes) { bool plain = plainly(k) || changes == 2; E e = any("e", false, plain ? 1 : 2, k == 5 || k == 6); Agent a{State(off(*e, "p", k)), margin("am", k)}, b{State(off(*e, "s", k)), margin("bm", k)}; Vector3d x = changes == 2 ? off(*e, "x", 4) : off(*e, "x", k); double t = real("t", 0, 9); if (k == 9) tie(*e); if (boolean("asked_before")) ask(k, *e, b, x, t);
  for (int i = 0; i < changes; ++i) { change(*e, pick(i ? "second" : "first", 9), i ? "g" : "f", plain); if (i == 0 && changes == 2) ask(k, *e, a, x, t); }
  Fields f = fields(*e); Ellipsoid fresh("e", State(f.p, Quaterniond(1, 0, 0, 0), f.l, f.w), f.r, f.m); fresh.set_orientation(f.q); fresh.set_axis_lengths(f.a); fresh.set_curvature_factor(f.c); Ellipsoid copy(*e);
  if (k == 5 || k == 6) assume(gt(fresh.compute_distance_to_agent(a), 0.01)); Answer now = ask(k, *e, a, x, t); Answer g = ask(k, fresh, a, x, t), h = ask(k, copy, a, x, t); check("like-new", agree(now, g, 1e-6)); check("copy", agree(now, h, 1e-6)); }
HARNESS(changed_distance) { changed(0, 1); }
HARNESS(changed_agent_distance) { changed(1, 1); }
HARNESS(changed_normal) { changed(2, 1); }
HARNESS(changed_inside) { changed(3, 1); }
HARNESS(changed_intersection) { changed(4, 1); }
HARNESS(changed_repulsion) { changed(5, 1); }
HARNESS(changed_generated_repulsion) { changed(6, 1); }
HARNESS(changed_area) { changed(7, 1); }
HARNESS(changed_samples) { changed(8, 1); }
HARNESS(changed_twice_distance) { changed(0, 2); }
HARNESS(deep_changed_twice_inside) { changed(3, 2); }
HARNESS(deep_changed_twice_normal) { changed(2, 2); }
HARNESS(deep_changed_twice_intersection) { changed(4, 2); }
HARNESS(deep_changed_bases) { changed(9, 1); }

// hulls and aggregates
struct Member : public Ellipsoid { double lo, hi; bool any; Member(const std::string& n, const Vector3d& at, double l, double h) : Ellipsoid(n, State(at)), lo(l), hi(h), any(false) {}
  bool point_is_inside(const Vector3d&) const override { return any; }
  std::pair<bool, std::pair<Vector3d, Vector3d>> compute_interesection_points(const Vector3d& a, const Vector3d& b) override { Vector3d d(b(0) - a(0), b(1) - a(1), b(2) - a(2)); double t = lo * (1 + 0.2 * d(0)), u = hi * (1 - 0.1 * d(1)); return {true, {Vector3d(a(0) + t * d(0), a(1) + t * d(1), a(2)), Vector3d(a(0) + u * d(0), a(1) + u * d(1), a(2))}}; } };
static Obs ring(const std::string& n, double k) { Vector3d c(3, -2, 0); if (n != "") c = Vector3d(real(n + ".x", -20, 20), real(n + ".y", -20, 20), 0); return {std::make_shared<Member>("a", c, k, 2 * k), std::make_shared<Member>("b", add(c, Vector3d(1, 0.5, 0)), 1.25 * k, 2.5 * k)}; }
static Answer ask(const Obstacle& o, const Agent& g) { Answer a; a.push_back(o.point_is_inside(g.get_position())); a.push_back(o.compute_distance_to_agent(g)); a.push_back(o.compute_distance_to_point(g.get_position(), 0.25)); put(a, o.compute_normal_to_agent(g)); put(a, o.compute_repulsion_vector(g)); a.push_back(o.is_closed()); return a; }
static Vector3d round(const Vector3d& c, double az, const std::string& n) { double h = real(n, 0.01, 100); return add(c, Vector3d(h * std::cos(az), h * std::sin(az), 0)); }
HARNESS(aggregates) { Aggregate g(ring("c", 1)), f(ring("", 1.5)); Agent a{State(round(g.get_position(), 0.4, "h")), 0.5}, b{State(round(f.get_position(), pick("where", 2) ? -3.1 : 0.41, "k")), 0.25}; Vector3d r = g.get_reference_position(); Answer x = ask(g, a); ask(f, b); Answer y = ask(g, a); check("same-answer", agree(x, y)); Agent k{State(round(g.get_position(), -3.1, "l")), 0.75}; ask(g, k); check("same-answer-after-another-agent", agree(x, ask(g, a)));
  check("fields", same(r, g.get_reference_position()) && same(r, g.get_position())); Obs o = g.get_primitives(); check("members", lit(o.size() == 2 && o[0]->get_name() == "a" && o[1]->get_name() == "b") && same(o[0]->get_reference_position(), r) && same(o[1]->get_reference_position(), r)); }
static Answer ask_hull(const StarShapeHull& o, const Agent& g) { Answer a; a.push_back(o.point_is_inside(g.get_position())); a.push_back(o.compute_distance_to_agent(g)); put(a, o.compute_normal_to_agent(g)); a.push_back(o.is_closed()); return a; }
HARNESS(hulls) { bool inner = boolean("inner"); Obs p = ring("c", 1), q = ring("d", 1.5); Vector3d c = p[0]->get_position(), d = q[0]->get_position(); StarShapeHull u(inner, 12), w(inner, 12), used(inner, 12); u.compute_from_primitives(p, c); w.compute_from_primitives(q, d); used.compute_from_primitives(q, d);
  Agent a{State(round(c, pick("where", 2) ? -3.1 : 0.41, "h")), 0.5}, b{State(round(d, 0.4, "k")), 0.25}; Answer x = ask_hull(u, a); ask_hull(w, b); check("same-answer", agree(x, ask_hull(u, a))); ask_hull(used, b); used.compute_from_primitives(p, c); check("computed-again", agree(x, ask_hull(used, a))); }
// the modulation
static std::shared_ptr<Environment> scene(const std::string& n, int k, Vector3d& o) { o = Vector3d(0.5, -3, 0); auto e = std::make_shared<Environment>(false); static const Vector3d at[] = {Vector3d(0, 0, 0), Vector3d(6, 1, 0)}; static const char* nm[] = {"a", "b"}; for (int i = 0; i < k; ++i) { auto x = std::make_shared<Ellipsoid>(nm[i], State(add(o, at[i]), i ? Quaterniond(0.8, 0, 0, 0.6) : Quaterniond(1, 0, 0, 0)), 0.25); x->set_axis_lengths(n == "e" ? Array3d(1 + i, 1, 1) : Array3d(1, 1, 1 + i)); x->set_linear_velocity(Vector3d(0.5, 0.25, 0)); e->add_obstacle(x); } e->update(); return e; }
static void modulated(int k, bool local) { Vector3d o, q; auto e = scene("e", k, o), f = scene("f", k, q); Agent a{State(add(o, Vector3d(2, 2, 0))), 0.25}, b{State(add(q, Vector3d(2, -2, 0.5))), 0.25}; a.set_linear_velocity(Vector3d(-1, k == 1 ? real("v", -50, 50) : 4 * pick("v", 4) - 6.5, 0.5)); b.set_linear_velocity(Vector3d(1, -2, -0.5)); bool rep = boolean("repulsion"); double critical = k == 1 || pick("critical", 2) ? 1 : 3, power = 2;
  Vector3d x = Modulation::modulate_velocity(a, *e, local, rep, false, critical, power); Modulation::modulate_velocity(b, *f, false, true, false, 1, 2); check("same-answer", same(x, Modulation::modulate_velocity(a, *e, local, rep, false, critical, power))); Modulation::modulate_velocity(b, *e, false, true, false, 1, 2); check("same-answer-after-another-agent", same(x, Modulation::modulate_velocity(a, *e, local, rep, false, critical, power))); }
HARNESS(modulated_one) { modulated(1, false); }
HARNESS(modulated_local) { modulated(1, true); }
HARNESS(modulated_two) { modulated(2, false); }
// parts of the modulation and helpers
static Answer all(const Eigen::ArrayXd& w) { Answer a; for (int i = 0; i < w.size(); ++i) a.push_back(w(i)); return a; }
HARNESS(weights) { Eigen::ArrayXd d(3), f(3); for (int i = 0; i < 3; ++i) { d(i) = real("d", 0, 100); f(i) = real("f", 0, 100); } double c = real("c", 0, 10), k = real("k", 0, 10); for (int i = 0; i < 3; ++i) assume(!near(d(i), c, 1e-6) && !near(f(i), k, 1e-6)); Answer x = all(Modulation::weight_obstacles(d, c, 2)); Modulation::weight_obstacles(f, k, 3); check("same-answer", agree(x, all(Modulation::weight_obstacles(d, c, 2)))); }
HARNESS(strength) { double d = real("d", 0, 1000), f = real("f", 0, 1000); int r = integer("reactivity", 1, 3), s = integer("other", 1, 3); Vector3d x = Modulation::compute_diagonal_eigenvalues(d, r).diagonal(); Modulation::compute_diagonal_eigenvalues(f, s); Vector3d y = Modulation::compute_diagonal_eigenvalues(d, r).diagonal(); check("same-answer", same(x, y)); }
HARNESS(defaults) { double d = real("d", 0, 1000), f = real("f", 0, 1000); int s = integer("other", 1, 3); Modulation::compute_diagonal_eigenvalues(f, s); check("same-answer", same(Vector3d(Modulation::compute_diagonal_eigenvalues(d).diagonal()), Vector3d(Modulation::compute_diagonal_eigenvalues(d, 1).diagonal())));
  Eigen::ArrayXd w(2); w(0) = real("x", 1.1, 9); w(1) = real("y", 1.1, 9); Answer before = all(Modulation::weight_obstacles(w, 1, 2)); Modulation::weight_obstacles(w, 3, 5); check("same-weights", agree(all(Modulation::weight_obstacles(w, 1, 2)), before)); }
HARNESS(relative) { auto one = [](const std::string& n, Answer& a, const Agent& g, const Obs& o, const Eigen::ArrayXd& d, const Eigen::ArrayXd& w) { std::deque<Matrix3d> b(o.size(), Matrix3d::Identity()); auto r = Modulation::compute_relative_velocities(g, o, d, w, b); put(a, r.first); put(a, r.second); };
  Obs o{any("e", false, 1), any("o", false, 1)}, p{any("p", false, 1)}; Agent a{State(vec("a", -9, 9))}, b{State(vec("b", -9, 9))}; Eigen::ArrayXd d(2), w(2), f(1), u(1); for (int i = 0; i < 2; ++i) { d(i) = real("d", 0, 9); w(i) = real("w", 0, 1); } f(0) = real("f", 0, 9); u(0) = real("u", 0, 1); Answer x, y, z; one("a", x, a, o, d, w); one("b", y, b, p, f, u); one("a", z, a, o, d, w); check("same-answer", agree(x, z)); }
HARNESS(helpers) { int n = integer("n", 2, 4), m = integer("m", 2, 4); double s = real("s", -9, 9), e = real("e", -9, 9); Answer x = MathTools::linspace(s, e, n); MathTools::linspace(real("t", -9, 9), real("u", -9, 9), m); check("interval", agree(x, MathTools::linspace(s, e, n)));
  auto g = MathTools::gridspace({s, 1}, {e, 2}, {n, 2}); MathTools::gridspace({0, s}, {4, 9}, {2, m}); auto h = MathTools::gridspace({s, 1}, {e, 2}, {n, 2}); check("grid", lit(g.size() == h.size())); for (size_t i = 0; i < g.size() && i < h.size(); ++i) check("grid", same(g[i](0), h[i](0)) && same(g[i](1), h[i](1))); }
HARNESS(polar) { Vector3d p = vec("p", -9, 9), q = vec("q", -9, 9); assume(gt(sqn(p), 0.01)); assume(gt(sqn(q), 0.01)); Vector3d x = MathTools::cartesian_to_polar(p); MathTools::cartesian_to_polar(q); check("polar", same(x, MathTools::cartesian_to_polar(p))); Vector3d y = MathTools::polar_to_cartesian(p); MathTools::polar_to_cartesian(q); check("cartesian", same(y, MathTools::polar_to_cartesian(p))); }
HARNESS(lookup) { int n = integer("n", 1, 3); Eigen::MatrixXd A(3, n), C(3, 2); for (int i = 0; i < n; ++i) A.col(i) = Vector3d(real("r", 0, 9), 0, i); for (int i = 0; i < 2; ++i) C.col(i) = Vector3d(1, 0, 3 * i - 1); Vector3d p(1, 0, real("p", -1, 9)), q(1, 0, real("q", -1, 9)); auto x = MathTools::find_closest_points(A, p, 2); MathTools::find_closest_points(C, q, 2); auto y = MathTools::find_closest_points(A, p, 2); check("same-answer", lit(x == y)); }
// agents
struct Box : public Ellipsoid { bool any = false, shut = true; using Ellipsoid::Ellipsoid; bool point_is_inside(const Vector3d& p) const override { return Ellipsoid::point_is_inside(p); } bool is_closed() const override { return shut; } };
HARNESS(paths) { Vector3d c = vec("c", -9, 9); auto e = std::make_shared<Ellipsoid>("e", State(c)), o = std::make_shared<Ellipsoid>("o", State(add(c, Vector3d(1.5, 0, 0)))); e->set_axis_lengths(Array3d(2, 1, 1)); Agent a{State(add(c, Vector3d(real("p", -9, 9), 0.25, 0)))}, b{State(add(c, Vector3d(real("q", -9, 9), 0.25, 0)))}; Vector3d t = add(c, Vector3d(real("t", -9, 9), 0, 0)); Obs l{e, o}, k{o}; bool x = a.exist_path(t, l); b.exist_path(c, k); check("same-answer", lit(x == a.exist_path(t, l))); }
HARNESS(in_obstacle) { Vector3d c = vec("c", -9, 9); Ellipsoid e("e", State(c)), o("o", State(add(c, Vector3d(5, 0, 0)))); Agent a{State(add(c, Vector3d(real("p", -9, 9), 0.25, 0))), 0.5}, b{State(add(c, Vector3d(0, 0.25, 0))), 0.25}; bool x = a.in_obstacle(e); b.in_obstacle(pick("which", 2) ? e : o); check("same-answer", lit(x == a.in_obstacle(e))); }
