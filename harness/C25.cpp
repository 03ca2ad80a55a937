// BOUNDS: lists of 0..3 (thorough 4; 8 with two free ones) obstacles with every combination of: contains the agent, contains the target, is closed; the list in every rotation and reversed; two (thorough three) of any kinds (aggregate, hull, ellipsoid); end to end with one or two real ellipsoids (agent, target, pose and sizes symbolic) and real aggregates
// REPLACED: in the list entries the inside test and closedness of the obstacles answer symbolically
#include "common.h"
static Obs stubs(int n, const Vector3d& p, const Vector3d& t, bool& blocked) {
  static const char* nm[] = {"a", "b", "c", "d"}; Obs o; blocked = false;
  for (int i = 0; i < n; ++i) { auto s = std::make_shared<Stub>(nm[i]); bool ia = boolean("has_agent"), it = boolean("has_target"); s->closed = boolean("closed"); Vector3d q = p; s->inside = [ia, it, q](const Vector3d& x) { return (x == q) ? ia : it; }; if (s->closed && ia != it) blocked = true; o.push_back(s); }
  return o; }
static void list(int n) { Vector3d p(1, 2, 0.5), t(-3, 4, 1); bool blocked; Obs o = stubs(n, p, t, blocked); Agent a{State(p)}; a.set_linear_velocity(Vector3d(1, -0.5, 0));
  check("path-iff-not-separated", lit(a.exist_path(t, o) == !blocked)); }
static void order(int n) { Vector3d p(1, 2, 0.5), t(-3, 4, 1); bool blocked; Obs o = stubs(n, p, t, blocked); Agent a{State(p)}; bool r = a.exist_path(t, o);
  for (int k = 1; k < n; ++k) { Obs u = o; std::rotate(u.begin(), u.begin() + k, u.end()); check("rotated", lit(a.exist_path(t, u) == r)); } Obs u = o; std::reverse(u.begin(), u.end()); check("reversed", lit(a.exist_path(t, u) == r)); }
HARNESS(none) { Agent a{State(vec("p", -10, 10))}; check("free", lit(a.exist_path(vec("t", -10, 10), Obs()))); }
HARNESS(list_one) { list(1); }
HARNESS(list_two) { list(2); }
HARNESS(list_three) { list(3); }
HARNESS(deep_list_four) { list(4); }
HARNESS(order_two) { order(2); }
HARNESS(order_three) { order(3); }
HARNESS(own_position) { Vector3d p(1, 2, 0.5); Obs o; for (int i = 0; i < 3; ++i) { auto s = std::make_shared<Stub>(i ? i > 1 ? "c" : "b" : "a"); bool in = boolean("in"); s->inside = [in](const Vector3d&) { return in; }; s->closed = boolean("closed"); o.push_back(s); } Agent a{State(p)}; check("always", lit(a.exist_path(p, o))); }
// the answer depends on the position only
HARNESS(position_only) { Vector3d p = vec("p", -5, 5), t = vec("t", -5, 5); Obs o; auto e = std::make_shared<Ellipsoid>("e", State(Vector3d(1, 0, 0), Quaterniond(0.8, 0, 0, 0.6))); e->set_axis_lengths(Array3d(2, 1, 1)); o.push_back(e);
  Agent a{State(p, unit_quat("q"), vec("v", -1, 1), vec("w", -1, 1)), real("m", 0, 2)}, b{State(p)}; check("same", lit(a.exist_path(t, o) == b.exist_path(t, o))); }
static B inside(const Ellipsoid& e, const Vector3d& l) { Array3d x = e.get_axis_lengths() + e.get_safety_margin(); return le(l(0) * l(0) * x(1) * x(1) + l(1) * l(1) * x(0) * x(0), x(0) * x(0) * x(1) * x(1)); }
static B clear(const Ellipsoid& e, const Vector3d& l) { Array3d x = e.get_axis_lengths() + e.get_safety_margin(); return !near(l(0) * l(0) * x(1) * x(1) + l(1) * l(1) * x(0) * x(0), x(0) * x(0) * x(1) * x(1), 1e-6); }
HARNESS(ellipsoid) { auto e = std::make_shared<Ellipsoid>("e", State(vec("c", -5, 5), yaw_quat("q")), arr("om", 0, 1)); e->set_axis_lengths(arr("ax", 0.2, 4)); Vector3d lp = vec("lp", -5, 5), lt_ = vec("lt", -5, 5); assume(clear(*e, lp)); assume(clear(*e, lt_)); Agent a{State(world(*e, lp)), real("m", 0, 2)}; Obs o; o.push_back(e);
  bool r = a.exist_path(world(*e, lt_), o); check("path-iff-same-side", iff(lit(r), iff(inside(*e, lp), inside(*e, lt_)))); }
HARNESS(two_ellipsoids) { auto e = std::make_shared<Ellipsoid>("e", State(Vector3d(0, 0, 0)), real("om", 0, 1)), f = std::make_shared<Ellipsoid>("f", State(Vector3d(real("fx", -3, 3), 0, 0))); f->set_axis_lengths(Array3d(real("ax", 0.5, 2), 1, 1)); Vector3d p = vec("p", -5, 5), t = vec("t", -5, 5);
  Vector3d fp(p(0) - f->get_position()(0), p(1), p(2)), ft(t(0) - f->get_position()(0), t(1), t(2)); assume(clear(*e, p)); assume(clear(*e, t)); assume(clear(*f, fp)); assume(clear(*f, ft)); Agent a{State(p)}; Obs o; o.push_back(e); o.push_back(f); bool r = a.exist_path(t, o);
  check("path-iff-no-separation", iff(lit(r), iff(inside(*e, p), inside(*e, t)) && iff(inside(*f, fp), inside(*f, ft)))); }
// a ring of ellipsoids around the agent is closed, with a wide gap it is not
static Obs ring(int n, int upto) { static const char* nm[] = {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"}; Obs m; for (int i = 0; i < upto; ++i) { double a = 2 * M_PI * i / n; m.push_back(std::make_shared<Ellipsoid>(nm[i], State(Vector3d(3 * std::cos(a), 3 * std::sin(a), 0)))); } return m; }
HARNESS(closed_ring) { auto g = std::make_shared<Aggregate>(ring(10, 10)); Obs o; o.push_back(g); static const Vector3d in[] = {Vector3d(0.1, 0.2, 0), Vector3d(-1, 0.5, 0), Vector3d(2.5, 0, 0)}, out[] = {Vector3d(7, 1, 0), Vector3d(-3, -6, 1), Vector3d(0, 9, 0)};
  bool ai = boolean("agent_in"), ti = boolean("target_in"); Agent a{State(ai ? in[pick("i", 3)] : out[pick("o", 3)]), real("m", 0, 1)}; Vector3d t = ti ? in[pick("j", 3)] : out[pick("k", 3)]; check("closed", lit(g->is_closed())); check("path-iff-same-side", lit(a.exist_path(t, o) == (ai == ti))); }
HARNESS(open_chain) { auto g = std::make_shared<Aggregate>(ring(10, 2)); Obs o; o.push_back(g); static const Vector3d at[] = {Vector3d(0.1, 0.2, 0), Vector3d(-1, 0.5, 0), Vector3d(2.5, 0, 0), Vector3d(7, 1, 0), Vector3d(-3, -6, 1), Vector3d(0, 9, 0)}; Agent a{State(at[pick("a", 6)])}; Vector3d t = at[pick("t", 6)];
  bool sep = g->is_closed() && g->point_is_inside(t) != g->point_is_inside(a.get_position()); check("path-iff-not-separated", lit(a.exist_path(t, o) == !sep)); }
HARNESS(list_eight) { static const char* nm[] = {"a", "b", "c", "d", "e", "f", "g", "h"}; Vector3d p(1, 2, 0.5), t(-3, 4, 1); Obs o; bool blocked = false; int i0 = integer("first", 0, 6), i1 = integer("second", i0 + 1, 7); for (int i = 0; i < 8; ++i) { auto s = std::make_shared<Stub>(nm[i]); bool sp = i == i0 || i == i1, ia = sp ? boolean("has_agent") : i % 2, it = sp ? boolean("has_target") : (i % 2 || i % 3 == 0); s->closed = sp ? boolean("closed") : ia == it; s->inside = [ia, it, p](const Vector3d& x) { return (x == p) ? ia : it; }; if (s->closed && ia != it) blocked = true; o.push_back(s); }
  Agent a{State(p)}; check("path-iff-not-separated", lit(a.exist_path(t, o) == !blocked)); }

// obstacles of every kind, each answering for itself
struct Group : public Aggregate { std::function<bool(const Vector3d&)> in; bool shut = false; bool point_is_inside(const Vector3d& x) const override { return in(x); } bool is_closed() const override { return shut; } };
struct Hull : public StarShapeHull { std::function<bool(const Vector3d&)> in; bool shut = false; Hull() : StarShapeHull(false, 4, 1) {} bool point_is_inside(const Vector3d& x) const override { return in(x); } bool is_closed() const override { return shut; } };
struct Round : public Ellipsoid { std::function<bool(const Vector3d&)> in; bool shut = false; Round() : Ellipsoid("r", State(Vector3d(9, 9, 9))) {} bool point_is_inside(const Vector3d& x) const override { return in(x); } bool is_closed() const override { return shut; } };
template <class T> static void one(Obs& o, const Vector3d& p, bool& blocked) { auto s = std::make_shared<T>(); bool ia = boolean("has_agent"), it = boolean("has_target"); s->shut = boolean("closed"); s->in = [ia, it, p](const Vector3d& x) { return (x == p) ? ia : it; }; if (s->shut && ia != it) blocked = true; o.push_back(s); }
static void kinds(int n) { Vector3d p(1, 2, 0.5), t(-3, 400, 1); Obs o; bool blocked = false; for (int i = 0; i < n; ++i) { int k = pick("kind", 3); if (k == 0) one<Group>(o, p, blocked); else if (k == 1) one<Hull>(o, p, blocked); else one<Round>(o, p, blocked); } Agent a{State(p)}; check("path-iff-not-separated", lit(a.exist_path(t, o) == !blocked)); }
HARNESS(kinds_two) { kinds(2); }
HARNESS(deep_kinds_three) { kinds(3); }
HARNESS(own_kinds) { Obs o; bool blocked = false; Vector3d p(1, 2, 0.5), t(-3, 400, 1); one<Group>(o, p, blocked); one<Round>(o, p, blocked); one<Hull>(o, p, blocked); std::rotate(o.begin(), o.begin() + pick("turn", 3), o.end()); Agent a{State(p)}; check("path-iff-not-separated", lit(a.exist_path(t, o) == !blocked)); }
