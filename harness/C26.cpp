// BOUNDS: agents with margin in [0,20] anywhere within [-5,5]; stand-in ellipsoid with symbolic centre, two to four symbolic outline points and a symbolic inside test; aggregates of up to three (seven, six of them out of reach) such stand-ins, nested aggregates; real ellipsoids with symbolic size, pose, margins, agent position
// REPLACED: in the stand-in entries the outline sampling and inside test of the obstacle
#include "common.h"
struct Sym : public Ellipsoid { bool holds = false; std::vector<Vector3d> pts; Sym(const std::string& n, const Vector3d& c) : Ellipsoid(n, State(c)) {}
  bool point_is_inside(const Vector3d& p) const override { return holds; }
  Eigen::MatrixXd sample_from_parameterization(unsigned int, bool) const override { Eigen::MatrixXd m(3, pts.size()); for (size_t i = 0; i < pts.size(); ++i) m.col(i) = pts[i]; return m; } };
static double radius(double m) { return truth(lt(m, 0.1)) ? 0.1 : m; }
static B disc(const Vector3d& p, const Vector3d& c, double r) { double x = p(0) - c(0), y = p(1) - c(1); return le(x * x + y * y, r * r); }
static void off(const Vector3d& p, const Vector3d& c, double r) { double x = p(0) - c(0), y = p(1) - c(1); assume(!near(x * x + y * y, r * r, 1e-6)); }
static std::shared_ptr<Sym> sym(const char* nm, int k, const Vector3d& p, double r, B& want) { auto s = std::make_shared<Sym>(nm, vec("c", -5, 5)); off(s->get_position(), p, r); s->holds = boolean("holds"); want = want || lit(s->holds) || disc(s->get_position(), p, r);
  for (int i = 0; i < k; ++i) { s->pts.push_back(vec("s", -5, 5)); off(s->pts[i], p, r); want = want || disc(s->pts[i], p, r); } return s; }
static void standin(int k) { Vector3d p = vec("p", -5, 5); double m = real("m", 0, 20), r = radius(m); Agent a{State(p, unit_quat("q"), vec("v", -100, 100), Vector3d(0, 0, 0)), m}; B want = no(); auto s = sym("s", k, p, r, want); check("disc-meets-obstacle", iff(lit(a.in_obstacle(*s)), want)); }
HARNESS(standin_one_point) { standin(1); }
HARNESS(standin_three_points) { standin(3); }
HARNESS(at_rest) { Vector3d p = vec("p", -5, 5); double m = real("m", -1, 20), r = radius(m); Agent a{State(p), m}; B want = no(); auto s = sym("s", 4, p, r, want); check("disc-meets-obstacle", iff(lit(a.in_obstacle(*s)), want)); }
static void group(int n, int k) { static const char* nm[] = {"a", "b", "c"}; Vector3d p(0.5, -1, 0); double m = real("m", 0.1, 20); Agent a{State(p), m}; B want = no(); Aggregate g; for (int i = 0; i < n; ++i) g.add_primitive(sym(nm[i], k, p, m, want), false); check("disc-meets-a-member", iff(lit(a.in_obstacle(g)), want)); }
HARNESS(empty_aggregate) { Aggregate g; Agent a{State(vec("p", -5, 5)), real("m", 0, 20)}; check("never", lit(!a.in_obstacle(g))); }
HARNESS(aggregate_one) { group(1, 2); }
HARNESS(aggregate_two) { group(2, 1); }
HARNESS(aggregate_three) { group(3, 1); }
HARNESS(nested) { Vector3d p(0.5, -1, 0); double m = real("m", 0.1, 20); Agent a{State(p), m}; B want = no(); auto in = std::make_shared<Aggregate>(); in->add_primitive(sym("a", 1, p, m, want), false); Aggregate g; g.add_primitive(in, false); g.add_primitive(sym("b", 1, p, m, want), false); check("disc-meets-a-member", iff(lit(a.in_obstacle(g)), want)); }
// real ellipsoids
HARNESS(inside_outline) { Ellipsoid e("e", State(vec("c", -5, 5), yaw_quat("q")), arr("om", 0, 20)); Array3d ax = arr("ax", 0.05, 50); e.set_axis_lengths(ax); Vector3d l = vec("l", -100, 100); Array3d x = ax + e.get_safety_margin(); assume(le(l(0) * l(0) * x(1) * x(1) + l(1) * l(1) * x(0) * x(0), 0.999999 * x(0) * x(0) * x(1) * x(1))); Agent a{State(world(e, l)), real("m", 0, 20)}; check("in", lit(a.in_obstacle(e))); }
HARNESS(on_centre) { Ellipsoid e("e", State(vec("c", -5, 5), yaw_quat("q")), arr("om", 0, 20)); e.set_axis_lengths(arr("ax", 0.05, 50)); Agent a{State(e.get_position(), unit_quat("aq"), vec("v", -100, 100), Vector3d(0, 0, 0)), real("m", 0, 20)}; check("in", lit(a.in_obstacle(e))); }
static void away(bool yaw, double ux, double uy) { Ellipsoid e("e", State(vec("c", -5, 5), yaw ? Quaterniond(0.8, 0, 0, 0.6) : Quaterniond(1, 0, 0, 0)), real("om", 0, 20)); e.set_axis_lengths(Array3d(2, 0.5, 1)); double m = real("m", 0, 20), r = radius(m), R = 2 + e.get_safety_margin()(0); double d = real("d", 0, 1000); assume(gt(d, R + r + 0.001));
  Vector3d p = add(e.get_position(), Vector3d(d * ux, d * uy, real("h", -1, 1))); Agent a{State(p), m}; check("out", lit(!a.in_obstacle(e))); }
HARNESS(farther_than_radius_x) { away(false, 1, 0); }
HARNESS(farther_than_radius_y) { away(false, 0, -1); }
HARNESS(farther_than_radius_slanted) { away(true, -0.6, 0.8); }
static void tip(double back) { Ellipsoid e("e", State(vec("c", -5, 5)), real("om", 0, 20)); e.set_axis_lengths(Array3d(real("ax", 0.2, 50), 0.5, 1)); double m = real("m", 0.1, 20), R = e.get_axis_lengths(0) + e.get_safety_margin()(0), g = real("gap", 0, 2); assume(le(g, m - 0.001)); Agent a{State(add(e.get_position(), Vector3d(R + g, 0, 0))), m}; check("in", lit(a.in_obstacle(e))); }
HARNESS(within_radius_of_tip) { tip(0); }
HARNESS(aggregate_seven) { static const char* nm[] = {"a", "b", "c", "d", "e", "f", "g"}; Vector3d p(0.5, -1, 0); double m = real("m", 0.1, 2); Agent a{State(p), m}; B want = no(); Aggregate g; int who = integer("who", 0, 6); for (int i = 0; i < 7; ++i) { std::shared_ptr<Sym> s; if (i == who) s = sym(nm[i], 1, p, m, want); else { s = std::make_shared<Sym>(nm[i], Vector3d(4 + i, 5, 0)); s->pts.push_back(Vector3d(4 + i, 4, 0)); } g.add_primitive(s, false); } check("disc-meets-a-member", iff(lit(a.in_obstacle(g)), want)); }
