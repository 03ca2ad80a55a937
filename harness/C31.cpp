// BOUNDS: in the vertical plane: upright obstacles turned by any angle; in the horizontal plane: every rotation about the vertical or (for the recorded marks) any orientation, position within [-10,10]^3, half-axes in [0.1,5], margins in [0,2], the curve at all 100 drawn points; hulls of seven directions around round primitives, aggregates of one to three of those, at any position; lists of one to eight obstacles
// REPLACED: matplotlibcpp by a recorder of the calls
#include "common.h"
#include "DynamicObstacleAvoidance/Utils/Plotting/matplotlibcpp.hpp"
#include "DynamicObstacleAvoidance/Utils/Plotting/PlottingTools.hpp"
typedef matplotlibcpp::Record Rec;
static std::vector<Rec>& recs() { return matplotlibcpp::records(); }
static bool is_line(const Rec& r, const std::string& suffix) { return r.kind == "plot" && r.s.size() > suffix.size() && r.s.substr(r.s.size() - suffix.size()) == suffix && (suffix != "-" || r.s[r.s.size() - 2] != '-'); }
static const Rec* only(const std::string& suffix) { const Rec* f = 0; for (auto& r : recs()) if (is_line(r, suffix)) { if (f) return 0; f = &r; } return f; }
static void around(const char* label, const Rec* r, const Ellipsoid& e, double A, double Bx) {
  Quaterniond o = e.get_orientation(); double w = o.w(), z = o.z(), C = w * w - z * z, S = 2 * w * z; Vector3d p = e.get_position(); size_t n = r->x.size(); check("many-points", lit(n >= 16 && n == r->y.size())); if (n < 16) return;
  double X0 = 0, Y0 = 0, X = 0, Y = 0, turn = 0; B ok = yes(); double qx[4] = {0, 0, 0, 0}; (void)qx;
  for (size_t i = 0; i < n; ++i) { double dx = r->x[i] - p(0), dy = r->y[i] - p(1), x = (C * dx + S * dy) / A, y = (C * dy - S * dx) / Bx; check(label, near(x * x + y * y, 1)); if (i) { double c = X * x + Y * y, s = X * y - Y * x; check("no-gaps", ge(c, 0.9)); if (i > 1) check("one-way-round", ge(s * turn, 0)); turn = s; } else { X0 = x; Y0 = y; } X = x; Y = y; }
  check("closed", near(X, X0) && near(Y, Y0)); (void)ok; }
static void outline(const Quaterniond& q, bool sized) { Ellipsoid e("", State(vec("p", -10, 10), q), sized ? arr("m", 0, 2) : Array3d(0.5, 0.25, 0)); e.set_axis_lengths(sized ? arr("a", 0.1, 5) : Array3d(2, 1, 1)); e.set_reference_position(vec("r", -10, 10)); const Obstacle& o = e; recs().clear(); o.draw("g", "xy");
  const Rec *solid = only("-"), *dash = only("--"); check("one-solid-one-dashed", lit(solid && dash)); if (!solid || !dash) return; check("colour", lit(solid->s == "g-" && dash->s == "g--"));
  Array3d a = e.get_axis_lengths(), s = a + e.get_safety_margin(); around("on-surface", solid, e, a(0), a(1)); around("on-margin", dash, e, s(0), s(1)); }
HARNESS(outline_level) { outline(Quaterniond(1, 0, 0, 0), true); }
HARNESS(outline_turned) { outline(yaw_quat("q"), false); }
HARNESS(outline_quarter) { outline(Quaterniond(0.8, 0, 0, -0.6), true); }
// the vertical plane: the section spanned by the first and the third axis
static void around_xz(const char* label, const Rec* r, const Vector3d& p, double cosyaw, double A, double C) {
  size_t n = r->x.size(); check("many-points", lit(n >= 16 && n == r->y.size())); if (n < 16) return; double X0 = 0, Z0 = 0, X = 0, Z = 0, turn = 0;
  for (size_t i = 0; i < n; ++i) { double x = (r->x[i] - p(0)) / A, z = (r->y[i] - p(2)) / C; check(label, near(x * x + cosyaw * cosyaw * z * z, cosyaw * cosyaw)); if (i) { double c = X * x + cosyaw * cosyaw * Z * z, s = (X * z - Z * x) * cosyaw; check("no-gaps", ge(c, 0.9 * cosyaw * cosyaw)); if (i > 1) check("one-way-round", ge(s * turn, 0)); turn = s; } else { X0 = x; Z0 = z; } X = x; Z = z; }
  check("closed", near(X, X0) && near(Z, Z0)); }
static void outline_xz(bool turned) { Quaterniond q = turned ? yaw_quat("q") : Quaterniond(1, 0, 0, 0); Ellipsoid e("", State(vec("p", -10, 10), q), turned ? Array3d(0.5, 0.25, 1) : arr("m", 0, 2)); e.set_axis_lengths(turned ? Array3d(2, 1, 3) : arr("a", 0.1, 5)); e.set_reference_position(vec("r", -10, 10)); const Obstacle& o = e; recs().clear(); o.draw("g", "xz");
  const Rec *solid = only("-"), *dash = only("--"); check("one-solid-one-dashed", lit(solid && dash)); if (!solid || !dash) return; check("colour", lit(solid->s == "g-" && dash->s == "g--")); double c = turned ? 1 - 2 * q.z() * q.z() : 1;
  Array3d a = e.get_axis_lengths(), s = a + e.get_safety_margin(); around_xz("on-surface", solid, e.get_position(), c, a(0), a(2)); around_xz("on-margin", dash, e.get_position(), c, s(0), s(2)); }
HARNESS(outline_xz_level) { outline_xz(false); }
HARNESS(outline_xz_turned) { outline_xz(true); }
static void marks(const Ellipsoid& e, bool side = false) { const Obstacle& o = e; recs().clear(); o.draw("r", side ? "xz" : "xy"); Vector3d p = e.get_position(), r = e.get_reference_position(); if (side) { p(1) = p(2); r(1) = r(2); } bool named = !e.get_name().empty(); int refs = 0, places = 0;
  for (auto& k : recs()) { if (k.kind == "plot" && k.s == "rx" && k.x.size() == 1) { ++refs; check("reference-point", near(k.x[0], r(0)) && near(k.y[0], r(1))); } if (named ? k.kind == "text" : k.kind == "plot" && k.s == "ro") { ++places; check("position", near(k.x[0], p(0)) && near(k.y[0], p(1))); if (named) check("name", lit(k.s == e.get_name())); } }
  check("marked-once", lit(refs == 1 && places == 1)); }
HARNESS(marks_named) { Ellipsoid e("obstacle", State(vec("p", -10, 10), unit_quat("q")), 0.5); if (boolean("ref")) e.set_reference_position(vec("r", -10, 10)); marks(e); }
HARNESS(marks_unnamed) { Ellipsoid e("", State(vec("p", -10, 10), yaw_quat("q")), real("m", 0, 2)); e.set_reference_position(vec("r", -10, 10)); marks(e); }
HARNESS(marks_side) { Ellipsoid e(boolean("named") ? "obstacle" : "", State(vec("p", -10, 10), yaw_quat("q")), real("m", 0, 2)); if (boolean("ref")) e.set_reference_position(vec("r", -10, 10)); marks(e, true); }
// drawing changes nothing
HARNESS(unchanged) { Ellipsoid e("", State(vec("p", -10, 10), yaw_quat("q")), real("m", 0, 2)); e.set_axis_lengths(arr("a", 0.1, 5)); Vector3d p = e.get_position(), r = e.get_reference_position(); Array3d a = e.get_axis_lengths(); recs().clear(); e.draw("r", "xy"); check("same", same(p, e.get_position()) && same(r, e.get_reference_position()) && same(a(0), e.get_axis_lengths()(0)) && same(a(1), e.get_axis_lengths()(1))); }
// lists: every obstacle drawn once, agent and trajectory where they are
struct Pen : public Stub { mutable std::vector<std::string> c, a; Pen(const std::string& n) : Stub(n) {} void draw(const std::string& color, const std::string& axis) const override { c.push_back(color); a.push_back(axis); } };
HARNESS(configuration) { int n = integer("n", 0, 8); Obs o; std::vector<std::shared_ptr<Pen>> ps; static const char* nm[] = {"a", "b", "c", "d", "e", "f", "g", "h"}; for (int i = 0; i < n; ++i) { ps.push_back(std::make_shared<Pen>(nm[i])); o.push_back(ps.back()); } recs().clear();
  Agent a{State(vec("p", -10, 10))}; Vector3d goal = vec("g", -10, 10); std::deque<Vector3d> h{vec("h", -10, 10), vec("i", -10, 10)}; PlottingTools::plot_configuration(a, o, goal, h, "", false);
  for (auto& p : ps) check("drawn-once", lit(p->c.size() == 1 && p->a[0] == "xy" && p->c[0].size() == 1));
  int agents = 0, goals = 0, tracks = 0; for (auto& k : recs()) if (k.kind == "plot") { if (k.x.size() == 1 && k.s.back() == 'o') { ++agents; check("agent", same(k.x[0], a.get_position()(0)) && same(k.y[0], a.get_position()(1))); } else if (k.x.size() == 1) { ++goals; check("goal", same(k.x[0], goal(0)) && same(k.y[0], goal(1))); } else if (k.x.size() == 2) { ++tracks; check("trajectory", same(k.x[0], h[0](0)) && same(k.y[0], h[0](1)) && same(k.x[1], h[1](0)) && same(k.y[1], h[1](1))); } }
  check("all-there", lit(agents == 1 && goals == 1 && tracks == 1)); }
HARNESS(list_xz) { Obs o; auto p = std::make_shared<Pen>("a"); o.push_back(p); PlottingTools::plot_obstacles(o, "xz"); check("axis-passed", lit(p->a.size() == 1 && p->a[0] == "xz")); }
// hulls of round primitives, and aggregates of them
struct Round : public Ellipsoid { double lo, hi; mutable std::vector<std::string> c, a; Round(const std::string& n, const Vector3d& at, double l, double h) : Ellipsoid(n, State(at)), lo(l), hi(h) {} bool point_is_inside(const Vector3d&) const override { return false; }
  void draw(const std::string& color, const std::string& axis) const override { c.push_back(color); a.push_back(axis); }
  std::pair<bool, std::pair<Vector3d, Vector3d>> compute_interesection_points(const Vector3d& a, const Vector3d& b) override { Vector3d d(b(0) - a(0), b(1) - a(1), b(2) - a(2)); return {true, {Vector3d(a(0) + lo * d(0), a(1) + lo * d(1), a(2) + lo * d(2)), Vector3d(a(0) + hi * d(0), a(1) + hi * d(1), a(2) + hi * d(2))}}; } };
static void circle(const Rec& k, const Vector3d& c, double R, bool side) { size_t n = k.x.size(); check("one-point-per-direction", lit(n == k.y.size() && n >= 3)); if (n != k.y.size() || n < 3) return; double X = 0, Y = 0; for (size_t i = 0; i < n; ++i) { double x = k.x[i] - c(0); if (side) { check("level", near(k.y[i], c(2))); check("within", le(x * x, R * R * (1 + 1e-6))); } else { double y = k.y[i] - c(1); check("on-hull", near(x * x + y * y, R * R)); if (i) check("one-way-round", ge(X * y - Y * x, 0)); X = x; Y = y; } } }
HARNESS(hull) { bool side = boolean("side"), in = boolean("inner"), empty = boolean("empty"), named = boolean("named"); Vector3d c = vec("c", -10, 10); double lo = real("lo", 0.6, 3), hi = lo + real("more", 0, 3); StarShapeHull h(in, 7, 0.5); Obs o; if (!empty) o.push_back(std::make_shared<Round>("a", c, lo, hi)); if (named) h.set_name("hull"); h.compute_from_primitives(o, c); recs().clear(); const Obstacle& b = h; b.draw("m", side ? "xz" : "xy"); int v = side ? 2 : 1; double R = empty ? 0.5 : in ? lo : hi;
  int curves = 0, refs = 0, places = 0; for (auto& k : recs()) { if (k.kind == "plot" && k.x.size() > 1) { ++curves; check("points", lit(k.x.size() == 7)); circle(k, c, R, side); check("colour", lit(k.s[0] == 'm')); } else if (k.kind == "plot" && k.s == "mx") { ++refs; check("reference-point", near(k.x[0], c(0)) && near(k.y[0], c(v))); } else { ++places; check("position", near(k.x[0], c(0)) && near(k.y[0], c(v))); check("kind-of-mark", lit(named ? k.kind == "text" && k.s == "hull" : k.kind == "plot" && k.s == "mo")); } } check("drawn-once", lit(curves == 1 && refs == 1 && places == 1)); }
HARNESS(aggregate) { bool side = boolean("side"); int n = integer("n", 1, 3); static const char* nm[] = {"a", "b", "c"}; Vector3d c = vec("c", -10, 10); double lo = real("lo", 0.6, 3), hi = lo + real("more", 0.1, 3); Obs o; std::vector<std::shared_ptr<Round>> m; for (int i = 0; i < n; ++i) { m.push_back(std::make_shared<Round>(nm[i], c, lo, hi)); o.push_back(m[i]); } Aggregate g(o); recs().clear(); const Obstacle& b = g; std::string ax = side ? "xz" : "xy"; b.draw("m", ax); int v = side ? 2 : 1;
  for (auto& x : m) check("members-once", lit(x->c.size() == 1 && x->a[0] == ax && x->c[0] == "m")); int inner = 0, outer = 0, marks = 0; for (auto& k : recs()) { if (k.kind == "plot" && k.x.size() > 1) { bool big = (outer == 0); if (big) ++outer; else ++inner; for (size_t i = 0; i < k.x.size(); i += 61) { double x = k.x[i] - c(0), y = k.y[i] - c(v), R = big ? hi : lo; if (side) check("level", near(y, 0)); else check("on-hull", near(x * x + y * y, R * R)); } } else { if (k.kind == "plot" && k.s == "bx") ++marks; check("marks", near(k.x[0], c(0)) && near(k.y[0], c(v))); } } check("both-hulls", lit(inner == 1 && outer == 1 && marks == 1)); }
