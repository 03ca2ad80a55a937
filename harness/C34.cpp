// BOUNDS: 0 to 8 (and 12, 13, 20, 40, 130) obstacles, two agents anywhere, trajectories of 0 to 3 arbitrary points and of 20, 101, 300 and 1100 points along any line, every combination of display options; file names as given
// REPLACED: matplotlibcpp by a recorder of the calls
#include "common.h"
#include "DynamicObstacleAvoidance/Utils/Plotting/matplotlibcpp.hpp"
#include "DynamicObstacleAvoidance/Utils/Plotting/PlottingTools.hpp"
typedef matplotlibcpp::Record Rec;
static std::vector<Rec>& recs() { return matplotlibcpp::records(); }
// an obstacle whose drawing is a record of its own
struct Pen : public Stub { Pen(const std::string& n) : Stub(n) {} void draw(const std::string& color, const std::string& axis) const override { matplotlibcpp::rec("obstacle", get_name() + " " + axis + " " + color, {}, {}); } };
static const char* NM[] = {"a", "b", "c", "d", "e", "f", "g", "h"};
static std::string nm(int i) { return i < 8 ? std::string(NM[i]) : "o" + std::to_string(i); }
static Obs pens(int n) { Obs o; for (int i = 0; i < n; ++i) o.push_back(std::make_shared<Pen>(nm(i))); return o; }
static std::deque<Vector3d> track(int n) { std::deque<Vector3d> h; static const char* nm[] = {"h", "i", "j"}; for (int i = 0; i < n; ++i) h.push_back(vec(nm[i], -10, 10)); return h; }
// the records split at subplot calls
struct Panel { std::vector<Rec> r; };
static std::vector<Panel> panels() { std::vector<Panel> p(1); for (auto& k : recs()) { if (k.kind == "subplot") p.push_back(Panel()); p.back().r.push_back(k); } return p; }
static int count(const std::string& kind) { int n = 0; for (auto& k : recs()) if (k.kind == kind) ++n; return n; }
static void obstacles_in(const Panel& p, int n, const std::string& axis) { std::vector<std::string> names; bool ok = true; for (auto& k : p.r) if (k.kind == "obstacle") { size_t a = k.s.find(' '), b = k.s.find(' ', a + 1); names.push_back(k.s.substr(0, a)); if (k.s.substr(a + 1, b - a - 1) != axis || k.s.size() != b + 2) ok = false; }
  check("obstacles-once-in-order", lit((int)names.size() == n)); for (int i = 0; i < n && i < (int)names.size(); ++i) if (names[i] != nm(i)) ok = false; check("obstacle-plane-and-colour", lit(ok)); }
static void dots_in(const Panel& p, const std::vector<const Agent*>& as, const Vector3d* goal, const std::deque<Vector3d>& h, int v) {
  size_t a = 0; int goals = 0, tracks = 0; for (auto& k : p.r) { if (k.kind != "plot") continue;
    if (k.x.size() == 1 && k.s.size() == 2 && k.s[1] == 'o') { if (a < as.size()) { check("agent-where-it-is", same(k.x[0], as[a]->get_position()(0)) && same(k.y[0], as[a]->get_position()(v))); check("agent-colour", lit(k.s[0] == (a ? 'g' : 'b'))); } ++a; }
    else if (goal && k.s == "rx") { ++goals; check("goal-where-it-is", same(k.x[0], (*goal)(0)) && same(k.y[0], (*goal)(v))); }
    else { ++tracks; check("track-length", lit(k.x.size() == h.size() && k.y.size() == h.size())); for (size_t i = 0; i < h.size() && i < k.x.size() && i < k.y.size(); ++i) check("track-points", same(k.x[i], h[i](0)) && same(k.y[i], h[i](v))); } }
  check("everything-once", lit(a == as.size() && goals == (goal ? 1 : 0) && tracks == (goal ? 1 : 0))); }
// the figure is opened first and closed last, saved under the given name and shown only when asked
static void frame(const std::string& file, bool shown) { bool opened = !recs().empty() && recs().front().kind == "figure" && count("figure") == 1, closed = !recs().empty() && recs().back().kind == "close" && count("close") == 1; check("opened-and-closed", lit(opened && closed));
  check("shown-if-asked", lit(count("show") == (shown ? 1 : 0))); int saves = 0; bool right = true; for (auto& k : recs()) if (k.kind == "save") { ++saves; if (k.s != "/tmp/" + file + ".png") right = false; } check("saved-if-named", lit(right && saves == (file.empty() ? 0 : 1))); }
struct Opt { std::string file; bool show, three; int n; };
static Opt options() { Opt o; o.file = boolean("named") ? "scene" : ""; o.show = boolean("show"); o.three = boolean("three"); o.n = integer("n", 0, 8); recs().clear(); return o; }
HARNESS(scene) { Opt o = options(); Agent a{State(vec("p", -20, 20))}; Vector3d g = vec("g", -20, 20); auto h = track(integer("t", 0, 3)); PlottingTools::plot_configuration(a, pens(o.n), g, h, o.file, o.show, o.three); frame(o.file, o.show); auto p = panels();
  check("panels", lit(p.size() == (o.three ? 3u : 1u))); if (p.size() != (o.three ? 3u : 1u)) return;
  if (o.three) { obstacles_in(p[1], o.n, "xy"); dots_in(p[1], {&a}, &g, h, 1); obstacles_in(p[2], o.n, "xz"); dots_in(p[2], {&a}, &g, h, 2); } else { obstacles_in(p[0], o.n, "xy"); dots_in(p[0], {&a}, &g, h, 1); } }
HARNESS(obstacles_only) { Opt o = options(); PlottingTools::plot_configuration(pens(o.n), o.file, o.show, o.three); frame(o.file, o.show); auto p = panels(); check("panels", lit(p.size() == (o.three ? 3u : 1u))); if (p.size() != (o.three ? 3u : 1u)) return;
  if (o.three) { obstacles_in(p[1], o.n, "xy"); dots_in(p[1], {}, 0, {}, 1); obstacles_in(p[2], o.n, "xz"); dots_in(p[2], {}, 0, {}, 2); } else { obstacles_in(p[0], o.n, "xy"); dots_in(p[0], {}, 0, {}, 1); } }
HARNESS(guard) { Opt o = options(); Agent a{State(vec("p", -20, 20))}, b{State(vec("q", -20, 20))}; Vector3d g = vec("g", -20, 20); auto h = track(integer("t", 0, 3)); PlottingTools::plot_guard_configuration(a, b, pens(o.n), g, h, o.file, o.show, o.three); frame(o.file, o.show); auto p = panels(); check("panels", lit(p.size() == (o.three ? 3u : 1u))); if (p.size() != (o.three ? 3u : 1u)) return;
  if (o.three) { obstacles_in(p[1], o.n, "xy"); dots_in(p[1], {&a, &b}, &g, h, 1); obstacles_in(p[2], o.n, "xz"); dots_in(p[2], {&a, &b}, &g, h, 2); }
  else { bool flat = false; for (auto& k : p[0].r) if (k.kind == "obstacle" && k.s.find(" xy ") != std::string::npos) flat = true; obstacles_in(p[0], o.n, flat ? "xy" : "xz"); dots_in(p[0], {&a, &b}, &g, h, flat ? 1 : 2); } }
// the pieces on their own
HARNESS(pieces) { recs().clear(); bool side = boolean("side"); std::string ax = side ? "xz" : "xy"; Agent a{State(vec("p", -20, 20), unit_quat("q"))}; Vector3d g = vec("g", -20, 20); auto h = track(integer("t", 0, 3)); int n = integer("n", 0, 8);
  PlottingTools::plot_obstacles(pens(n), ax); PlottingTools::plot_agent(a, ax); PlottingTools::plot_agent_trajectory(g, h, ax); Panel p; p.r = recs(); obstacles_in(p, n, ax); dots_in(p, {&a}, &g, h, side ? 2 : 1); check("no-figure-of-their-own", lit(count("figure") + count("close") + count("show") + count("save") == 0)); }
// long ones: every point of the track, every obstacle
HARNESS(long_track) { recs().clear(); static const int N[] = {20, 101, 300, 1100}; bool side = boolean("side"); Vector3d p = vec("p", -1000, 1000), g = vec("g", -20, 20), v = vec("v", -1, 1); int n = N[pick("n", 4)]; std::deque<Vector3d> h; for (int i = 0; i < n; ++i) h.push_back(Vector3d(p(0) + i * v(0), p(1) + i * v(1), p(2) + (i % 7) * v(2))); int way = pick("way", 3); Agent a{State(p)}, b{State(g)}; Panel q;
  if (way == 0) { PlottingTools::plot_agent_trajectory(g, h, side ? "xz" : "xy"); q.r = recs(); dots_in(q, {}, &g, h, side ? 2 : 1); }
  else { Obs o = pens(2); if (way == 1) PlottingTools::plot_configuration(a, o, g, h, "", false, true); else PlottingTools::plot_guard_configuration(a, b, o, g, h, "", false, true); auto ps = panels(); check("panels", lit(ps.size() == 3u)); if (ps.size() != 3u) return; if (way == 1) dots_in(ps[side ? 2 : 1], {&a}, &g, h, side ? 2 : 1); else dots_in(ps[side ? 2 : 1], {&a, &b}, &g, h, side ? 2 : 1); } }
HARNESS(many_obstacles) { recs().clear(); static const int N[] = {12, 13, 20, 40, 130}; int n = N[pick("n", 5)]; bool side = boolean("side"); Agent a{State(vec("p", -20, 20))}; Vector3d g = vec("g", -20, 20); auto h = track(1); int way = pick("way", 4); std::string ax = side ? "xz" : "xy";
  if (way == 0) { PlottingTools::plot_obstacles(pens(n), ax); Panel p; p.r = recs(); obstacles_in(p, n, ax); return; }
  if (way == 1) PlottingTools::plot_configuration(a, pens(n), g, h, "", false, true); else if (way == 2) PlottingTools::plot_configuration(pens(n), "", false, true); else PlottingTools::plot_guard_configuration(a, a, pens(n), g, h, "", false, true); auto ps = panels(); check("panels", lit(ps.size() == 3u)); if (ps.size() == 3u) obstacles_in(ps[side ? 2 : 1], n, ax); }
