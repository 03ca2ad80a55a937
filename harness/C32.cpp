// BOUNDS: all twelve constructors of Obstacle (through a minimal subclass) and Ellipsoid with every argument symbolic (any unit quaternion, positions and velocities within [-1000,1000]); every setter; copies; hulls and aggregates (constructors, resolution); State and Pose constructors
#include "common.h"
struct Plain : public Obstacle { using Obstacle::Obstacle; };
static const Vector3d Z(0, 0, 0); static const Quaterniond ID(1, 0, 0, 0);
static B det(const Vector3d& v) { return determined(v(0)) && determined(v(1)) && determined(v(2)); }
static B same3(const Array3d& a, const Array3d& b) { return same(a(0), b(0)) && same(a(1), b(1)) && same(a(2), b(2)); }
struct Want { std::string name; Vector3d p{0, 0, 0}, l{0, 0, 0}, w{0, 0, 0}, r{0, 0, 0}; Quaterniond q{1, 0, 0, 0}; Array3d m{0, 0, 0}, ax{1, 1, 1}, cu{1, 1, 1}; };
static void base(const Obstacle& o, const Want& k) {
  check("name", lit(o.get_name() == k.name));
  check("determined", det(o.get_position()) && det(o.get_linear_velocity()) && det(o.get_angular_velocity()) && det(o.get_reference_position()) && det(o.get_safety_margin()) && determined(o.get_orientation().w()) && determined(o.get_orientation().x()) && determined(o.get_orientation().y()) && determined(o.get_orientation().z()));
  check("pose", near(o.get_position(), k.p) && near(o.get_orientation(), k.q)); check("state", near(o.get_state().get_position(), k.p) && near(o.get_pose().get_position(), k.p) && near(o.get_state().get_linear_velocity(), k.l)); check("velocities", near(o.get_linear_velocity(), k.l) && near(o.get_angular_velocity(), k.w)); check("reference", near(o.get_reference_position(), k.r)); check("margin", same3(o.get_safety_margin(), k.m)); }
static void ell(const Ellipsoid& e, const Want& k) { base(e, k); check("type", lit(e.get_type() == "Ellipsoid")); Array3d a = e.get_axis_lengths(), c = e.get_curvature_factor(); check("determined-shape", det(a) && det(c)); check("axes", same3(a, k.ax)); check("curvature", same3(c, k.cu)); for (int i = 0; i < 3; ++i) check("axis-by-index", same(e.get_axis_lengths(i), k.ax(i)) && same(e.get_curvature_factor(i), k.cu(i))); }
static State any_state(Want& k) { k.p = vec("p", -1000, 1000); k.q = unit_quat("q"); k.l = vec("l", -1000, 1000); k.w = vec("w", -1000, 1000); k.r = k.p; return State(k.p, k.q, k.l, k.w); }
static Array3d uni(double m) { return Array3d(m, m, m); }
template <class T, class F> static void ctors(F f) {
  Want k; k.name = "n"; int c = pick("ctor", 12); double m = real("m", 0, 3); Array3d am = arr("am", 0, 3);
  if (c == 0) { f(T("n"), k); } else if (c == 1) { k.m = uni(m); f(T("n", m), k); } else if (c == 2) { k.m = am; f(T("n", am), k); }
  else if (c == 3) { State s = any_state(k); f(T("n", s), k); } else if (c == 4) { State s = any_state(k); k.m = uni(m); f(T("n", s, m), k); } else if (c == 5) { State s = any_state(k); k.m = am; f(T("n", s, am), k); }
  else if (c == 6) { State s = any_state(k); k.r = vec("r", -1000, 1000); f(T("n", s, k.r), k); } else if (c == 7) { State s = any_state(k); k.r = vec("r", -1000, 1000); k.m = uni(m); f(T("n", s, k.r, m), k); } else if (c == 8) { State s = any_state(k); k.r = vec("r", -1000, 1000); k.m = am; f(T("n", s, k.r, am), k); }
  else if (c == 9) { k.p = k.r = vec("p", -1000, 1000); f(T("n", k.p(0), k.p(1), k.p(2)), k); } else if (c == 10) { k.p = k.r = vec("p", -1000, 1000); k.m = uni(m); f(T("n", k.p(0), k.p(1), k.p(2), m), k); } else { k.p = k.r = vec("p", -1000, 1000); k.m = am; f(T("n", k.p(0), k.p(1), k.p(2), am), k); } }
HARNESS(obstacle) { ctors<Plain>([](const Plain& o, const Want& k) { base(o, k); }); }
HARNESS(ellipsoid) { ctors<Ellipsoid>([](const Ellipsoid& e, const Want& k) { ell(e, k); }); }
static Want read(const Ellipsoid& e) { Want k; k.name = e.get_name(); k.p = e.get_position(); k.q = e.get_orientation(); k.l = e.get_linear_velocity(); k.w = e.get_angular_velocity(); k.r = e.get_reference_position(); k.m = e.get_safety_margin(); k.ax = e.get_axis_lengths(); k.cu = e.get_curvature_factor(); return k; }
static void full(Ellipsoid& e) { e.set_axis_lengths(arr("ax", 0.1, 5)); e.set_curvature_factor(Array3d(1, 2, 3)); e.set_reference_position(vec("ref", -1000, 1000)); }
static Want given(Ellipsoid& e, Want k) { full(e); k.ax = e.get_axis_lengths(); k.cu = Array3d(1, 2, 3); k.r = e.get_reference_position(); return k; }
static void change(Ellipsoid& e, Want& k, int c) {
  if (c == 0) { k.name = "other"; e.set_name("other"); } else if (c == 1) { k.p = vec("sp", -1000, 1000); k.q = unit_quat("sq"); e.set_pose(Pose(k.p, k.q)); }
  else if (c == 2) { k.p = vec("sp", -1000, 1000); e.set_position(k.p); } else if (c == 3) { k.q = unit_quat("sq"); e.set_orientation(k.q); } else if (c == 4) { k.l = vec("sl", -1000, 1000); e.set_linear_velocity(k.l); } else if (c == 5) { k.w = vec("sw", -1000, 1000); e.set_angular_velocity(k.w); }
  else if (c == 6) { k.r = vec("sr", -1000, 1000); e.set_reference_position(k.r); } else if (c == 7) { k.ax = arr("sa", 0.1, 5); e.set_axis_lengths(k.ax); }
  else if (c == 8) { k.cu = arr("sc", 1, 4); e.set_curvature_factor(k.cu); } else { k.p = vec("sp", -1000, 1000); e.set_position(k.p(0), k.p(1), k.p(2)); } }
HARNESS(copy) { Want k; k.name = "n"; State s = any_state(k); k.m = arr("am", 0, 3); Ellipsoid e("n", s, k.m); k = given(e, k); Ellipsoid c(e); ell(c, k); ell(e, k); }
HARNESS(copy_independent) { Want k; k.name = "n"; State s = any_state(k); Ellipsoid e("n", s); k = given(e, k); Ellipsoid c(e); Want k2 = k; int w = pick("which", 10); if (boolean("first")) { change(e, k2, w); ell(e, k2); ell(c, k); } else { change(c, k2, w); ell(c, k2); ell(e, k); } }
HARNESS(setters) { Want k; k.name = "n"; State s = any_state(k); Ellipsoid e("n", s); k = given(e, k); change(e, k, pick("set", 10)); ell(e, k); }
HARNESS(two_setters) { Want k; k.name = "n"; k.p = k.r = vec("p", -1000, 1000); Ellipsoid e("n", State(k.p)); change(e, k, pick("set", 10)); change(e, k, pick("set2", 10)); ell(e, k); }
HARNESS(aggregates) { Aggregate g; check("type", lit(g.get_type() == "Aggregate" && g.get_name() == "aggregate")); check("determined", det(g.get_position()) && det(g.get_linear_velocity()) && det(g.get_angular_velocity()) && det(g.get_reference_position()) && det(g.get_safety_margin()));
  Vector3d a = vec("a", -5, 5), b = vec("b", -5, 5); Aggregate h; h.add_primitive(std::make_shared<Ellipsoid>("x", State(a)), false); h.add_primitive(std::make_shared<Ellipsoid>("y", State(b)), false); check("centre", near(h.get_position(), Vector3d((a(0) + b(0)) / 2, (a(1) + b(1)) / 2, (a(2) + b(2)) / 2)) && near(h.get_reference_position(), h.get_position())); check("at-rest", near(h.get_linear_velocity(), Z) && near(h.get_angular_velocity(), Z)); }
HARNESS(hulls) { StarShapeHull h(boolean("inside"), integer("resolution", 3, 12), real("radius", 0.1, 2)); check("type", lit(h.get_type() == "StarShapeHull")); check("determined", det(h.get_position()) && det(h.get_linear_velocity()) && det(h.get_angular_velocity()) && det(h.get_reference_position()) && det(h.get_safety_margin())); check("at-origin", near(h.get_position(), Z) && near(h.get_reference_position(), Z) && near(h.get_orientation(), ID)); }
HARNESS(states) { int c = pick("ctor", 6); Vector3d p = vec("p", -1000, 1000), l = vec("l", -1000, 1000), w = vec("w", -1000, 1000); Quaterniond q = unit_quat("q"); State s = c == 0 ? State() : c == 1 ? State(Pose(p, q)) : c == 2 ? State(p(0), p(1), p(2)) : c == 3 ? State(p) : c == 4 ? State(p, q) : State(p, q, l, w);
  check("position", c ? near(s.get_position(), p) : near(s.get_position(), Z)); check("orientation", near(s.get_orientation(), c == 1 || c > 3 ? q : ID)); check("velocities", near(s.get_linear_velocity(), c == 5 ? l : Z) && near(s.get_angular_velocity(), c == 5 ? w : Z)); }
