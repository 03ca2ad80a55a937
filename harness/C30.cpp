// BOUNDS: one and two obstacles (stand-ins and real ellipsoids); arbitrary-result entries: every result of every floating-point operation is an arbitrary real; injected entries: a NaN or an infinity in any one of normal, distance, repulsion, obstacle velocity, with the remaining values symbolic; degenerate entries: agent on the centre or reference point, singular bases, no relative velocity, distances equal to the critical distance, zero distance with repulsion
// REPLACED: normals, distances and repulsion of stand-in obstacles; in the arbitrary-result entries the value of every operation on a symbolic operand
#include "common.h"
#include <limits>
static const double NAN_ = std::numeric_limits<double>::quiet_NaN(), INF = std::numeric_limits<double>::infinity(); static const Vector3d Z(0, 0, 0);
struct Thing : public Ellipsoid { Vector3d n{1, 0, 0}, rep{0, 0, 0}; double d = 2; Thing(const std::string& nm, const Vector3d& p) : Ellipsoid(nm, State(p)) {}
  using Ellipsoid::compute_distance_to_point; Vector3d compute_normal_to_agent(const Agent&) const override { return n; } double compute_distance_to_point(const Vector3d&, const Array3d&) const override { return d; } Vector3d compute_repulsion_vector(const Agent&) const override { return rep; } };
typedef std::vector<std::shared_ptr<Ellipsoid>> Es;
static Environment env(const Es& o) { Environment e(false); for (auto& x : o) e.add_obstacle(x); e.update(); return e; }
static bool real_number(double x) { return x == x; }
static B whole(const Vector3d& v) { return lit(real_number(v(0)) && real_number(v(1)) && real_number(v(2))); }
static Agent agent(const Vector3d& p, const Vector3d& v) { Agent a{State(p), 0.25}; a.set_linear_velocity(v); return a; }
static Vector3d go(const Es& o, const Vector3d& p, const Vector3d& v, bool planar = false) { Environment e = env(o); Agent a = agent(p, v); bool rep = boolean("repulsion"); Vector3d r = Modulation::modulate_velocity(a, e, false, rep, planar); check("no-nan", whole(r)); return r; }
static std::shared_ptr<Thing> thing(const char* nm, const Vector3d& p, const Vector3d& n, double d) { auto t = std::make_shared<Thing>(nm, p); t->n = n; t->d = d; return t; }
// degenerate scenes
HARNESS(on_reference) { auto t = thing("a", Z, Vector3d(1, 0, 0), real("d", 0, 5)); go({t}, Z, vec2("v", -100, 100)); }
HARNESS(on_centre) { go({std::make_shared<Ellipsoid>("a", State(Vector3d(1, 2, 0)))}, Vector3d(1, 2, 0), vec2("v", -100, 100)); }
HARNESS(centre_of_one_of_two) { go({std::make_shared<Ellipsoid>("a", State(Vector3d(1, 2, 0))), thing("b", Vector3d(-3, 0, 0), Vector3d(1, 0, 0), real("d", 0, 5))}, Vector3d(1, 2, 0), Vector3d(real("v", -100, 100), 1, 0)); }
HARNESS(off_centre_reference) { auto e = std::make_shared<Ellipsoid>("a", State(Z)); e->set_reference_position(Vector3d(0.5, 0, 0)); go({e}, Z, vec2("v", -100, 100)); }
HARNESS(at_rest) { go({thing("a", Vector3d(-2, 0, 0), Vector3d(1, 0, 0), real("d", 0, 5))}, Z, Z); }
HARNESS(no_relative_velocity) { auto t = thing("a", Vector3d(-2, 0, 0), Vector3d(1, 0, 0), real("d", 0, 1)); Vector3d v = vec2("v", -100, 100); t->set_linear_velocity(v); Vector3d r = go({t}, Z, v); check("carried-along", near(r, v, 1e-6)); }
HARNESS(normal_zero) { go({thing("a", Vector3d(-2, 0, 0), Z, real("d", 0, 5))}, Z, vec2("v", -100, 100)); }
HARNESS(reference_along_tangent) { go({thing("a", Vector3d(0, -2, 0), Vector3d(1, 0, 0), real("d", 0, 5))}, Z, vec2("v", -100, 100)); }
HARNESS(head_on) { Vector3d r = go({thing("a", Vector3d(-2, 0, 0), Vector3d(1, 0, 0), real("d", 0, 1))}, Z, Vector3d(-real("v", 0.1, 100), 0, 0)); check("stopped", near(r, Z, 1e-6)); }
HARNESS(planar_miss) { go({std::make_shared<Ellipsoid>("a", State(Vector3d(3, 0, 0)))}, Z, vec2("v", -100, 100), true); }
HARNESS(planar_at_rest) { go({std::make_shared<Ellipsoid>("a", State(Vector3d(3, 0, 0)))}, Z, Z, true); }
HARNESS(planar_inside) { go({std::make_shared<Ellipsoid>("a", State(Z))}, Vector3d(0.25, 0, 0), Vector3d(real("v", -100, 100), 0, 0), true); }
HARNESS(critical_equal) { auto t = thing("a", Vector3d(-2, 0, 0), Vector3d(1, 0, 0), real("d", 0, 5)); double c = t->d; Environment e = env({t}); Agent a = agent(Z, vec2("v", -100, 100)); check("no-nan", whole(Modulation::modulate_velocity(a, e, false, false, false, c))); }
HARNESS(distance_zero_repulsion) { auto e = std::make_shared<Ellipsoid>("a", State(Z)); auto t = thing("b", Vector3d(-2, 0, 0), Vector3d(1, 0, 0), real("d", 0, 5)); t->rep = Vector3d(1 / (t->d * 1), 0, 0); go({e, t}, Vector3d(0.5, 0, 0), Vector3d(real("v", -100, 100), 1, 0)); }
// one anomalous value in any place
static double bad() { int k = pick("bad", 3); return k == 0 ? NAN_ : k == 1 ? INF : -INF; }
static void injected(int n, const Vector3d& v) { auto t = thing("a", Vector3d(-2, 0.5, 0), Vector3d(0.8, 0.6, 0), real("d", 0, 5)); t->rep = vec("r", -1, 1); Es o{t}; if (n > 1) o.push_back(thing("b", Vector3d(2, 3, 0), Vector3d(-0.6, -0.8, 0), 1.5));
  int where = pick("where", 4), comp = pick("component", 3); double x = bad(); if (where == 0) t->n(comp) = x; else if (where == 1) t->d = x; else if (where == 2) t->rep(comp) = x; else { Vector3d l(0.25, 0.5, 0); l(comp) = x; t->set_linear_velocity(l); }
  Environment e = env(o); Agent a = agent(Z, v); Vector3d r = Modulation::modulate_velocity(a, e, false, true); check("no-nan", whole(r)); }
HARNESS(injected_one) { injected(1, Vector3d(real("v", -100, 100), 1, 0)); }
HARNESS(injected_two) { injected(2, Vector3d(-1, 1, 0)); }
HARNESS(deep_injected_two) { injected(2, Vector3d(real("v", 0.1, 100), 1, 0)); }
HARNESS(injected_still) { injected(1, Vector3d(0.5, 0, 0)); }
HARNESS(injected_repulsion_only) { auto t = thing("a", Vector3d(-2, 0.5, 0), Vector3d(0.8, 0.6, 0), real("d", 0, 1)); Vector3d r(0.5, 0.5, 0.5); r(pick("component", 3)) = bad(); t->rep = r; Environment e = env({t}); Agent a = agent(Z, vec2("v", -100, 100)); check("no-nan", whole(Modulation::modulate_velocity(a, e, false, true))); }
// every operation returns an arbitrary value
static void arbitrary(int n) { mode_havoc(); Es o; static const char* nm[] = {"a", "b"}; for (int i = 0; i < n; ++i) { auto t = thing(nm[i], Vector3d(-2 + 5 * i, 0.5, 0), Vector3d(1, 0, 0), real("d", -1, 1000)); t->rep = Vector3d(0.5, 0, 0); o.push_back(t); }
  Environment e = env(o); Agent a = agent(Z, vec("v", -100, 100)); Vector3d r = Modulation::modulate_velocity(a, e, false, true); check("no-nan", whole(r)); }
HARNESS(arbitrary_one) { arbitrary(1); }
HARNESS(deep_arbitrary_two) { arbitrary(2); }
// rounding of the cosine is not an anomaly: whatever value the inner product takes, the inverse cosine stays in its domain
static void cosine(const Vector3d& n) { auto t = thing("a", Vector3d(-n(0) * 2, -n(1) * 2, 0), n, real("d", 0, 1)); Environment e = env({t}); Vector3d v(-n(1) * real("v", 0.1, 100), n(0) * 1.5, real("w", -5, 5)); int k0 = acos_errors();
  if (native()) for (int k = 0; k < 400; ++k) { double s = std::sin(0.37 + k * 0.71), c = std::cos(0.37 + k * 0.71), m = 0.5 + 0.013 * k; Modulation::modulate_velocity(agent(Z, Vector3d(-n(1) * c * m, n(0) * c * m, s * m)), e); }   // the counterexample is confirmed on velocities along the surface, whose direction is kept exactly up to rounding
  else { mode_havoc(); Modulation::modulate_velocity(agent(Z, v), e); }
  check("cosine-in-domain", lit(acos_errors() == k0)); }
HARNESS(cosine_domain) { cosine(Vector3d(1, 0, 0)); }
HARNESS(cosine_domain_slanted) { cosine(Vector3d(0.6, 0.8, 0)); }
// nothing anomalous: the velocity is not thrown away
HARNESS(kept) { auto t = thing("a", Vector3d(-2, 0, 0), Vector3d(1, 0, 0), real("d", 0, 1)); Environment e = env({t}); double y = real("v", 0.1, 100); check("slides", near(Modulation::modulate_velocity(agent(Z, Vector3d(0, y, 0)), e), Vector3d(0, 2 * y, 0), 1e-6)); check("leaves", ge(Modulation::modulate_velocity(agent(Z, Vector3d(y, 0.5, 0)), e)(1), 0.5)); }
