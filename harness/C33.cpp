// BOUNDS: aggregates of 1..3 members (each answering the inside test freely), 7 members of which at most one contains the point, any centre in [-20,20]^2; query points at horizontal distance [0.01,1000], height [-2,2] (thorough: all azimuths; quick: five windows of azimuths, including both sides of the seam), margins in [0,2]; built at once, one by one, with the hulls updated later, and after the reference point was moved; real circles in a ring at fixed points
// REPLACED: the members' inside test (any answer) and their crossing points with a ray (two radii per direction, different from each other)
#include "common.h"
struct Member : public Ellipsoid { double lo, hi; bool any;
  Member(const std::string& n, const Vector3d& at, double l, double h) : Ellipsoid(n, State(at)), lo(l), hi(h), any(false) {}
  bool point_is_inside(const Vector3d&) const override { return any; }
  std::pair<bool, std::pair<Vector3d, Vector3d>> compute_interesection_points(const Vector3d& a, const Vector3d& b) override {
    Vector3d d(b(0) - a(0), b(1) - a(1), b(2) - a(2)); double w = 1 + 0.2 * d(0) + 0.1 * d(1); double t = lo * w, u = hi * (1 - 0.15 * d(0) + 0.2 * d(1));
    return {true, {Vector3d(a(0) + t * d(0), a(1) + t * d(1), a(2)), Vector3d(a(0) + u * d(0), a(1) + u * d(1), a(2))}}; } };
typedef std::vector<std::shared_ptr<Member>> Ms;
static const char* NM[] = {"a", "b", "c"};
static const double LO[] = {1.5, 1.25, 1.75}, HI[] = {2.5, 3, 2.75};
static const Vector3d AT[] = {Vector3d(1, 0.5, 0), Vector3d(-0.5, 1, 0), Vector3d(0, -1, 0)};
static Ms members(int n, const Vector3d& c) { Ms m; for (int i = 0; i < n; ++i) m.push_back(std::make_shared<Member>(NM[i], add(c, AT[i]), LO[i], HI[i])); return m; }
static Obs list(const Ms& m) { Obs o; for (auto& x : m) o.push_back(x); return o; }
static Vector3d centre() { return Vector3d(real("c.x", -20, 20), real("c.y", -20, 20), 0); }
static double azimuth(bool all) { if (all) return real("a", -M_PI, M_PI); static const double W[] = {-M_PI, -1.6, -0.01, 0.74, M_PI - 0.04}; int k = pick("window", 5); return real("a", W[k], W[k] + 0.039); }
// the aggregate's answers at one point against hulls built from the same members
static void ask(const Aggregate& g, const Ms& m, bool all, bool normals) {
  StarShapeHull outer(false), inner(true); outer.compute_from_primitives(g.get_primitives(), g.get_reference_position()); inner.compute_from_primitives(g.get_primitives(), g.get_reference_position());
  double a = azimuth(all), H = real("H", 0.01, 1000); Vector3d p = add(g.get_reference_position(), Vector3d(H * std::cos(a), H * std::sin(a), 0));
  bool in = outer.point_is_inside(p); for (auto& x : m) { x->any = boolean("member_has_it"); in = in || x->any; }
  check("inside-iff-hull-or-member", lit(g.point_is_inside(p) == in));
  const Obstacle& o = g; const Obstacle& h = in ? static_cast<const Obstacle&>(inner) : static_cast<const Obstacle&>(outer);
  Array3d sm(0.5, 0.25, 1); double q = o.compute_distance_to_point(p, sm);
  check("distance", near(q, h.compute_distance_to_point(p, sm))); check("distance-scalar", near(o.compute_distance_to_point(p, 0.5), h.compute_distance_to_point(p, 0.5)));
  Agent ag{State(p), 0.5}; check("agent-distance", near(o.compute_distance_to_agent(ag), h.compute_distance_to_agent(ag)));
  if (normals) { check("normal", near(o.compute_normal_to_agent(ag), h.compute_normal_to_agent(ag))); }
}
HARNESS(one) { Ms m = members(1, centre()); Aggregate g(list(m)); ask(g, m, false, true); }
HARNESS(two) { Ms m = members(2, centre()); Aggregate g(list(m)); ask(g, m, false, true); }
HARNESS(three) { Ms m = members(3, Vector3d(1, 2, 0)); Aggregate g(list(m)); ask(g, m, false, true); }
HARNESS(one_by_one) { Ms m = members(3, Vector3d(1, 2, 0)); Aggregate g; for (auto& x : m) g.add_primitive(x); ask(g, m, false, true); }
HARNESS(hull_later) { Ms m = members(2, Vector3d(1, 2, 0)); Aggregate g; for (auto& x : m) g.add_primitive(x, false); g.update_hull(); ask(g, m, false, true); }
HARNESS(reference_moved) { Ms m = members(2, Vector3d(1, 2, 0)); Aggregate g(list(m)); g.set_reference_position(centre()); g.update_hull(); ask(g, m, false, true); }
HARNESS(member_moved) { Ms m = members(2, Vector3d(1, 2, 0)); Aggregate g(list(m)); m[0]->lo = 0.75; m[1]->hi = 4; g.update_hull(); ask(g, m, false, true); }
HARNESS(deep_all_azimuths) { Ms m = members(2, Vector3d(1, 2, 0)); Aggregate g(list(m)); ask(g, m, true, true); }
HARNESS(elevated) { Ms m = members(2, Vector3d(1, 2, 0)); Aggregate g(list(m)); StarShapeHull outer(false), inner(true); outer.compute_from_primitives(g.get_primitives(), g.get_reference_position()); inner.compute_from_primitives(g.get_primitives(), g.get_reference_position());
  Vector3d p = add(g.get_reference_position(), Vector3d(2.2, 0.9, real("z", -2, 2))); bool in = outer.point_is_inside(p); for (auto& x : m) { x->any = boolean("member_has_it"); in = in || x->any; }
  check("inside-iff-hull-or-member", lit(g.point_is_inside(p) == in)); const Obstacle& o = g; const Obstacle& h = in ? static_cast<const Obstacle&>(inner) : static_cast<const Obstacle&>(outer); Agent ag{State(p)}; check("distance", near(o.compute_distance_to_agent(ag), h.compute_distance_to_agent(ag))); check("normal", near(o.compute_normal_to_agent(ag), h.compute_normal_to_agent(ag))); }
// closed exactly when the outer hull is
struct Band : public Ellipsoid { double lo, hi; Band(double l, double h) : Ellipsoid("band"), lo(l), hi(h) {}
  std::pair<bool, std::pair<Vector3d, Vector3d>> compute_interesection_points(const Vector3d& a, const Vector3d& b) override {
    Vector3d d(b(0) - a(0), b(1) - a(1), b(2) - a(2)); bool gap = d(0) > 0.99; if (gap) return {lo > 0, {Vector3d(a(0) + lo * d(0), a(1) + lo * d(1), a(2)), Vector3d(a(0) + hi * d(0), a(1) + hi * d(1), a(2))}};
    return {true, {Vector3d(a(0) + 1.5 * d(0), a(1) + 1.5 * d(1), a(2)), Vector3d(a(0) + 4 * d(0), a(1) + 4 * d(1), a(2))}}; } };
static const double LS[] = {0, 0.3, 0.55, 0.7, 2}, HS[] = {0.4, 0.58, 0.63, 0.9, 3};
HARNESS(closed) { int i = pick("lo", 5), j = pick("hi", 5); Obs o; o.push_back(std::make_shared<Band>(LS[i], HS[j])); Aggregate g(o); StarShapeHull outer(false); outer.compute_from_primitives(g.get_primitives(), g.get_reference_position()); check("closed-iff-outer-hull", lit(g.is_closed() == outer.is_closed())); check("as-expected", lit(g.is_closed() == (i > 0 && (LS[i] > 0.6 || HS[j] > 0.6)))); check("virtual", lit(static_cast<const Obstacle&>(g).is_closed() == g.is_closed())); }
HARNESS(seven) { static const char* nm[] = {"a", "b", "c", "d", "e", "f", "g"}; Ms m; Vector3d c(1, 2, 0); for (int i = 0; i < 7; ++i) m.push_back(std::make_shared<Member>(nm[i], add(c, AT[i % 3]), LO[i % 3], HI[i % 3])); Aggregate g(list(m)); int who = integer("who", -1, 6); StarShapeHull outer(false), inner(true); outer.compute_from_primitives(g.get_primitives(), g.get_reference_position()); inner.compute_from_primitives(g.get_primitives(), g.get_reference_position());
  double H = real("H", 0.01, 1000); Vector3d p = add(g.get_reference_position(), Vector3d(0.6 * H, -0.8 * H, 0)); bool in = outer.point_is_inside(p) || who >= 0; if (who >= 0) m[who]->any = true; check("inside-iff-hull-or-member", lit(g.point_is_inside(p) == in)); const Obstacle& o = g; const Obstacle& h = in ? static_cast<const Obstacle&>(inner) : static_cast<const Obstacle&>(outer); Agent ag{State(p), 0.5}; check("agent-distance", near(o.compute_distance_to_agent(ag), h.compute_distance_to_agent(ag))); check("normal", near(o.compute_normal_to_agent(ag), h.compute_normal_to_agent(ag))); }
