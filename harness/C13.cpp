// BOUNDS: hulls of 3..6 points (thorough 8, 12) with any radii, outer and inner, any centre in [-1000,1000]^2; every query azimuth in [-pi,pi] except within 1e-6 of a hull point, horizontal distance in [0.01,1000], height in [-10,10]; also the azimuths +-pi and the gap at the seam; default resolution 500 with constant radius
// REPLACED: the primitives' crossing points with the ray (one symbolic radius per direction)
#include "common.h"
struct Prim : public Ellipsoid { std::vector<Vector3d> dirs; double lowest = 0, fixed = 0; Prim() : Ellipsoid("p") {}
  std::pair<bool, std::pair<Vector3d, Vector3d>> compute_interesection_points(const Vector3d& a, const Vector3d& b) override {
    Vector3d d(b(0) - a(0), b(1) - a(1), b(2) - a(2)); dirs.push_back(d); double t = fixed; if (!fixed) { t = real("t", 0.05, 20); assume(gt(t, lowest)); }
    Vector3d p(a(0) + t * d(0), a(1) + t * d(1), a(2)); return {true, {p, p}}; } };
static double radius(const StarShapeHull& h, bool inner, const Vector3d& c, const Vector3d& d) {
  double e = 5e-5, co = std::cos(e), si = std::sin(e), q = h.compute_distance_to_point(Vector3d(c(0) + d(0) * co + d(1) * si, c(1) + d(1) * co - d(0) * si, c(2)), Array3d(0, 0, 0));
  return inner ? q : 1 / q; }
// i: the hull point the sector belongs to
static void queries(const StarShapeHull& h, bool inner, const Vector3d& c, const std::vector<Vector3d>& dirs, const std::vector<double>& r, int i, const Vector3d& off, double R, bool nrm) {
  int n = dirs.size(), j = (i + 1) % n; Vector3d p = add(c, off);
  double q = h.compute_distance_to_point(p, Array3d(0, 0, 0)); bool in = h.point_is_inside(p);
  check("distance-is-ratio", inner ? near(q * R, r[i]) : near(q * r[i], R));
  check("inside-iff-radius-below", in ? lt(R, r[i] + 1e-9) : ge(R, r[i] - 1e-9));
  check("distance-agrees-with-inside", in ? (inner ? gt(q, 1 - 1e-9) : lt(q, 1 + 1e-9)) : (inner ? le(q, 1 + 1e-9) : ge(q, 1 - 1e-9)));
  check("overload", near(static_cast<const Obstacle&>(h).compute_distance_to_point(p), q));
  if (!nrm) return;
  Agent ag{State(p)}; Vector3d nv = h.compute_normal_to_agent(ag);
  check("normal-horizontal", near(nv(2), 0)); check("normal-unit", near(sqn(nv), 1));
  Vector3d e(r[i] * dirs[i](0) - r[j] * dirs[j](0), r[i] * dirs[i](1) - r[j] * dirs[j](1), 0);
  check("normal-perpendicular-to-edge", near(nv(0) * e(0) + nv(1) * e(1), 0));
  check("agent-distance", near(h.compute_distance_to_agent(ag), q));
}
static void go(int n, int where, bool nrm, bool high) {
  bool inner = boolean("inner"); double mr = real("min", 0.05, 2); Vector3d c(real("c.x", -1000, 1000), real("c.y", -1000, 1000), 0);
  auto p = std::make_shared<Prim>(); p->lowest = mr; if (n > 50) p->fixed = 3.5; if (n > 50) mr = 0.5; Obs o{p};
  StarShapeHull h(inner, n, mr); h.compute_from_primitives(o, c);
  std::vector<double> r, phi; for (auto& d : p->dirs) { r.push_back(radius(h, inner, c, d)); phi.push_back(std::atan2(d(1), d(0))); }
  if (phi[0] > 3) phi[0] = -M_PI;
  check("points", lit((int)phi.size() == n));
  double a, H = real("H", 0.01, 1000), z = high ? real("z", -10, 10) : 0.0; int i = 0;
  if (where == 0) { a = real("a", -M_PI, M_PI); for (double f : phi) assume(gt(a, f + 1e-6) || lt(a, f - 1e-6)); while (i < n && truth(lt(phi[i], a))) ++i; i %= n; }
  else if (where == 1) { a = real("a", M_PI - 9e-5, M_PI); i = 0; }          // the gap at the seam
  else { a = M_PI; i = 0; }                                                 // exactly backwards
  Vector3d off(where == 2 ? -H : H * std::cos(a), where == 2 ? 0.0 : H * std::sin(a), z);
  queries(h, inner, c, p->dirs, r, i, off, high ? std::sqrt(H * H + z * z) : H, nrm);
}
HARNESS(three) { go(3, 0, true, false); }
HARNESS(four) { go(4, 0, true, false); }
HARNESS(six) { go(6, 0, false, false); }
HARNESS(elevated) { go(4, 0, false, true); }
HARNESS(seam_gap) { go(integer("n", 3, 6), 1, true, false); }
HARNESS(backwards) { go(integer("n", 3, 6), 2, true, false); }
HARNESS(backwards_500) { go(500, 2, true, false); }
HARNESS(seam_gap_500) { go(500, 1, true, false); }
HARNESS(deep_all_500) { go(500, 0, false, false); }
HARNESS(deep_eight) { go(8, 0, true, false); }
HARNESS(deep_twelve) { go(12, 0, false, true); }
