// BOUNDS: hulls of 3..6 directions (thorough: up to 8), 0..2 primitives with two crossings each (crossing parameters in +-[0.05,20], on either side of the centre), outer and inner, minimum radius in [0.05,5], any centre in [-1000,1000]^2
// REPLACED: the primitives' crossing points with the ray (any two points of the ray's line, or none)
#include "common.h"
static int mode = 0; static double lowest = 0.05;   // 0: anything; 1: two crossings ahead, in order, beyond the minimum radius; 2: two crossings ahead in order, or none; 3: as 1, on either side of the centre
struct Ray { Vector3d d; bool hit; double t1, t2; };
struct Prim : public Ellipsoid { std::string tag; std::deque<Ray> rays; int nothing = 0;
  Prim(const std::string& n) : Ellipsoid(n), tag(n) {}
  std::pair<bool, std::pair<Vector3d, Vector3d>> compute_interesection_points(const Vector3d& a, const Vector3d& b) override {
    Vector3d d(b(0) - a(0), b(1) - a(1), b(2) - a(2)); Ray* r = 0;
    for (auto& x : rays) if (truth(near(x.d, d, 1e-9))) r = &x;
    if (!r) { Ray n; n.d = d; n.hit = nothing ? false : mode == 1 || mode == 3 ? true : boolean(tag + ".hit"); n.t1 = n.t2 = 0;
      if (n.hit) { double u = real(tag + ".t", 0.05, 20), v = real(tag + ".t", 0.05, 20); bool s1 = mode && mode != 3 ? true : boolean(tag + ".ahead"), s2 = mode && mode != 3 ? true : boolean(tag + ".ahead");
        if (mode) assume(lt(u, v)); if (mode == 1 || mode == 3) assume(gt(u, lowest)); n.t1 = s1 ? u : -u; n.t2 = s2 ? v : -v; }
      rays.push_back(n); r = &rays.back(); }
    if (!r->hit) return {false, {Vector3d(0, 0, 0), Vector3d(0, 0, 0)}};
    return {true, {Vector3d(a(0) + r->t1 * d(0), a(1) + r->t1 * d(1), a(2) + r->t1 * d(2)), Vector3d(a(0) + r->t2 * d(0), a(1) + r->t2 * d(1), a(2) + r->t2 * d(2))}}; } };
// hull radius in direction d, seen through the distance of a point at distance one from the centre
static double radius(const StarShapeHull& h, bool inner, const Vector3d& c, const Vector3d& d) {
  double e = 5e-5, co = std::cos(e), si = std::sin(e), q = h.compute_distance_to_point(Vector3d(c(0) + d(0) * co + d(1) * si, c(1) + d(1) * co - d(0) * si, c(2)), Array3d(0, 0, 0));
  return inner ? q : 1 / q; }
static void go(int n, int np, bool inner, int md, bool repeat, bool cl) {
  mode = md; double mr = real("min", 0.05, 5); lowest = mr; Vector3d c(real("c.x", -1000, 1000), real("c.y", -1000, 1000), 0);
  Obs pr; std::vector<std::shared_ptr<Prim>> ps; for (int i = 0; i < np; ++i) { ps.push_back(std::make_shared<Prim>(std::string(1, char('a' + i)))); pr.push_back(ps.back()); }
  auto probe = std::make_shared<Prim>("probe"); probe->nothing = 1; pr.push_back(probe);   // sees every ray, crosses none
  StarShapeHull h(inner, n, mr);
  if (repeat) { Obs other; auto x = std::make_shared<Prim>("other"); int m0 = mode; mode = 1; other.push_back(x); h.compute_from_primitives(other, c); mode = m0; }
  h.compute_from_primitives(pr, c);
  int N = probe->rays.size(); check("one-ray-per-direction", lit(N == n));
  check("centred", same(h.get_position(), c) && same(h.get_reference_position(), c));
  std::vector<double> sel, r;
  for (int i = 0; i < N; ++i) { double s = mr; bool any = false;
    for (auto& p : ps) { Ray& y = p->rays[i]; if (!y.hit) continue; for (double t : {y.t1, y.t2}) if (truth(gt(t, 0))) { if (!any || truth(inner ? lt(t, s) : gt(t, s))) s = t; any = true; } }
    if (any && truth(lt(s, mr))) s = mr;
    sel.push_back(s); r.push_back(radius(h, inner, c, probe->rays[i].d)); }
  bool closed = cl ? h.is_closed() : false; B allabove = yes(), notabove = no();
  for (int i = 0; i < N; ++i) {
    B lo = no(), hi = no(), up = no(), dn = no();
    for (int j = 0; j < N; ++j) { lo = lo || le(sel[j], r[i] + 1e-9); hi = hi || le(r[i], sel[j] + 1e-9); for (int k = 0; k < N; ++k) if (j != k) { up = up || le(r[i] - sel[i], 0.1 * (sel[j] - sel[k]) + 1e-9); dn = dn || le(sel[i] - r[i], 0.1 * (sel[j] - sel[k]) + 1e-9); } }
    check("at-least-minimum", ge(r[i], mr - 1e-9)); check("within-range", lo && hi); check("selected-crossing", up && dn);
    allabove = allabove && gt(r[i], 1.2 * mr - 1e-9); notabove = notabove || le(r[i], 1.2 * mr + 1e-9);
  }
  if (cl) check("closed", closed ? allabove : notabove);
  if (repeat) { h.compute_from_primitives(pr, c); StarShapeHull f(inner, n, mr); f.compute_from_primitives(pr, c);
    for (int i = 0; i < N; ++i) check("repeatable", near(radius(h, inner, c, probe->rays[i].d), r[i]) && near(radius(f, inner, c, probe->rays[i].d), r[i])); }
}
HARNESS(nothing_to_cross) { go(integer("n", 3, 8), 0, boolean("inner"), 0, true, true); }
HARNESS(deep_anything_3) { go(3, 1, boolean("inner"), 0, false, false); }
HARNESS(ahead_or_none_3) { go(3, 1, boolean("inner"), 2, false, false); }
HARNESS(deep_ahead_or_none_4) { go(4, 1, boolean("inner"), 2, false, false); }
HARNESS(either_side_3) { go(3, 1, boolean("inner"), 3, false, false); }
HARNESS(ahead_6) { go(6, 1, boolean("inner"), 1, false, false); }
HARNESS(deep_ahead_9) { go(9, 1, boolean("inner"), 1, false, false); }
HARNESS(two_primitives_3) { go(3, 2, boolean("inner"), 1, false, false); }
HARNESS(recompute_3) { go(3, 1, boolean("inner"), 2, true, false); }
HARNESS(recompute_6) { go(6, 1, boolean("inner"), 1, true, false); }
HARNESS(closed_3) { go(3, 1, boolean("inner"), 1, false, true); }
HARNESS(deep_closed_4) { go(4, 1, boolean("inner"), 2, false, true); }
HARNESS(deep_ahead_12) { go(12, 1, boolean("inner"), 1, true, false); }
HARNESS(deep_anything_4) { go(4, 1, boolean("inner"), 0, false, false); }
HARNESS(deep_two_primitives_4) { go(4, 2, boolean("inner"), 1, false, false); }
// centre defaults to the mean of the primitives' positions
HARNESS(default_centre) { int n = pick("members", 3) + 1; Obs p; Vector3d m(0, 0, 0); for (int i = 0; i < n; ++i) { auto x = std::make_shared<Prim>(std::string(1, char('a' + i))); x->nothing = 1; x->set_position(vec("p", -1000, 1000)); m = add(m, x->get_position()); p.push_back(x); } for (int i = 0; i < 3; ++i) m(i) = m(i) / n;
  StarShapeHull h(p, false, 4, 0.5); check("centre-is-mean", near(h.get_position(), m) && near(h.get_reference_position(), m)); StarShapeHull g(p, true, 4, 0.5); check("inner-centre-is-mean", near(g.get_position(), m)); }
