// BOUNDS: sampling: any rotation about the vertical, position in [-20,20]^3, axis lengths in [0.05,50], margins in [0,20], 2..9 and 17 samples (thorough: also 10..40, 100, 250)
// BOUNDS: pairwise test: the decision from the inside tests for every outcome of every inside test (all sample counts the code asks for); end to end for axis-aligned pairs of any size and separation (thorough: rotated pairs)
// REPLACED: in the decision entries the inside test of the two ellipsoids answers symbolically
#include "common.h"
static void sampling(int n, const Quaterniond& q) {
  Ellipsoid e("e", State(vec("p", -20, 20), q), arr("m", 0, 20)); e.set_axis_lengths(arr("a", 0.05, 50)); bool incl = boolean("inflated");
  Eigen::MatrixXd s = e.sample_from_parameterization(n, incl);
  check("count", lit(s.rows() == 3 && s.cols() == n)); if (s.cols() != n) return;
  Quaterniond o = e.get_orientation(); double w = o.w(), z = o.z(), C = w * w - z * z, S = 2 * w * z; Vector3d p = e.get_position();
  double A = e.get_axis_lengths(0), Bx = e.get_axis_lengths(1); if (incl) { A = A + e.get_safety_margin()(0); Bx = Bx + e.get_safety_margin()(1); }
  std::vector<double> X, Y;
  for (int i = 0; i < n; ++i) {
    double dx = s(0, i) - p(0), dy = s(1, i) - p(1); double x = (C * dx + S * dy) / A, y = (C * dy - S * dx) / Bx;
    check("on-outline", near(x * x + y * y, 1)); X.push_back(x); Y.push_back(y);
  }
  double step = std::cos(2 * M_PI / (n - 1)), sgn = n > 3 ? (truth(gt(X[0] * Y[1] - Y[0] * X[1], 0)) ? 1 : -1) : 0;
  for (int i = 0; i + 1 < n; ++i) { check("even-steps", near(X[i] * X[i + 1] + Y[i] * Y[i + 1], step)); if (n > 3) check("one-way", gt(sgn * (X[i] * Y[i + 1] - Y[i] * X[i + 1]), 0)); }
  check("closed", near(X[0], X[n - 1]) && near(Y[0], Y[n - 1]));
}
static void some(int a, int b) { sampling(integer("n", a, b), yaw_quat("q")); }
HARNESS(samples_2_5) { some(2, 5); }
HARNESS(samples_6_9) { some(6, 9); }
HARNESS(samples_17) { some(17, 17); }
HARNESS(deep_samples_100) { some(100, 100); }
HARNESS(samples_unrotated) { sampling(integer("n", 2, 12), Quaterniond(1, 0, 0, 0)); }
HARNESS(deep_samples_10_40) { some(10, 40); }
HARNESS(deep_samples_250) { some(250, 250); }
// the decision: the inside tests are symbolic, one truth value per point asked for
static std::vector<Vector3d> asked_this, asked_other;
struct Sym : public Ellipsoid {
  std::string tag; const Sym* other = 0; mutable std::vector<Vector3d> sampled; mutable bool flag = true; mutable std::vector<std::pair<Vector3d, bool>> asked;
  Sym(const std::string& n, const Vector3d& p) : Ellipsoid(n, State(p)), tag(n) {}
  bool point_is_inside(const Vector3d& p) const override { bool b = boolean(tag + ".in"); asked.push_back({p, b}); return b; }
  Eigen::MatrixXd sample_from_parameterization(unsigned int n, bool f) const override {
    flag = f; Eigen::MatrixXd m(3, n); for (unsigned i = 0; i < n; ++i) { m(0, i) = 1000 + i; m(1, i) = -1000.0 - i; m(2, i) = 0; sampled.push_back(m.col(i)); } return m; }
  bool known(const Vector3d& p, const Sym& o) const { for (auto& s : o.sampled) if (s == p) return o.flag; return false; }
};
HARNESS(decision) {
  Sym a("a", vec("p", -20, 20)), b("b", vec("r", -20, 20)); const Obstacle& oa = a; const Obstacle& ob = b;
  bool r = oa.is_intersecting(ob), any = false;
  check("something-asked", lit(!a.asked.empty()));
  for (Sym* s : {&a, &b}) { Sym& o = s == &a ? b : a;
    for (auto& q : s->asked) { any = any || q.second;
      // only the centre or outline points of the other may be used
      if (!s->known(q.first, o)) check("asked-about-the-other", same(q.first, o.get_position())); } }
  check("reported-iff-a-point-is-inside", lit(r == any));
  if (!r) {   // everything was looked at: both centres and the whole outline
    bool ca = false, cb = false; for (auto& q : a.asked) if (!a.known(q.first, b)) ca = true; for (auto& q : b.asked) if (!b.known(q.first, a)) cb = true;
    check("both-centres", lit(ca && cb)); size_t n = 0; for (auto& q : a.asked) n += a.known(q.first, b); for (auto& q : b.asked) n += b.known(q.first, a);
    check("whole-outline", lit(n >= 16 && n >= a.sampled.size() + b.sampled.size())); }
}
// end to end
static void pair_(bool apart, double yaw1, double yaw2, bool otherway) {
  auto Q = [](double y) { return Quaterniond(std::cos(y / 2), 0, 0, std::sin(y / 2)); };
  Ellipsoid a("a", State(Vector3d(0, 0, 0), Q(yaw1)), arr("ma", 0, 1)), b("b", State(vec("r", -20, 20), Q(yaw2)), arr("mb", 0, 1));
  Array3d la = arr("la", 0.1, 4), lb = arr("lb", 0.1, 4); a.set_axis_lengths(la); b.set_axis_lengths(lb);
  double A = la(0) + a.get_safety_margin()(0), Bx = lb(0) + b.get_safety_margin()(0); Vector3d r = b.get_position();
  if (apart) { assume(gt(r(0), A + Bx + 1e-3)); check("apart", lit(!(otherway ? b.is_intersecting(a) : a.is_intersecting(b)))); }
  else { double By = lb(1) + b.get_safety_margin()(1), Ay = la(1) + a.get_safety_margin()(1), x = r(0), y = r(1);
    B in = le(x * x * Ay * Ay + y * y * A * A, A * A * Ay * Ay) || le(x * x * By * By + y * y * Bx * Bx, Bx * Bx * By * By); assume(in);
    check("together", lit(otherway ? b.is_intersecting(a) : a.is_intersecting(b))); }
}
HARNESS(apart_along_x) { pair_(true, 0, 0, false); }
HARNESS(apart_along_x_reversed) { pair_(true, 0, 0, true); }
HARNESS(centre_inside) { pair_(false, 0, 0, false); }
HARNESS(centre_inside_reversed) { pair_(false, 0, 0, true); }
// dispatch: aggregates are tested member by member, unknown types never intersect
struct Ans : public Ellipsoid { std::map<std::string, bool> ans; mutable std::vector<std::string> q; Ans(const std::string& n) : Ellipsoid(n) {}
  std::pair<bool, std::pair<Vector3d, Vector3d>> compute_interesection_points(const Vector3d&, const Vector3d&) override { return {false, {Vector3d(0, 0, 0), Vector3d(0, 0, 0)}}; }
  bool is_intersecting_ellipsoid(const Ellipsoid& o) const override { q.push_back(o.get_name()); auto it = ans.find(o.get_name()); if (it == ans.end()) it = const_cast<Ans*>(this)->ans.insert({o.get_name(), boolean(get_name() + "-" + o.get_name())}).first; return it->second; } };
HARNESS(dispatch) {
  int n = integer("members", 1, 3); auto me = std::make_shared<Ans>("me"); Obs m; std::vector<std::string> nm;
  for (int i = 0; i < n; ++i) { nm.push_back(std::string(1, char('a' + i))); m.push_back(std::make_shared<Ans>(nm.back())); }
  Aggregate g(m); bool r = me->is_intersecting(g), any = false;
  for (auto& x : nm) { auto it = me->ans.find(x); if (it == me->ans.end()) { if (!r) check("member-skipped", no()); } else any = any || it->second; }
  check("aggregate-iff-member", lit(r == any));
  bool l = me->is_intersecting(m); check("list-iff-member", lit(l == r));
  for (auto& o : m) check("single", lit(me->is_intersecting(*o) == me->ans[o->get_name()]));
  StarShapeHull h; check("unknown-type", lit(!me->is_intersecting(h)));
}
