// BOUNDS: random draws: every output of the generator (0..RAND_MAX), bounds within [-100,100] in either order, default lower bound, sequences of three draws; polar conversion: every point within [-20,20]^3 with norm above 1e-3, every (radius, inclination, azimuth); sorting up to 4 columns (thorough 5) with every order of the inclinations; neighbour lookup in up to 5 columns at any places and in 17, 64, 200, 300 or 500 evenly spaced ones
#include "common.h"
static void draw(double a, double b, double r) { check("between", (le(a, r) && le(r, b)) || (le(b, r) && le(r, a))); }
HARNESS(rand_between) { double a = real("a", -100, 100), b = real("b", -100, 100); draw(a, b, MathTools::rand_float(a, b)); }
HARNESS(rand_default) { double a = real("a", -100, 100); draw(a, 0, MathTools::rand_float(a)); }
HARNESS(rand_sequence) { double a = real("a", -100, 100), b = real("b", -100, 100); for (int i = 0; i < 3; ++i) draw(a, b, MathTools::rand_float(a, b)); }
HARNESS(rand_same_bounds) { double a = real("a", -100, 100); check("the-bound", near(MathTools::rand_float(a, a), a)); }
HARNESS(sign_real) { double x = real("x", -10, 10); int s = MathTools::sign(x); check("sign", (gt(x, 0) && lit(s == 1)) || (lt(x, 0) && lit(s == -1)) || (eq(x, 0) && lit(s == 0))); }
HARNESS(sign_int) { int x = integer("x", -4, 4); check("sign", lit(MathTools::sign(x) == (x > 0 ? 1 : x < 0 ? -1 : 0))); }
// polar
static void there(const Vector3d& c) { double n2 = sqn(c); assume(gt(n2, 1e-6)); Vector3d p = MathTools::cartesian_to_polar(c);
  check("radius-is-norm", near(p(0) * p(0), n2) && ge(p(0), 0)); check("inclination-range", ge(p(1), 0) && le(p(1), M_PI)); check("azimuth-range", gt(p(2), -M_PI - 1e-9) && le(p(2), M_PI + 1e-9));
  check("inclination", near(p(0) * std::cos(p(1)), c(2))); double h = std::sqrt(c(0) * c(0) + c(1) * c(1)); check("azimuth", near(h * std::cos(p(2)), c(0)) && near(h * std::sin(p(2)), c(1))); }
HARNESS(to_polar) { there(vec("c", -20, 20)); }
HARNESS(to_polar_level) { there(vec2("c", -20, 20)); }
HARNESS(to_polar_axis) { there(Vector3d(0, 0, real("z", -20, 20))); }
HARNESS(round_trip) { Vector3d c = vec("c", -20, 20); assume(gt(sqn(c), 1e-6)); check("restored", near(MathTools::polar_to_cartesian(MathTools::cartesian_to_polar(c)), c)); }
HARNESS(round_trip_level) { Vector3d c = vec2("c", -20, 20); assume(gt(sqn(c), 1e-6)); check("restored", near(MathTools::polar_to_cartesian(MathTools::cartesian_to_polar(c)), c)); }
HARNESS(round_trip_axis) { Vector3d c(0, 0, real("z", -20, 20)); assume(gt(sqn(c), 1e-6)); check("restored", near(MathTools::polar_to_cartesian(MathTools::cartesian_to_polar(c)), c)); }
HARNESS(from_polar) { double r = real("r", 0, 20), t = real("t", 0, M_PI), f = real("f", -M_PI, M_PI); Vector3d c = MathTools::polar_to_cartesian(Vector3d(r, t, f)); check("norm", near(sqn(c), r * r)); check("height", near(c(2), r * std::cos(t))); check("horizontal", near(c(0), r * std::sin(t) * std::cos(f)) && near(c(1), r * std::sin(t) * std::sin(f))); }
// sorting
static void sorting(int n) { Eigen::MatrixXd m(3, n); for (int i = 0; i < n; ++i) { m(0, i) = i; m(1, i) = real("t", -4, 4); m(2, i) = real("f", -4, 4); } Eigen::MatrixXd s = MathTools::sorted_cols_by_theta(m); check("shape", lit(s.rows() == 3 && s.cols() == n)); if (s.cols() != n) return;
  std::vector<int> seen(n, 0); for (int i = 0; i < n; ++i) { int k = (int)s(0, i); bool ok = k >= 0 && k < n; check("same-columns", lit(ok && !seen[ok ? k : 0])); if (!ok) return; seen[k] = 1; check("columns-whole", same(s(1, i), m(1, k)) && same(s(2, i), m(2, k))); if (i) check("non-decreasing", le(s(1, i - 1), s(1, i))); } }
HARNESS(sort_few) { sorting(integer("n", 0, 3)); }
HARNESS(sort_four) { sorting(4); }
HARNESS(deep_sort_five) { sorting(5); }
HARNESS(sort_many) { int n = 20; Eigen::MatrixXd m(3, n); for (int i = 0; i < n; ++i) { m(0, i) = i; m(1, i) = (i * 7) % 20; m(2, i) = real("f", -4, 4); } double x = real("t", -1, 21); for (int i = 0; i < n; ++i) assume(!eq(x, (i * 7) % 20)); m(1, 3) = x; Eigen::MatrixXd s = MathTools::sorted_cols_by_theta(m); std::vector<int> seen(n, 0); for (int i = 0; i < n; ++i) { int k = (int)s(0, i); check("same-columns", lit(!seen[k])); seen[k] = 1; check("columns-whole", same(s(1, i), m(1, k)) && same(s(2, i), m(2, k))); if (i) check("non-decreasing", le(s(1, i - 1), s(1, i))); } }
HARNESS(compare) { Eigen::VectorXd a(3), b(3); for (int i = 0; i < 3; ++i) { a(i) = real("a", -4, 4); b(i) = real("b", -4, 4); } check("by-inclination", iff(lit(MathTools::compare_theta(a, b)), lt(a(1), b(1)))); }
// lookup of the neighbours in sorted columns
static void lookup(int n, int row) { Eigen::MatrixXd m(3, n); m.setZero(); double last = -5; for (int i = 0; i < n; ++i) { m(row, i) = real("t", -4, 4); if (i) assume(lt(last, m(row, i))); last = m(row, i); } Vector3d p(0.5, 0.5, 0.5); p(row) = real("x", -5, 5);
  auto r = MathTools::find_closest_points(m, p, row); check("within", lit(r.first < (unsigned)n && r.second == (r.first + 1) % n)); if (r.first >= (unsigned)n) return; bool beyond = truth(gt(p(row), m(row, n - 1)));
  if (beyond) check("wraps", lit(r.first == 0)); else { check("not-below", ge(m(row, r.first), p(row))); if (r.first) check("first-such", lt(m(row, r.first - 1), p(row))); } }
HARNESS(lookup_many) { static const int N[] = {17, 64, 200, 300, 500}; int n = N[pick("n", 5)], row = pick("row", 2) + 1; Eigen::MatrixXd m(3, n); m.setZero(); double off = real("off", -4, 4); for (int i = 0; i < n; ++i) m(row, i) = off + 0.5 * i; Vector3d p(0.5, 0.5, 0.5); double x = real("x", -10, 260); p(row) = off + x;
  auto r = MathTools::find_closest_points(m, p, row); check("within", lit(r.first < (unsigned)n && r.second == (r.first + 1) % n)); if (r.first >= (unsigned)n) return; bool beyond = truth(gt(x, 0.5 * (n - 1)));
  if (beyond) check("wraps", lit(r.first == 0)); else { check("not-below", ge(0.5 * r.first, x)); if (r.first) check("first-such", lt(0.5 * (r.first - 1.0), x)); } }
HARNESS(lookup_inclination) { lookup(integer("n", 1, 5), 1); }
HARNESS(lookup_azimuth) { lookup(integer("n", 1, 5), 2); }
