// BOUNDS: 1..4 (thorough 1..6) obstacles at any distances, 5..10 with two at any distance or any subset in contact; distances in [-1,50], critical distance in [0,3], weight power 1, 2, 3, 0.5 (by closed form) and arbitrary real in [0.1,5] (power uninterpreted but for sign facts)
#include "common.h"
static void go(int n, double power) {
  Eigen::ArrayXd d(n); for (int i = 0; i < n; ++i) d(i) = real("d", -1, 50);
  double c = real("c", 0, 3); Eigen::ArrayXd w = Modulation::weight_obstacles(d, c, power);
  check("size", lit(w.size() == n));
  std::vector<int> crit; for (int i = 0; i < n; ++i) if (truth(le(d(i), c))) crit.push_back(i);
  double s = 0; for (int i = 0; i < n; ++i) s = s + w(i);
  check("sum", near(s, 1));
  for (int i = 0; i < n; ++i) check("non-negative", ge(w(i), 0));
  if (!crit.empty()) { size_t k = 0; for (int i = 0; i < n; ++i) { bool in = k < crit.size() && crit[k] == i; if (in) ++k; check("critical-share", near(w(i), in ? 1.0 / crit.size() : 0.0)); } }
  else for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) {
    check("closer-not-less", implies(le(d(i), d(j)), ge(w(i), w(j))));
    if (i < j) { double a = d(i) - c, b = d(j) - c; if (power == 1) check("proportional", near(w(i) * a, w(j) * b)); if (power == 2) check("proportional", near(w(i) * a * a, w(j) * b * b)); if (power == 3) check("proportional", near(w(i) * a * a * a, w(j) * b * b * b)); }
  }
}
HARNESS(one) { go(1, 2); }
HARNESS(two) { go(2, 2); }
HARNESS(two_p1) { go(2, 1); }
HARNESS(two_p3) { go(2, 3); }
HARNESS(three) { go(3, 2); }
HARNESS(three_p1) { go(3, 1); }
HARNESS(four) { go(4, 2); }
HARNESS(deep_five) { go(5, 2); }
HARNESS(deep_six) { go(6, 1); }
HARNESS(any_power) {
  int n = 2; Eigen::ArrayXd d(n); for (int i = 0; i < n; ++i) d(i) = real("d", -1, 50); double c = real("c", 0, 3), p = real("p", 0.1, 5);
  bool none = !truth(le(d(0), c)) && !truth(le(d(1), c));
  double a = 0, b = 0; if (none) { a = std::pow(d(0) - c, -p); b = std::pow(d(1) - c, -p); assume(gt(a, 0) && gt(b, 0)); assume(implies(le(d(0), d(1)), ge(a, b)) && implies(le(d(1), d(0)), ge(b, a))); }
  Eigen::ArrayXd w = Modulation::weight_obstacles(d, c, p);
  check("sum", near(w(0) + w(1), 1)); check("non-negative", ge(w(0), 0) && ge(w(1), 0));
  if (none) { check("closer", implies(le(d(0), d(1)), ge(w(0), w(1)))); check("ratio", near(w(0) * b, w(1) * a)); }
}
// five to ten obstacles, two of them at any distance and the rest beyond the critical distance, or up to all of them at it
HARNESS(many) { int n = integer("n", 5, 10), i0 = integer("first", 0, n - 2), i1 = integer("second", i0 + 1, n - 1); double c = real("c", 0, 3), a = real("d", -1, 50), b = real("d", -1, 50); Eigen::ArrayXd d(n); for (int i = 0; i < n; ++i) d(i) = i == i0 ? a : i == i1 ? b : c + 1 + 0.5 * i;
  Eigen::ArrayXd w = Modulation::weight_obstacles(d, c, 1); bool ca = truth(le(a, c)), cb = truth(le(b, c)); int k = ca + cb; check("size", lit(w.size() == n)); double s = 0; for (int i = 0; i < n; ++i) s = s + w(i); check("sum", near(s, 1));
  for (int i = 0; i < n; ++i) { if (k) check("critical-share", near(w(i), (i == i0 && ca) || (i == i1 && cb) ? 1.0 / k : 0.0)); else { check("non-negative", ge(w(i), 0)); check("proportional", near(w(i) * (d(i) - c), w(0) * (d(0) - c))); } } }
HARNESS(many_in_contact) { int n = integer("n", 5, 8); double c = real("c", 0, 3); Eigen::ArrayXd d(n); int k = 0; std::vector<bool> in; for (int i = 0; i < n; ++i) { in.push_back(boolean("in")); k += in[i]; d(i) = in[i] ? c - 0.25 * (i % 3) : c + 1 + 0.5 * i; }
  assume(lit(k > 0)); Eigen::ArrayXd w = Modulation::weight_obstacles(d, c, 2); for (int i = 0; i < n; ++i) check("critical-share", near(w(i), in[i] ? 1.0 / k : 0.0)); }
