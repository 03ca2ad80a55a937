// BOUNDS: distance in [0,1000]; reactivity factor 1 (default), 1/2, 1/3, 1/4, 2 and an arbitrary real one in [0.1,10] (power uninterpreted but for monotonicity facts)
#include "common.h"
static void go(double d, const Eigen::DiagonalMatrix<double, 3>& D, double expect) {
  double r = D.diagonal()(0), t = D.diagonal()(1), t2 = D.diagonal()(2);
  check("same-tangents", same(t, t2)); check("sum", near(r + t, 2));
  check("reference-range", ge(r, 0) && lt(r, 1)); check("tangent-range", gt(t, 1) && le(t, 2));
  check("contact", implies(le(d, 1), eq(r, 0) && eq(t, 2)));
  check("value", implies(gt(d, 1), near(r, expect)));
}
HARNESS(default_factor) { double d = real("d", 0, 1000); go(d, Modulation::compute_diagonal_eigenvalues(d), 1 - 1 / d); }
HARNESS(half) { double d = real("d", 0, 1000); go(d, Modulation::compute_diagonal_eigenvalues(d, 0.5), 1 - 1 / (d * d)); }
HARNESS(quarter) { double d = real("d", 0, 1000); go(d, Modulation::compute_diagonal_eigenvalues(d, 0.25), 1 - 1 / (d * d * d * d)); }
HARNESS(twice) { double d = real("d", 0, 1000); go(d, Modulation::compute_diagonal_eigenvalues(d, 2.0), 1 - 1 / std::sqrt(d)); }
HARNESS(increasing) {
  double a = real("a", 0, 1000), b = real("b", 0, 1000); assume(lt(a, b)); double f = integer("f", 1, 3) / 4.0; if (f == 0.75) f = 1;
  double x = Modulation::compute_diagonal_eigenvalues(a, f).diagonal()(0), y = Modulation::compute_diagonal_eigenvalues(b, f).diagonal()(0);
  check("strict", implies(gt(b, 1), lt(x, y))); check("weak", le(x, y));
}
HARNESS(far) { double d = real("d", 1000, 1e9); auto D = Modulation::compute_diagonal_eigenvalues(d); check("tends-to-one", gt(D.diagonal()(0), 0.9989) && lt(D.diagonal()(1), 1.0011)); }
HARNESS(any_factor) {
  double d = real("d", 0, 1000), f = real("f", 0.1, 10);
  if (truth(gt(d, 1))) assume(gt(std::pow(d, 1.0 / f), 1));   // x^y > 1 for x > 1, y > 0
  auto D = Modulation::compute_diagonal_eigenvalues(d, f); double r = D.diagonal()(0), t = D.diagonal()(1);
  check("range", ge(r, 0) && lt(r, 1) && gt(t, 1) && le(t, 2)); check("sum", near(r + t, 2)); check("contact", implies(le(d, 1), eq(r, 0)));
  check("away", implies(gt(d, 1), gt(r, 0)));
}
