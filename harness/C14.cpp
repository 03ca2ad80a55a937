// BOUNDS: every unit normal; any unit orientation, position and reference point in [-1000,1000]^3, agent in [-1000,1000]^3 off the reference point
// REPLACED: the obstacle (a stand-in with symbolic pose and reference point)
#include "common.h"
static void go(const Vector3d& n) {
  Stub o("o", State(vec("p", -1000, 1000), unit_quat("q")), vec("r", -1000, 1000)); Vector3d l = vec("l", -1000, 1000);
  // agent = reference point + rotated offset
  assume(gt(sqn(l), 1e-6)); Vector3d ap = add(o.get_reference_position(), rot(o.get_orientation(), l));
  Agent ag{State(ap)};
  auto b = Modulation::compute_basis_matrices(n, ag, o); Matrix3d R = b.first, O = b.second;
  Matrix3d I; I << 1, 0, 0, 0, 1, 0, 0, 0, 1; Matrix3d OtO = O.transpose() * O;
  check("orthonormal", near(OtO, I));
  check("first-is-normal", near(Vector3d(O.col(0)), n));
  Vector3d r0 = R.col(0), t1 = R.col(1), t2 = R.col(2);
  double ln = std::sqrt(sqn(l));
  check("reference-direction", near(r0, Vector3d(l(0) / ln, l(1) / ln, l(2) / ln)));
  check("tangents", near(dot(t1, n), 0) && near(dot(t2, n), 0));
  check("independent", gt(sqn(t1.cross(t2)), 0.25));
  check("unit-tangents", near(sqn(t1), 1) && near(sqn(t2), 1));
}
HARNESS(any_normal) { go(unit_vec("n")); }
HARNESS(horizontal) { double c = real("c", -1, 1), s = real("s", -1, 1); assume(eq(c * c + s * s, 1)); go(Vector3d(c, s, 0)); }
HARNESS(up) { go(Vector3d(0, 0, 1)); }
HARNESS(down) { go(Vector3d(0, 0, -1)); }
HARNESS(axis) { go(Vector3d(1, 0, 0)); }
HARNESS(at_reference) {  // no NaN even there: Eigen leaves a zero vector alone
  Stub o("o", State(vec("p", -1000, 1000), unit_quat("q")), vec("r", -1000, 1000)); Agent ag{State(o.get_reference_position())};
  Vector3d n = unit_vec("n"); auto b = Modulation::compute_basis_matrices(n, ag, o); Matrix3d O = b.second, I; I << 1, 0, 0, 0, 1, 0, 0, 0, 1; Matrix3d OtO = O.transpose() * O;
  check("orthonormal-there", near(OtO, I));
}
