// BOUNDS: every unit normal, every reference direction at an acute angle to it (cosine at least 0.01), any unit orientation, positions in [-1000,1000]^3, any distance value in [0,1000]; real ellipsoids with any axis lengths in [0.2,5]
// REPLACED: normal and distance of the obstacle are symbolic (a stand-in obstacle) in the entries about arbitrary obstacles
#include "common.h"
struct Scene { std::shared_ptr<Stub> o; Vector3d n, l; double d; Agent ag; };
static Scene scene(const Quaterniond& q, const Vector3d& n, const Vector3d& l, double d) {
  auto o = std::make_shared<Stub>("o", State(vec("p", -1000, 1000), q), vec("r", -1000, 1000)); o->normal = n; o->dist = d;
  return Scene{o, n, l, d, Agent(State(add(o->get_reference_position(), rot(q, l))))};
}
static void spectrum(const Quaterniond& q, const Vector3d& n, const Vector3d& l, bool contact) {
  double d = contact ? real("d", 0, 1) : real("d", 1, 1000); if (!contact) assume(gt(d, 1));
  assume(gt(dot(l, n), 0.01));
  Scene s = scene(q, n, l, d); auto r = Modulation::compute_modulation_matrix(s.ag, *s.o); Matrix3d M = std::get<0>(r);
  check("distance", near(std::get<2>(r), d)); check("basis-normal", near(Vector3d(std::get<1>(r).col(0)), n));
  double delta = contact ? 1.0 : 1 / d; Vector3d wl = rot(q, l), a = M * wl; double lr = 1 - delta, lt_ = 1 + delta;
  check("reference-eigenvector", near(a, Vector3d(lr * wl(0), lr * wl(1), lr * wl(2))));
  Vector3d e[3] = {Vector3d(1, 0, 0), Vector3d(0, 1, 0), Vector3d(0, 0, 1)};
  for (int i = 0; i < 3; ++i) { Vector3d t = rot(q, n.cross(e[i])), b = M * t; check("tangent-eigenvector", near(b, Vector3d(lt_ * t(0), lt_ * t(1), lt_ * t(2)))); }
  if (contact) { Vector3d wn = rot(q, n), z = M.transpose() * wn; check("impenetrable", near(z, Vector3d(0, 0, 0))); }
}
static Quaterniond id() { return Quaterniond(1, 0, 0, 0); }
HARNESS(aligned_contact) { spectrum(id(), unit_vec("n"), vec("l", -40, 40), true); }
HARNESS(aligned_away) { spectrum(id(), unit_vec("n"), vec("l", -40, 40), false); }
HARNESS(yaw_contact) { spectrum(yaw_quat("q"), unit_vec("n"), vec("l", -40, 40), true); }
HARNESS(rot_contact) { spectrum(unit_quat("q"), unit_vec("n"), vec("l", -40, 40), true); }
HARNESS(rot_away) { spectrum(unit_quat("q"), unit_vec("n"), vec("l", -40, 40), false); }
HARNESS(rot_up) { spectrum(unit_quat("q"), Vector3d(0, 0, 1), vec("l", -40, 40), false); }
HARNESS(rot_down_contact) { spectrum(unit_quat("q"), Vector3d(0, 0, -1), vec("l", -40, 40), true); }
HARNESS(rot_radial) { Vector3d n = unit_vec("n"); double t = real("t", 0.05, 40); spectrum(unit_quat("q"), n, Vector3d(t * n(0), t * n(1), t * n(2)), false); }
// the real ellipsoid, agent on its surface: every velocity loses its normal component
HARNESS(ellipsoid_surface) {
  Ellipsoid e("e", State(vec("p", -1000, 1000), id())); double L[3] = {real("L.x", 0.2, 5), real("L.y", 0.2, 5), real("L.z", 0.2, 5)}; e.set_axis_lengths(Array3d(L[0], L[1], L[2]));
  Vector3d u = unit_vec("u"); Vector3d l(L[0] * u(0), L[1] * u(1), L[2] * u(2)); Agent ag{State(add(e.get_position(), l))};
  auto r = Modulation::compute_modulation_matrix(ag, e); Matrix3d M = std::get<0>(r); check("on-surface", near(std::get<2>(r), 1));
  Vector3d g(u(0) / L[0], u(1) / L[1], u(2) / L[2]), z = M.transpose() * g; check("ellipsoid-impenetrable", near(z, Vector3d(0, 0, 0)));
}
