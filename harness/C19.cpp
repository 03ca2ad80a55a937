// BOUNDS: two or three (five at fixed distances) obstacles, the one in contact at any place in the list; fixed rational normals and reference directions, symbolic distance values in [0,1000], critical distance in [0.5,3], agent velocity in the plane or space within [-100,100], obstacle velocities in [-100,100]; order and repetition of up to three obstacles
// REPLACED: normals and distances of the obstacles (stand-in obstacles)
#include "common.h"
static const Vector3d NRM[3] = {Vector3d(1, 0, 0), Vector3d(0, 1, 0), Vector3d(0, 0, 1)};
static const Vector3d OFF[3] = {Vector3d(2, 0, 0), Vector3d(3, 4, 0), Vector3d(0, 3, 4)};
static const Vector3d AT(1, -2, 0.5);
// obstacle k seen from the agent at AT
static std::shared_ptr<Stub> mk(const std::string& name, int k, double d, const Vector3d& lin) {
  Vector3d p(AT(0) - OFF[k](0), AT(1) - OFF[k](1), AT(2) - OFF[k](2)); auto o = std::make_shared<Stub>(name, State(p)); o->normal = NRM[k]; o->dist = d; o->set_linear_velocity(lin); return o;
}
static Vector3d run(const Obs& l, const Vector3d& v, double crit) { Environment env(false); for (auto& o : l) env.add_obstacle(o); env.update(); Agent ag{State(AT)}; ag.set_linear_velocity(v); return Modulation::modulate_velocity(ag, env, false, false, false, crit); }
static const Vector3d Z(0, 0, 0);
static void contact(int n, int which, int first, const Vector3d& v, double crit, bool moving) {
  Obs l; OPtr alone; static const char* nm[3] = {"a", "b", "c"};
  for (int i = 0; i < n; ++i) { double d = real("d", 0, 1000); if (i == which) assume(le(d, crit)); else assume(gt(d, crit));
    auto o = mk(nm[i], (first + i) % 3, d, moving ? (i == which ? Vector3d(real("lin", -100, 100), 0, 0) : vec("olin", -100, 100)) : Z); l.push_back(o); if (i == which) alone = o; }
  Vector3d a = run(l, v, crit), b = run(Obs{alone}, v, crit);
  check("contact-decides", near(a, b));
}
HARNESS(first_of_two) { contact(2, 0, 0, vec2("v", -100, 100), 1, false); }
HARNESS(last_of_two) { contact(2, 1, 0, vec2("v", -100, 100), 1, false); }
HARNESS(first_of_two_space) { contact(2, 0, 1, vec("v", -100, 100), 1, false); }
HARNESS(middle_of_three) { contact(3, 1, 0, vec2("v", -100, 100), 1, false); }
HARNESS(last_of_three) { contact(3, 2, 0, vec2("v", -100, 100), 1, false); }
HARNESS(any_critical) { contact(2, 1, 0, vec2("v", -100, 100), real("crit", 0.5, 3), false); }
HARNESS(moving_first) { contact(2, 0, 0, vec2("v", -100, 100), 1, true); }
HARNESS(moving_last) { contact(2, 1, 0, vec2("v", -100, 100), 1, true); }
static void order(int n, const std::vector<int>& perm, const Vector3d& v, bool moving) {
  std::vector<double> d; std::vector<Vector3d> lin; static const char* nm[3] = {"a", "b", "c"};
  for (int i = 0; i < n; ++i) { d.push_back(real("d", 1, 1000)); assume(gt(d[i], 1)); lin.push_back(moving ? Vector3d(real("lin", -100, 100), 0, 0) : Z); }
  Obs a, b; for (int i = 0; i < n; ++i) { a.push_back(mk(nm[i], i, d[i], lin[i])); b.push_back(mk(nm[i], perm[i], d[perm[i]], lin[perm[i]])); }
  check("order", near(run(a, v, 1), run(b, v, 1)));
}
HARNESS(order_two) { order(2, {1, 0}, vec2("v", -100, 100), false); }
HARNESS(order_two_moving) { order(2, {1, 0}, Vector3d(real("v", -100, 100), 0, 0), true); }
HARNESS(deep_order_two_moving) { order(2, {1, 0}, vec2("v", -100, 100), true); }
HARNESS(order_two_vertical) { order(2, {1, 0}, Vector3d(0, 0, real("v", -100, 100)), false); }
HARNESS(order_three_axis) { order(3, {2, 0, 1}, Vector3d(real("v", -100, 100), 0, 0), false); }
static void twins(int n, int k, bool close, const Vector3d& v) {
  double d = close ? real("d", 0, 1) : real("d", 1, 1000); if (!close) assume(gt(d, 1)); Vector3d lin(real("lin", -100, 100), 0, 0); if (!close) lin = Z; static const char* nm[3] = {"a", "b", "c"};
  Obs l; for (int i = 0; i < n; ++i) l.push_back(mk(nm[i], k, d, lin));
  check("act-as-one", near(run(l, v, 1), run(Obs{l[0]}, v, 1)));
}
HARNESS(twins_contact) { twins(2, 1, true, vec2("v", -100, 100)); }
HARNESS(twins_away) { twins(2, 1, false, vec2("v", -100, 100)); }
HARNESS(triplets_away) { twins(3, 0, false, vec2("v", -100, 100)); }
// five obstacles
HARNESS(one_of_five) { int which = integer("which", 0, 4); static const char* nm[5] = {"a", "b", "c", "d", "e"}; Obs l; OPtr alone; Vector3d v = vec2("v", -100, 100); double d = real("d", 0, 1);
  for (int i = 0; i < 5; ++i) { auto o = mk(nm[i], i % 3, i == which ? d : 1.5 + i, i == which ? Z : Vector3d(0, 1, 0)); l.push_back(o); if (i == which) alone = o; }
  check("contact-decides", near(run(l, v, 1), run(Obs{alone}, v, 1))); }
HARNESS(order_five) { static const double D[5] = {1.5, 4, 2, 7, 3}; static const char* nm[5] = {"a", "b", "c", "d", "e"}; static const int perm[5] = {3, 0, 4, 1, 2}; Vector3d v = vec2("v", -100, 100); Obs a, b; for (int i = 0; i < 5; ++i) { a.push_back(mk(nm[i], i % 3, D[i], Z)); b.push_back(mk(nm[i], perm[i] % 3, D[perm[i]], Z)); } check("order", near(run(a, v, 1), run(b, v, 1))); }
