// BOUNDS: counts 2..12, 50, 64, 100, 129, 250, 257, 500 and 1000 (thorough also 13..40, 1025, 2000, 4100, 10001) and every count from -6 to 1 for rejection; every pair of interval ends within [-100,100], in either order or equal; grids up to 5 x 5 (thorough 12 x 12) and of 9, 16, 17, 40, 100 or 130 along one axis (thorough 30 x 33, 33 x 30, 7 x 150)
#include "common.h"
#include <exception>
static void line(int n) { double a = real("a", -100, 100), b = real("b", -100, 100); std::vector<double> v = MathTools::linspace(a, b, n); check("count", lit((int)v.size() == n)); if ((int)v.size() != n) return;
  check("starts-exactly", same(v[0], a)); check("ends-exactly", same(v[n - 1], b)); for (int i = 0; i < n; ++i) check("even", near(v[i] * (n - 1), a * (n - 1 - i) + b * i, 1e-6)); }
HARNESS(points_2_12) { line(integer("n", 2, 12)); }
HARNESS(points_50) { line(50); }
HARNESS(points_100) { line(100); }
HARNESS(deep_points_13_40) { line(integer("n", 13, 40)); }
HARNESS(points_many) { static const int N[] = {64, 129, 250, 257, 500, 1000}; line(N[pick("n", 6)]); }
HARNESS(deep_points_many) { static const int N[] = {1025, 2000, 4100, 10001}; line(N[pick("n", 4)]); }
HARNESS(rejected) { int n = integer("n", -6, 1); double a = real("a", -100, 100), b = real("b", -100, 100); bool ok = false, other = false; try { MathTools::linspace(a, b, n); } catch (const std::exception&) { ok = true; } catch (...) { other = true; } check("standard-exception", lit(ok && !other)); }
HARNESS(empty_interval) { double a = real("a", -100, 100); int n = integer("n", 2, 6); for (double x : MathTools::linspace(a, a, n)) check("all-there", near(x, a)); }
HARNESS(monotone) { double a = real("a", -100, 100), b = real("b", -100, 100); assume(lt(a, b)); int n = integer("n", 2, 8); std::vector<double> v = MathTools::linspace(a, b, n); for (int i = 0; i + 1 < n; ++i) check("increasing", lt(v[i], v[i + 1])); std::vector<double> w = MathTools::linspace(b, a, n); for (int i = 0; i < n; ++i) check("reversed", near(w[i], v[n - 1 - i])); }
static void grid(int n, int m) { double a = real("a", -100, 100), b = real("b", -100, 100), c = real("c", -100, 100), d = real("d", -100, 100);
  std::vector<Eigen::Vector2d> g = MathTools::gridspace({a, b}, {c, d}, {n, m}); check("count", lit((int)g.size() == n * m)); if ((int)g.size() != n * m) return;
  check("corners", same(g[0](0), a) && same(g[0](1), b) && same(g[n * m - 1](0), c) && same(g[n * m - 1](1), d) && same(g[m - 1](0), a) && same(g[m - 1](1), d));
  for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) check("combination", near(g[i * m + j](0) * (n - 1), a * (n - 1 - i) + c * i, 1e-6) && near(g[i * m + j](1) * (m - 1), b * (m - 1 - j) + d * j, 1e-6)); }
HARNESS(grids) { int n = integer("n", 2, 5); grid(n, integer("m", 2, 5)); }
HARNESS(grids_large) { static const int N[] = {5, 9, 3, 40, 2, 17, 100}, M[] = {9, 5, 40, 3, 130, 16, 2}; int k = pick("k", 7); grid(N[k], M[k]); }
HARNESS(deep_grids_large) { static const int N[] = {30, 33, 7}, M[] = {33, 30, 150}; int k = pick("k", 3); grid(N[k], M[k]); }
HARNESS(deep_grids) { int n = integer("n", 2, 12); grid(n, integer("m", 2, 12)); }
HARNESS(grid_rejected) { int n = integer("n", -2, 4), m = integer("m", -2, 4); if (n >= 2 && m >= 2) return; bool ok = false; try { MathTools::gridspace({real("a", -5, 5), real("b", -5, 5)}, {real("c", -5, 5), real("d", -5, 5)}, {n, m}); } catch (const std::exception&) { ok = true; } check("standard-exception", lit(ok)); }
