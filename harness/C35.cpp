// BOUNDS: axis lengths in [0.05,10], margins in [0,5], scale factors in [0.1,10]
#include "common.h"
typedef std::shared_ptr<Ellipsoid> El;
static El any(const Array3d& a, const Array3d& m) { static int k = 0; ++k; auto e = k % 2 ? std::make_shared<Ellipsoid>("e", State(vec("p", -20, 20), unit_quat("q")), m) : std::make_shared<Ellipsoid>("e", State(vec("o", -20, 20), yaw_quat("w")), m); e->set_reference_position(vec(k % 2 ? "r" : "s", -20, 20)); e->set_axis_lengths(a); return e; }
static const double PI4 = 4 * M_PI;
HARNESS(sphere) { double r = real("r", 0.05, 10); El e = any(Array3d(r, r, r), Array3d(0, 0, 0)); check("bare", near(e->area(false), PI4 * r * r)); check("no-margin", near(e->area(true), PI4 * r * r)); }
HARNESS(sphere_with_margin) { double r = real("r", 0.05, 10), m = real("m", 0, 5); El e = any(Array3d(r, r, r), Array3d(m, m, m)); check("inflated", near(e->area(), PI4 * (r + m) * (r + m))); check("bare", near(e->area(false), PI4 * r * r)); }
HARNESS(margin_exactly_when_asked) { Array3d a = arr("a", 0.05, 10), m = arr("m", 0, 5); El e = any(a, m), f = any(Array3d(a + m), Array3d(0, 0, 0)), g = any(a, Array3d(0, 0, 0)); check("included", near(e->area(true), f->area(false))); check("left-out", near(e->area(false), g->area(true))); }
HARNESS(any_order_of_axes) { double a = real("a", 0.05, 10), b = real("b", 0.05, 10), c = real("c", 0.05, 10); double s = any(Array3d(a, b, c), Array3d(0, 0, 0))->area(); check("swapped", near(s, any(Array3d(b, a, c), Array3d(0, 0, 0))->area())); check("turned", near(s, any(Array3d(c, a, b), Array3d(0, 0, 0))->area())); }
HARNESS(scales_with_the_square) { double a = real("a", 0.05, 10), b = real("b", 0.05, 10), c = real("c", 0.05, 10), k = real("k", 0.1, 10); check("quadratic", near(any(Array3d(k * a, k * b, k * c), Array3d(0, 0, 0))->area(), k * k * any(Array3d(a, b, c), Array3d(0, 0, 0))->area())); }
HARNESS(two_equal_axes) { double a = real("a", 0.05, 10), t = real("t", 1, 4); double s = any(Array3d(a, a, t * a), Array3d(0, 0, 0))->area(); check("at-least-the-sphere", ge(s, PI4 * a * a * (1 - 1e-9))); check("below-the-outer-sphere", le(s, PI4 * t * t * a * a * (1 + 1e-9))); }
HARNESS(between_spheres) { double a = real("a", 0.05, 10), b = real("b", 1, 4), c = real("c", 1, 4); double s = any(Array3d(a, b * a, c * a), Array3d(0, 0, 0))->area(); check("at-least-the-inner-sphere", ge(s, PI4 * a * a * (1 - 1e-9))); }
