// BOUNDS: positions, points in [-50,50]^3; every unit quaternion with non-negative scalar part
#include "common.h"
HARNESS(apply) {
  Pose a(vec("pa", -50, 50), unit_quat("qa")), b(vec("pb", -50, 50), unit_quat("qb"));
  Vector3d v = vec("v", -50, 50);
  check("product", near((a * b) * v, a * (b * v)));
}
HARNESS(inplace) {
  Pose a(vec("pa", -50, 50), unit_quat("qa")), b(vec("pb", -50, 50), unit_quat("qb"));
  Pose a0(a), b0(b), ab = a * b;
  check("operands", same(a.get_position(), a0.get_position()) && same(a.get_orientation(), a0.get_orientation()) && same(b.get_position(), b0.get_position()) && same(b.get_orientation(), b0.get_orientation()));
  Pose c(a); Pose& r = (c *= b);
  check("returns-self", &r == &c);
  check("position", near(c.get_position(), ab.get_position()));
  check("orientation", near(c.get_orientation(), ab.get_orientation()));
  check("right-kept", same(b.get_position(), b0.get_position()) && same(b.get_orientation(), b0.get_orientation()));
  check("unit", near(sqn(ab.get_orientation()), 1));
}
HARNESS(self) {
  Pose a(vec("pa", -50, 50), unit_quat("qa")); Pose aa = a * a, c(a); c *= c;
  Vector3d v = vec("v", -50, 50);
  check("self-position", near(c.get_position(), aa.get_position()));
  check("self-orientation", near(c.get_orientation(), aa.get_orientation()));
  check("self-apply", near(aa * v, a * (a * v)));
}
HARNESS(inverse) {
  Pose a(vec("pa", -50, 50), unit_quat("qa")); Pose a0(a), i = a.inverse(), l = i * a, r = a * i;
  Vector3d v = vec("v", -50, 50);
  check("left-position", near(l.get_position(), Vector3d(0, 0, 0)));
  check("right-position", near(r.get_position(), Vector3d(0, 0, 0)));
  check("left-orientation", near(l.get_orientation(), Quaterniond(1, 0, 0, 0)) || near(l.get_orientation(), Quaterniond(-1, 0, 0, 0)));
  check("right-orientation", near(r.get_orientation(), Quaterniond(1, 0, 0, 0)) || near(r.get_orientation(), Quaterniond(-1, 0, 0, 0)));
  check("left-apply", near(i * (a * v), v));
  check("right-apply", near(a * (i * v), v));
  check("operand", same(a.get_position(), a0.get_position()) && same(a.get_orientation(), a0.get_orientation()));
  check("unit", near(sqn(i.get_orientation()), 1));
}
HARNESS(product_inverse) {
  Pose a(vec("pa", -20, 20), unit_quat("qa")), b(vec("pb", -20, 20), unit_quat("qb"));
  Vector3d v = vec("v", -20, 20);
  check("reversed", near((a * b).inverse() * v, b.inverse() * (a.inverse() * v)));
}
HARNESS(isometry) {
  Pose a(vec("pa", -50, 50), unit_quat("qa")); Pose a0(a);
  Vector3d u = vec("u", -50, 50), v = vec("v", -50, 50), d = a * u - a * v, e = u - v;
  check("distance", near(sqn(d), sqn(e)));
  // orientation (handedness) is kept too: the image of a cross product is the cross product of the images
  Vector3d cu = a * u - a * Vector3d(0, 0, 0), cv = a * v - a * Vector3d(0, 0, 0), cc = a * u.cross(v) - a * Vector3d(0, 0, 0);
  check("handedness", near(cu.cross(cv), cc));
  check("kept", same(a.get_position(), a0.get_position()) && same(a.get_orientation(), a0.get_orientation()));
}
HARNESS(identity) {
  Vector3d v = vec("v", -50, 50);
  check("default", near(Pose() * v, v));
  Pose a(vec("pa", -50, 50), unit_quat("qa")), l = Pose() * a, r = a * Pose();
  check("neutral", near(l.get_position(), a.get_position()) && near(r.get_position(), a.get_position()) && near(l.get_orientation(), a.get_orientation()) && near(r.get_orientation(), a.get_orientation()));
  Vector3d t = vec("t", -50, 50);
  check("translation", near(Pose(t) * v, t + v) && near(Pose(t(0), t(1), t(2)) * v, t + v));
}
