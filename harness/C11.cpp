// BOUNDS: 1..4 members (thorough: 5), all positions in [-1000,1000]^3, every insertion order, nine members in every rotation of their order and its reverse, built at once or one by one; any new reference point
// REPLACED: the primitives' crossing points (none)
#include "common.h"
struct Prim : public Ellipsoid { using Ellipsoid::Ellipsoid; int rays = 0; std::vector<Vector3d> from;
  std::pair<bool, std::pair<Vector3d, Vector3d>> compute_interesection_points(const Vector3d& a, const Vector3d&) override { if (from.size() < 3) from.push_back(a); ++rays; return {false, {Vector3d(0, 0, 0), Vector3d(0, 0, 0)}}; } };
static std::vector<int> permutation(int n) { std::vector<int> left, r; for (int i = 0; i < n; ++i) left.push_back(i); while (!left.empty()) { int k = left.size() > 1 ? pick("order", left.size()) : 0; r.push_back(left[k]); left.erase(left.begin() + k); } return r; }
static const char* NM[5] = {"ab", "b", "c", "d", "e"};
static void verify(const Aggregate& g, const std::vector<OPtr>& m, const char* when) {
  int n = m.size(); std::string nm = "aggregate"; Vector3d c(0, 0, 0);
  for (auto& o : m) { nm += "_" + o->get_name(); c = add(c, o->get_position()); }
  for (int i = 0; i < 3; ++i) c(i) = c(i) / n;
  check("name", lit(g.get_name() == nm)); check("type", lit(g.get_type() == "Aggregate"));
  bool ord = g.get_primitives().size() == m.size(); for (int i = 0; ord && i < n; ++i) ord = g.get_primitives()[i] == m[i];
  check("members-in-order", lit(ord));
  check("centre", near(g.get_position(), c)); check("reference", near(g.get_reference_position(), c));
  for (auto& o : m) check("shared-reference", near(o->get_reference_position(), c));
}
static void go(int n, int how) {
  std::vector<OPtr> m; std::vector<Vector3d> p; for (int i = 0; i < n; ++i) { p.push_back(vec("p", -1000, 1000)); m.push_back(std::make_shared<Prim>(NM[i], State(p[i]))); }
  auto o = permutation(n); std::shared_ptr<Aggregate> g;
  if (how == 0) { Obs d; for (int k : o) d.push_back(m[k]); g = std::make_shared<Aggregate>(d); }
  else { g = std::make_shared<Aggregate>(); std::vector<OPtr> now; for (size_t i = 0; i < o.size(); ++i) { g->add_primitive(m[o[i]], how == 1); now.push_back(m[o[i]]); std::vector<OPtr> s = now; std::sort(s.begin(), s.end(), [](const OPtr& a, const OPtr& b) { return a->get_name() < b->get_name(); }); verify(*g, s, "step"); } }
  verify(*g, m, "end");
  for (int i = 0; i < n; ++i) check("members-do-not-move", same(m[i]->get_position(), p[i]));
  if (how < 2) for (auto& x : m) { auto& q = static_cast<Prim&>(*x); check("hull-from-reference", lit(q.rays > 0)); check("rays-start-at-reference", n == 1 || how == 0 ? near(q.from.back(), g->get_reference_position()) : yes()); }
  Vector3d r = vec("r", -1000, 1000); g->set_reference_position(r);
  check("set-reference", same(g->get_reference_position(), r)); for (auto& x : m) check("set-reference-members", same(x->get_reference_position(), r));
  check("set-reference-keeps-centre", near(g->get_position(), Vector3d((p[0](0) + (n > 1 ? p[1](0) : 0) + (n > 2 ? p[2](0) : 0) + (n > 3 ? p[3](0) : 0) + (n > 4 ? p[4](0) : 0)) / n, g->get_position()(1), g->get_position()(2))));
  Obstacle& base = *g; base.set_reference_position(p[0]); for (auto& x : m) check("through-base", same(x->get_reference_position(), p[0]));
}
HARNESS(one) { go(1, pick("how", 3)); }
HARNESS(two) { go(2, pick("how", 3)); }
HARNESS(three_at_once) { go(3, 0); }
HARNESS(three_one_by_one) { go(3, 2); }
HARNESS(three_one_by_one_hull) { go(3, 1); }
HARNESS(four_one_by_one) { go(4, 2); }
HARNESS(four_at_once) { go(4, 0); }
HARNESS(deep_five_one_by_one) { go(5, 2); }
HARNESS(deep_four_hull) { go(4, 1); }
// nine members added in some rotation of their order, forwards or backwards
HARNESS(nine) { static const char* nm[9] = {"B", "a", "a1", "a10", "a2", "aa", "b", "b_c", "c"}; std::vector<OPtr> m; std::vector<Vector3d> p; for (int i = 0; i < 9; ++i) { p.push_back(vec("p", -1000, 1000)); m.push_back(std::make_shared<Prim>(nm[i], State(p[i]))); }
  int from = integer("from", 0, 8); bool back = boolean("backwards"), once = boolean("at_once"); Obs d; for (int i = 0; i < 9; ++i) d.push_back(m[back ? (from + 9 - i) % 9 : (from + i) % 9]); std::shared_ptr<Aggregate> g; if (once) g = std::make_shared<Aggregate>(d); else { g = std::make_shared<Aggregate>(); for (auto& x : d) g->add_primitive(x, false); } verify(*g, m, "end"); }
