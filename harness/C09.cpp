// BOUNDS: 0..5 obstacles (thorough: 6), every symmetric intersection relation between them, in every given order of names for 3; 6 to 8 obstacles holding three or four given intersecting pairs, 8 or 9 of the other relations arbitrary (thorough: all 12 for 6)
// REPLACED: the pairwise intersection test (one symbolic truth value per unordered pair) and the primitives' crossing points (none)
#include "common.h"
#include <functional>
struct Node; static std::function<int(const std::string&, const std::string&)> given = nullptr; static std::map<std::pair<std::string, std::string>, bool> rel;
static bool related(const std::string& a, const std::string& b) { auto k = a < b ? std::make_pair(a, b) : std::make_pair(b, a); auto it = rel.find(k); if (it == rel.end()) { int g = given ? given(k.first, k.second) : -1; it = rel.insert({k, g >= 0 ? g == 1 : boolean("rel-" + k.first + "-" + k.second)}).first; } return it->second; }
struct Node : public Ellipsoid { using Ellipsoid::Ellipsoid; Vector3d asked{0, 0, 0}; int rays = 0;
  bool is_intersecting_ellipsoid(const Ellipsoid& o) const override { return related(get_name(), o.get_name()); }
  std::pair<bool, std::pair<Vector3d, Vector3d>> compute_interesection_points(const Vector3d& a, const Vector3d&) override { asked = a; ++rays; return {false, {Vector3d(0, 0, 0), Vector3d(0, 0, 0)}}; } };
static void go(std::vector<std::string> names) {
  rel.clear(); Obs l; int n = names.size(); double k = 0;
  for (auto& x : names) { k = k * 2 + 1; l.push_back(std::make_shared<Node>(x, State(Vector3d(k, 10 * k * k, 1 - k)))); }
  Obs kept = l;
  Obs r = Aggregation::aggregate_obstacles(l);
  check("input-kept", lit(l == kept));
  // connected components
  std::vector<int> comp(n); for (int i = 0; i < n; ++i) comp[i] = i;
  for (int rep = 0; rep < n; ++rep) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && related(names[i], names[j])) { int m = std::min(comp[i], comp[j]); comp[i] = comp[j] = m; }
  std::map<int, std::set<Obstacle*>> want; for (int i = 0; i < n; ++i) want[comp[i]].insert(l[i].get());
  check("group-count", lit(r.size() == want.size()));
  std::multiset<std::set<Obstacle*>> have, ref; for (auto& w : want) ref.insert(w.second);
  std::set<Obstacle*> orig; for (auto& o : l) orig.insert(o.get());
  bool dup = false, fresh = true, hull = true;
  for (auto& o : r) {
    if (orig.count(o.get())) { have.insert({o.get()}); continue; }
    if (o->get_type() != "Aggregate") { check("unknown-object", no()); continue; }
    auto& g = static_cast<Aggregate&>(*o); std::set<Obstacle*> m; for (auto& p : g.get_primitives()) { if (!m.insert(p.get()).second) dup = true; if (!orig.count(p.get())) fresh = false; }
    if (m.size() < 2) dup = true; have.insert(m);
    for (auto* p : m) { auto* nd = static_cast<Node*>(p); if (!nd->rays || (nd->asked - g.get_reference_position()).norm() > 1e-9) hull = false; }
  }
  check("members-once", lit(!dup && fresh)); check("components", lit(have == ref));
  check("hull-of-all-members", lit(hull));
}
HARNESS(none) { go({}); }
HARNESS(one) { go({"a"}); }
HARNESS(two) { go({"a", "b"}); }
HARNESS(three_orders) { const char* o[6] = {"abc", "acb", "bac", "bca", "cab", "cba"}; std::string s = o[integer("order", 0, 5)]; go({s.substr(0, 1), s.substr(1, 1), s.substr(2, 1)}); }
HARNESS(four) { go({"a", "b", "c", "d"}); }
HARNESS(four_reversed) { go({"d", "c", "b", "a"}); }
HARNESS(five) { go({"a", "b", "c", "d", "e"}); }
HARNESS(deep_five_mixed) { go({"c", "a", "e", "b", "d"}); }
HARNESS(deep_six) { go({"a", "b", "c", "d", "e", "f"}); }
// three groups formed early, then joined in any way
static bool one_of(const std::string& x, std::initializer_list<const char*> l) { for (auto* y : l) if (x == y) return true; return false; }
HARNESS(six_in_pairs) { given = [](const std::string& a, const std::string& b) { std::string x = a + b; return one_of(x, {"ad", "be", "cf"}) ? 1 : one_of(x, {"ae", "bf", "cd"}) ? 0 : -1; }; go({"a", "b", "c", "d", "e", "f"}); }
HARNESS(seven_in_pairs) { given = [](const std::string& a, const std::string& b) { std::string x = a + b; return one_of(x, {"ae", "bf", "cg"}) ? 1 : one_of(x, {"ab", "ac", "bc", "ad", "bd", "cd", "de", "df", "dg"}) ? -1 : 0; }; go({"a", "b", "c", "d", "e", "f", "g"}); }
HARNESS(seven_joined_late) { given = [](const std::string& a, const std::string& b) { std::string x = a + b; return one_of(x, {"ad", "be", "cf"}) ? 1 : one_of(x, {"de", "df", "ef", "dg", "eg", "fg", "ag", "bg", "cg"}) ? -1 : 0; }; go({"a", "b", "c", "d", "e", "f", "g"}); }
HARNESS(eight_in_pairs) { given = [](const std::string& a, const std::string& b) { std::string x = a + b; return one_of(x, {"ae", "bf", "cg", "dh"}) ? 1 : one_of(x, {"ef", "eg", "eh", "fg", "fh", "gh", "bc", "cd"}) ? -1 : 0; }; go({"a", "b", "c", "d", "e", "f", "g", "h"}); }
HARNESS(six_nested_pairs) { given = [](const std::string& a, const std::string& b) { std::string x = a + b; return one_of(x, {"af", "be", "cd"}) ? 1 : one_of(x, {"ae", "bf", "ac"}) ? 0 : -1; }; go({"a", "b", "c", "d", "e", "f"}); }
HARNESS(deep_six_in_pairs) { given = [](const std::string& a, const std::string& b) { std::string x = a + b; return one_of(x, {"ad", "be", "cf"}) ? 1 : -1; }; go({"a", "b", "c", "d", "e", "f"}); }
