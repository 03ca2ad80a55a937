// BOUNDS: every sequence of 4 operations (thorough: 5) out of add / remove over three names, update (and switching aggregation on and off in one entry), starting empty or with two registered obstacles; every intersection relation in aggregated environments (3 operations; thorough 4)
// REPLACED: the pairwise intersection test (one symbolic truth value per pair) and the primitives' crossing points (none)
#include "common.h"
#include "DynamicObstacleAvoidance/Exceptions/ObstacleNotInEnvironmentException.hpp"
#include "DynamicObstacleAvoidance/Exceptions/ObstacleAlreadyExistsException.hpp"
static std::map<std::string, bool> rel;
static bool related(const std::string& a, const std::string& b) { std::string k = a < b ? a + b : b + a; auto it = rel.find(k); if (it == rel.end()) it = rel.insert({k, boolean("rel-" + k)}).first; return it->second; }
struct Node : public Ellipsoid { using Ellipsoid::Ellipsoid;
  bool is_intersecting_ellipsoid(const Ellipsoid& o) const override { return related(get_name(), o.get_name()); }
  std::pair<bool, std::pair<Vector3d, Vector3d>> compute_interesection_points(const Vector3d&, const Vector3d&) override { return {false, {Vector3d(0, 0, 0), Vector3d(0, 0, 0)}}; } };
static const char* NM[3] = {"a", "b", "c"};
struct World {
  Environment env; std::map<std::string, OPtr> reg; Obs list; double k = 1; bool agg;
  std::set<std::string> everagg;
  World(bool a) : env(a), agg(a) { rel.clear(); }
  // 0 nothing thrown, 1 not in environment, 2 already exists, 3 anything else
  template <class F> int run(F f) { try { f(); } catch (const Exceptions::ObstacleNotInEnvironmentException&) { return 1; } catch (const Exceptions::ObstacleAlreadyExistsException&) { return 2; } catch (...) { return 3; } return 0; }
  OPtr look(const std::string& n, int& t) { OPtr r; t = run([&] { r = env[n]; }); return r; }
  void add(const std::string& n) { k = k * 2; OPtr o = std::make_shared<Node>(n, State(Vector3d(k, -k, 0))); int t = run([&] { env.add_obstacle(o); });
    if (reg.count(n)) check("double-add-refused", lit(t == 2)); else { check("add-accepted", lit(t == 0)); reg[n] = o; } }
  void remove(const std::string& n) { int t = run([&] { env.remove_obstacle(n); }); if (!reg.count(n)) check("absent-remove-refused", lit(t == 1)); else { check("remove-accepted", lit(t == 0)); reg.erase(n); } }
  void update() { int t = run([&] { env.update(); }); check("update", lit(t == 0)); list = env.get_obstacle_list(); if (!agg) { Obs e; for (auto& r : reg) e.push_back(r.second); check("list-in-name-order", lit(list == e)); } else check("aggregated-list", lit(covers())); for (auto& o : list) if (o->get_type() == "Aggregate") everagg.insert(o->get_name()); }
  bool covers() { std::multiset<Obstacle*> h, w; for (auto& r : reg) w.insert(r.second.get()); for (auto& o : list) if (o->get_type() == "Aggregate") for (auto& p : static_cast<Aggregate&>(*o).get_primitives()) h.insert(p.get()); else h.insert(o.get()); return h == w; }
  void observe() {
    check("list-only-changes-on-update", lit(env.get_obstacle_list() == list));
    for (auto n : NM) { int t; OPtr o = look(n, t); if (reg.count(n)) check("registered-found", lit(t == 0 && o == reg[n])); else check("absent-lookup-refused", lit(t == 1)); }
    std::set<std::string> cur; for (auto& o : list) if (o->get_type() == "Aggregate" && agg) { cur.insert(o->get_name()); int t; OPtr r = look(o->get_name(), t); check("aggregate-found", lit(t == 0 && r == o)); }
    for (auto& n : everagg) if (!cur.count(n)) { int t; look(n, t); check("old-aggregate-gone", lit(t == 1)); }
    check("list-kept-by-lookup", lit(env.get_obstacle_list() == list));
  }
};
static void go(bool agg, int steps, bool seeded, bool toggle) {
  World w(agg);
  if (seeded) { w.add("a"); w.add("b"); w.update(); w.observe(); }
  for (int i = 0; i < steps; ++i) {
    int op = pick("op", toggle ? 8 : 7);
    if (op < 3) w.add(NM[op]); else if (op < 6) w.remove(NM[op - 3]); else if (op == 6) w.update(); else { w.agg = !w.agg; w.env.set_aggregated(w.agg); check("mode", lit(w.env.is_aggregated() == w.agg)); }
    w.observe();
  }
}
HARNESS(plain_from_empty) { go(false, 4, false, false); }
HARNESS(plain_from_two) { go(false, 4, true, false); }
HARNESS(aggregated_from_empty) { go(true, 3, false, false); }
HARNESS(aggregated_from_two) { go(true, 3, true, false); }
HARNESS(switching) { go(true, 3, true, true); }
HARNESS(defaults) { Environment e; check("aggregated-by-default", lit(e.is_aggregated())); check("empty", lit(e.get_obstacle_list().empty())); Environment f(false); check("plain", lit(!f.is_aggregated())); }
HARNESS(deep_plain_five) { go(false, 5, false, false); }
HARNESS(deep_aggregated_four) { go(true, 4, true, false); }
HARNESS(deep_switching_four) { go(false, 4, true, true); }
