// Native runtime of the harness API: inputs come from a model file ("name value" lines, hex floats).
// Comparisons are three-valued: within rounding distance the answer is "maybe", and only a check that
// is definitely false counts as a violation.
#include "vh.h"
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <malloc.h>
#include <map>
#include <sstream>
static std::map<std::string, double> model; static std::map<std::string, int> counters; static int bad = 0, nchk = 0; static FILE* rep = 0;
static std::string fresh_name(const std::string& n) { int k = counters[n]++; return k ? n + "#" + std::to_string(k) : n; }
static double get(const std::string& name0, double dflt) {
  std::string name = fresh_name(name0); auto it = model.find(name);
  if (it == model.end()) { fprintf(rep, "MISSING %s\n", name.c_str()); return dflt; }
  return it->second;
}
static bool garbage(double d) { uint64_t u; memcpy(&u, &d, 8); if (u == 0xFFFFFFFFFFFFFFFFULL || u == 0xAAAAAAAAAAAAAAAAULL || u == 0x5555555555555555ULL || u == 0xFEFEFEFEFEFEFEFEULL) return true; return false; }
namespace vh { static void acos_error(); }
extern "C" double __real_acos(double);
extern "C" double __wrap_acos(double x) { if (x < -1 || x > 1) vh::acos_error(); return __real_acos(x); }
extern "C" int __wrap_rand() { static int k = 0; auto it = model.find("rand#" + std::to_string(k++)); double v = it == model.end() ? 12345 : it->second; if (v < 0) v = 0; if (v > 2147483647.0) v = 2147483647.0; return (int)v; }
namespace vh {
double real(const std::string& name, double lo, double hi) { double v = get(name, 0.5 * (lo + hi)); if (v < lo) v = lo; if (v > hi) v = hi; return v; }
int integer(const std::string& name, int lo, int hi) { int v = (int)get(name, lo); return v < lo ? lo : v > hi ? hi : v; }
B bvar(const std::string& name) { return B{get(name, 0) != 0}; }
// v: 0 false, 1 true; within rounding distance: -1 (exactly computed: true), -2 (exactly computed: false).
// A split on a value that is neither clear nor exactly equal makes the run "borderline": it confirms nothing.
static bool border = false;
bool truth(B b) { if (b.v < 0) border = true; return b.v == 1 || b.v == -1 || b.v == 3; }
static double slack(double a, double b) { return 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
B yes() { return B{1}; } B no() { return B{0}; }
static B three(double a, double b, bool exact) { if (a == b) return B{exact ? 3 : 2}; return B{exact ? -1 : -2}; }   // 3/2: exactly equal operands, true/false
B lt(double a, double b) { if (std::isnan(a) || std::isnan(b)) return no(); if (std::isinf(a) || std::isinf(b)) return lit(a < b); if (std::fabs(a - b) <= slack(a, b)) return three(a, b, a < b); return lit(a < b); }
B le(double a, double b) { if (std::isnan(a) || std::isnan(b)) return no(); if (std::isinf(a) || std::isinf(b)) return lit(a <= b); if (std::fabs(a - b) <= slack(a, b)) return three(a, b, a <= b); return lit(a <= b); }
B eq(double a, double b) { if (std::isnan(a) || std::isnan(b)) return no(); if (a == b) return yes(); if (std::isinf(a) || std::isinf(b)) return no(); if (std::fabs(a - b) <= slack(a, b)) return B{-2}; return no(); }
B near(double a, double b, double tol) { if (!std::isfinite(a) || !std::isfinite(b)) return no(); return lit(std::fabs(a - b) <= 2 * tol + slack(a, b)); }
static int cls(int v) { return v == 0 || v == 1 ? v : 2; }              // 2: within rounding distance
static bool ex(int v) { return v == 1 || v == -1 || v == 3; }
static B mk(int cl, bool e, bool eqonly) { if (cl < 2) return B{cl}; return B{eqonly ? (e ? 3 : 2) : (e ? -1 : -2)}; }
static bool eqk(int v) { return v >= 2; }
B operator&&(B a, B b) { if (a.v == 0 || b.v == 0) return no(); if (a.v == 1 && b.v == 1) return yes(); return mk(2, ex(a.v) && ex(b.v), (a.v == 1 || eqk(a.v)) && (b.v == 1 || eqk(b.v))); }
B operator||(B a, B b) { if (a.v == 1 || b.v == 1) return yes(); if (a.v == 0 && b.v == 0) return no(); return mk(2, ex(a.v) || ex(b.v), (a.v == 0 || eqk(a.v)) && (b.v == 0 || eqk(b.v))); }
B operator!(B a) { if (cls(a.v) < 2) return B{!a.v}; return mk(2, !ex(a.v), eqk(a.v)); }
void assume(B b) { if (b.v == 0 || b.v == -2 ) { fprintf(rep, "ASSUME-FAILED\n"); fflush(rep); _Exit(4); } }
void check(const char* label, B b) { ++nchk; fprintf(rep, "CHECK %s %s\n", label, b.v == 0 && !border ? "VIOLATED" : b.v == 0 ? "borderline" : b.v == 1 ? "ok" : "ok~"); if (b.v == 0 && !border) ++bad; fflush(rep); }
void fact(B b) { check("lemma", b); }
B is_nan(double a) { return lit(!std::isfinite(a)); }
B determined(double a) { return lit(!garbage(a)); }
bool thorough() { const char* t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
void mode_havoc() {}
static int nacos = 0; int acos_errors() { return nacos; }
static void acos_error() { ++nacos; }
bool native() { return true; }
void note(const char*) {}
Eigen::Quaterniond unit_quat(const std::string& n) {
  double w = get(n + ".w", 1), x = get(n + ".x", 0), y = get(n + ".y", 0), z = get(n + ".z", 0);
  double s = x*x + y*y + z*z; if (s > 1) { double r = std::sqrt(s); x /= r; y /= r; z /= r; s = 1; }
  w = std::sqrt(std::max(0.0, 1 - x*x - y*y - z*z)); return Eigen::Quaterniond(w, x, y, z);
}
Eigen::Quaterniond yaw_quat(const std::string& n) {
  double w = get(n + ".w", 1), z = get(n + ".z", 0); if (z > 1) z = 1; if (z < -1) z = -1; w = std::sqrt(std::max(0.0, 1 - z*z)); return Eigen::Quaterniond(w, 0, 0, z);
}
Eigen::Vector3d unit_vec(const std::string& n) {
  double x = get(n + ".x", 0), y = get(n + ".y", 0), z = get(n + ".z", 1);
  double s = x*x + y*y; if (s > 1) { double r = std::sqrt(s); x /= r; y /= r; s = 1; }
  double zz = std::sqrt(std::max(0.0, 1 - x*x - y*y)); return Eigen::Vector3d(x, y, z < 0 ? -zz : zz);
}
static std::vector<std::pair<std::string, Fn>>& regs() { static std::vector<std::pair<std::string, Fn>> r; return r; }
Reg::Reg(const char* name, Fn f) { regs().push_back({name, f}); }
}
int main(int argc, char** argv) {
  if (argc < 2) { for (auto& r : vh::regs()) printf("%s\n", r.first.c_str()); return 0; }
  mallopt(M_PERTURB, 0x55);
  if (argc > 2) { std::ifstream f(argv[2]); std::string n, v; while (f >> n >> v) model[n] = strtod(v.c_str(), 0); }
  rep = stdout; setvbuf(stdout, 0, _IOLBF, 0);
  if (argc > 3) { rep = fopen(argv[3], "w"); }
  for (auto& r : vh::regs()) if (r.first == argv[1]) { r.second(); fprintf(rep, "DONE checks=%d violated=%d\n", nchk, bad); fflush(rep); _Exit(bad ? 3 : 0); }
  return 8;
}
