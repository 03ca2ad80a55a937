// Harness API.  The same harness source is compiled twice:
//  - symbolically (VH_SYM): through clang, LLVM IR and the rewriter; doubles may be symbolic.
//  - natively (default): values come from a model file; used to replay counterexamples and to
//    validate witnesses against the real code.
#ifndef VH_H
#define VH_H
#include <string>
#include <vector>
#include <cstdlib>
#include <eigen3/Eigen/Core>
#include <eigen3/Eigen/Geometry>
#include <eigen3/Eigen/Dense>
namespace vh {
struct B { int v; };                       // a formula (symbolic) / a truth value (native)
double real(const std::string& name, double lo, double hi); // fresh input in [lo,hi]
int    integer(const std::string& name, int lo, int hi);    // input, split over its values
B      bvar(const std::string& name);      // fresh truth value (not split)
bool   truth(B b);                         // splits the path
inline bool boolean(const std::string& name) { return truth(bvar(name)); }
B lt(double a, double b); B le(double a, double b); B eq(double a, double b);
B near(double a, double b, double tol = 1e-7);     // |a-b| <= tol
B yes(); B no();
inline B lit(bool b) { return b ? yes() : no(); }
B operator&&(B a, B b); B operator||(B a, B b); B operator!(B a);
inline B iff(B a, B b) { return (a && b) || (!a && !b); }
inline B implies(B a, B b) { return !a || b; }
inline B gt(double a, double b) { return lt(b, a); }
inline B ge(double a, double b) { return le(b, a); }
void assume(B b);
void check(const char* label, B b);        // the property
inline void check(const char* label, bool b) { check(label, lit(b)); }
void fact(B b);                            // helps the solver: must itself be proved (a lemma)
B is_nan(double a);                        // NaN or infinite (never for a symbolic real)
B determined(double a);                    // value does not come from uninitialised memory
bool thorough();                            // VERIF_TIER=thorough: larger bounds
void mode_havoc();                         // every further operation returns an arbitrary finite real
void note(const char* what);
int acos_errors();                          // number of inverse cosines taken outside [-1,1] so far
bool native();                              // replaying in the native executable (never in the symbolic one)
// vectors
inline B near(const Eigen::Vector3d& a, const Eigen::Vector3d& b, double tol = 1e-7)
{ return near(a(0), b(0), tol) && near(a(1), b(1), tol) && near(a(2), b(2), tol); }
inline B near(const Eigen::Matrix3d& a, const Eigen::Matrix3d& b, double tol = 1e-7)
{ B r = yes(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r = r && near(a(i, j), b(i, j), tol); return r; }
inline B same(double a, double b) { return eq(a, b); }
inline B same(const Eigen::Vector3d& a, const Eigen::Vector3d& b) { return eq(a(0), b(0)) && eq(a(1), b(1)) && eq(a(2), b(2)); }
inline Eigen::Vector3d vec(const std::string& n, double lo, double hi)
{ double x = real(n + ".x", lo, hi), y = real(n + ".y", lo, hi), z = real(n + ".z", lo, hi); return Eigen::Vector3d(x, y, z); }
inline Eigen::Vector3d vec2(const std::string& n, double lo, double hi, double z = 0)
{ double x = real(n + ".x", lo, hi), y = real(n + ".y", lo, hi); return Eigen::Vector3d(x, y, z); }
Eigen::Quaterniond unit_quat(const std::string& n);        // arbitrary unit quaternion with w >= 0
Eigen::Quaterniond yaw_quat(const std::string& n);         // (w,0,0,z), w >= 0
Eigen::Vector3d unit_vec(const std::string& n);
typedef void (*Fn)();
struct Reg { Reg(const char* name, Fn f); };
}
#define HARNESS(name) static void vh_fn_##name(); static vh::Reg vh_reg_##name(#name, vh_fn_##name); static void vh_fn_##name()
#endif
