// Symbolic runtime: values of type double are either ordinary IEEE doubles (concrete) or NaN-boxed
// handles of nodes of an expression DAG.  Branches on symbolic conditions are decided by the explorer
// at the other end of a pipe; if both sides are feasible the process forks.
#include "vh.h"
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <malloc.h>
#include <map>
#include <set>
#include <unordered_map>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>

typedef uint32_t Id;
static const uint64_t TAG = 0x7FFAULL << 48;
static inline uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline double unbits(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static inline bool is_sym(double d) { return (bits(d) >> 48) == 0x7FFA; }
static inline bool is_uninit(double d)
{ uint64_t u = bits(d); return u == 0xFFFFFFFFFFFFFFFFULL || u == 0xAAAAAAAAAAAAAAAAULL || u == 0x5555555555555555ULL; }
static inline double box(Id i) { return unbits(TAG | i); }
static inline Id unbox(double d) { return (Id)bits(d); }

enum Op : uint8_t { CST, VAR, ADD, SUB, MUL, DIV, NEG, SQRT, SIN, COS, ACOS, ATAN2, EXP, LOG, POW, POWI, FUN,
  TRUE_, FALSE_, BVAR, LT, LE, EQ, NEAR, AND, OR, NOT };
static const char* opname[] = { "c", "v", "+", "-", "*", "/", "neg", "sqrt", "sin", "cos", "acos", "atan2", "exp", "log", "pow", "powi", "fun",
  "true", "false", "bv", "<", "<=", "=", "near", "and", "or", "not" };
struct Node { Op op; Id a, b, c; double val; std::string name; double lo, hi; bool sent; };
struct Key { uint8_t op; Id a, b, c; uint64_t v; bool operator==(const Key& o) const { return op==o.op&&a==o.a&&b==o.b&&c==o.c&&v==o.v; } };
struct KeyHash { size_t operator()(const Key& k) const { size_t h = k.op; for (uint64_t x : {(uint64_t)k.a,(uint64_t)k.b,(uint64_t)k.c,k.v}) h = (h ^ x) * 0x9E3779B97F4A7C15ULL, h ^= h >> 29; return h; } };
static std::vector<Node>& T() { static std::vector<Node> t; return t; }
static std::unordered_map<Key, Id, KeyHash>& H() { static std::unordered_map<Key, Id, KeyHash> h; return h; }
static Id mk(Op op, Id a = 0, Id b = 0, Id c = 0, double val = 0) {
  Key k{(uint8_t)op, a, b, c, bits(val)};
  auto it = H().find(k); if (it != H().end()) return it->second;
  Id id = T().size(); T().push_back(Node{op, a, b, c, val, "", 0, 0, false}); H()[k] = id; return id;
}
static std::map<std::string, int>& counters() { static std::map<std::string, int> c; return c; }
static std::string fresh_name(const std::string& n) { int k = counters()[n]++; return k ? n + "#" + std::to_string(k) : n; }
static Id mkvar(Op op, const std::string& name, double lo, double hi)
{ Id id = T().size(); T().push_back(Node{op, 0, 0, 0, 0, name, lo, hi, false}); return id; }

// ---------------------------------------------------------------- communication
static int IN = 3, OUT = 4;
static std::string ob;
static void flush() { size_t o = 0; while (o < ob.size()) { ssize_t n = write(OUT, ob.data() + o, ob.size() - o); if (n <= 0) _exit(9); o += n; } ob.clear(); }
static void arm() { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = 20; setitimer(ITIMER_VIRTUAL, &t, 0); }
static std::set<uint32_t> entered; // functions of the code under test executed on this path
static void finish(const char* how) {
  char buf[64]; ob += "f";
  for (auto e : entered) { snprintf(buf, sizeof buf, " %08x", e); ob += buf; }
  ob += "\n"; ob += how; ob += "\n"; flush(); _exit(0);
}
static char reply() { flush(); char c; ssize_t n = read(IN, &c, 1); if (n != 1) _exit(9); arm(); if (c == 'K') finish("q"); return c; }
static void send_node(Id root) {
  std::vector<std::pair<Id, int>> st; st.push_back({root, 0});
  char buf[160];
  while (!st.empty()) {
    Id i = st.back().first; Node& n = T()[i];
    if (n.sent) { st.pop_back(); continue; }
    int nk = 0; Id kids[3];
    switch (n.op) {
      case CST: case VAR: case BVAR: case TRUE_: case FALSE_: break;
      case NEG: case SQRT: case SIN: case COS: case ACOS: case EXP: case LOG: case NOT: case POWI: nk = 1; break;
      case NEAR: nk = 3; break;
      default: nk = 2;
    }
    kids[0] = n.a; kids[1] = n.b; kids[2] = n.c;
    bool ready = true;
    for (int k = 0; k < nk; ++k) if (!T()[kids[k]].sent) { st.push_back({kids[k], 0}); ready = false; }
    if (!ready) continue;
    n.sent = true; st.pop_back();
    int l = snprintf(buf, sizeof buf, "n %u %s", i, opname[n.op]); ob.append(buf, l);
    if (n.op == CST) { l = snprintf(buf, sizeof buf, " %a", n.val); ob.append(buf, l); }
    else if (n.op == VAR) { l = snprintf(buf, sizeof buf, " %s %a %a", n.name.c_str(), n.lo, n.hi); ob.append(buf, l); }
    else if (n.op == BVAR) { l = snprintf(buf, sizeof buf, " %s", n.name.c_str()); ob.append(buf, l); }
    else if (n.op == POWI) { l = snprintf(buf, sizeof buf, " %u %d", n.a, (int)n.b); ob.append(buf, l); }
    else for (int k = 0; k < nk; ++k) { l = snprintf(buf, sizeof buf, " %u", kids[k]); ob.append(buf, l); }
    ob += "\n";
  }
}
static void msg(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#include <cstdarg>
static void msg(const char* fmt, ...) { char buf[512]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); ob += buf; ob += "\n"; }
static void bail(const char* what) { msg("x bail %s", what); finish("q"); }
// fork; returns true in the child; the parent waits for it and reports how it ended
static bool split() {
  flush();
  pid_t p = fork();
  if (p < 0) { msg("x bail fork"); finish("q"); }
  if (p == 0) { arm(); return true; }
  int st = 0; while (waitpid(p, &st, 0) != p) {}
  if (WIFSIGNALED(st)) msg("P s%d", WTERMSIG(st)); else msg("P e%d", WEXITSTATUS(st));
  return false;
}
static std::unordered_map<Id, bool>& known() { static std::unordered_map<Id, bool> k; return k; }
static bool ask(Id c, char kind = 'b') {
  Node& n = T()[c];
  if (n.op == TRUE_) return true;
  if (n.op == FALSE_) return false;
  if (n.op == NOT) return !ask(n.a, kind);
  auto it = known().find(c); if (it != known().end()) return it->second;
  send_node(c); msg("b %u %c", c, kind);
  char r = reply(); bool v;
  if (r == 'T') v = true; else if (r == 'F') v = false;
  else if (r == 'G') v = !split(); // the false side first
  else v = split();
  known()[c] = v; return v;
}

// ---------------------------------------------------------------- terms
static bool havoc = false;
static int nuninit = 0;
static double fresh_uninit() { msg("x uninit"); return box(mkvar(VAR, "uninit#" + std::to_string(nuninit++), -1e6, 1e6)); }
static inline double in(double d) { return is_uninit(d) ? fresh_uninit() : d; }
static Id node(double d) { return is_sym(d) ? unbox(d) : mk(CST, 0, 0, 0, d == 0 ? 0.0 : d); }
static double hv(const char* op) { return box(mkvar(VAR, fresh_name(std::string("h_") + op), -HUGE_VAL, HUGE_VAL)); }
static inline bool cst(double d) { return !is_sym(d); }
static double sub_(double a, double b); static double neg_(double a); static double mul_(double a, double b);
static Id LTc(double a, double b) {
  if (cst(a) && cst(b)) return mk(a < b ? TRUE_ : FALSE_);
  if (cst(a) && !std::isfinite(a)) return mk(a < 0 ? TRUE_ : FALSE_); // NaN: false
  if (cst(b) && !std::isfinite(b)) return mk(b > 0 ? TRUE_ : FALSE_);
  if (bits(a) == bits(b)) return mk(FALSE_);
  return mk(LT, node(a), node(b));
}
static Id NOTc(Id x) { if (T()[x].op == TRUE_) return mk(FALSE_); if (T()[x].op == FALSE_) return mk(TRUE_); if (T()[x].op == NOT) return T()[x].a; return mk(NOT, x); }
static Id LEc(double a, double b) {
  if (cst(a) && cst(b)) return mk(a <= b ? TRUE_ : FALSE_);
  if ((cst(a) && !std::isfinite(a)) || (cst(b) && !std::isfinite(b))) return LTc(a, b);
  return NOTc(LTc(b, a));
}
static Id EQc(double a, double b) {
  if (cst(a) && cst(b)) return mk(a == b ? TRUE_ : FALSE_);
  if ((cst(a) && !std::isfinite(a)) || (cst(b) && !std::isfinite(b))) return mk(FALSE_);
  if (bits(a) == bits(b)) return mk(TRUE_);
  Id x = node(a), y = node(b); if (cst(a) || (!cst(b) && x > y)) std::swap(x, y);
  return mk(EQ, x, y);
}
static double add_(double a, double b) {
  a = in(a); b = in(b);
  if (cst(a) && cst(b)) return a + b;
  if (cst(a) && !std::isfinite(a)) return a;
  if (cst(b) && !std::isfinite(b)) return b;
  if (havoc) return hv("add");
  if (cst(a) && a == 0) return b;
  if (cst(b) && b == 0) return a;
  Id x = node(a), y = node(b); if (x > y) std::swap(x, y);
  return box(mk(ADD, x, y));
}
static double sub_(double a, double b) {
  a = in(a); b = in(b);
  if (cst(a) && cst(b)) return a - b;
  if (cst(a) && !std::isfinite(a)) return a;
  if (cst(b) && !std::isfinite(b)) return -b;
  if (havoc) return hv("sub");
  if (cst(b) && b == 0) return a;
  if (bits(a) == bits(b)) return 0.0;
  if (cst(a) && a == 0) return neg_(b);
  return box(mk(SUB, node(a), node(b)));
}
static double neg_(double a) { a = in(a); if (cst(a)) return -a; if (havoc) return hv("neg"); if (T()[unbox(a)].op == NEG) return box(T()[unbox(a)].a); return box(mk(NEG, unbox(a))); }
static double mul_(double a, double b) {
  a = in(a); b = in(b);
  if (cst(a) && cst(b)) return a * b;
  if (cst(b)) std::swap(a, b);
  if (cst(a)) {
    if (std::isnan(a)) return a;
    if (std::isinf(a)) { if (ask(EQc(b, 0), 'd')) return NAN; return ask(LTc(0, b), 'd') ? a : -a; }
    if (havoc) return hv("mul");
    if (a == 0) return 0.0;
    if (a == 1) return b;
    if (a == -1) return neg_(b);
  }
  if (havoc) return hv("mul");
  Id x = node(a), y = node(b); if (x > y) std::swap(x, y);
  return box(mk(MUL, x, y));
}
static double div_(double a, double b) {
  a = in(a); b = in(b);
  if (cst(a) && cst(b)) return a / b;
  if (cst(b)) {
    if (std::isnan(b)) return b;
    if (std::isinf(b)) return havoc ? hv("div") : 0.0;
    if (b == 0) { if (ask(EQc(a, 0), 'd')) return NAN; return (ask(LTc(0, a), 'd') != std::signbit(b)) ? HUGE_VAL : -HUGE_VAL; }
    if (havoc) return hv("div");
    if (b == 1) return a;
    if (b == -1) return neg_(a);
    return box(mk(DIV, node(a), node(b)));
  }
  if (cst(a) && std::isnan(a)) return a;
  if (havoc) return hv("div");
  if (ask(EQc(b, 0), 'd')) {
    if (cst(a)) return a == 0 ? NAN : (a > 0 ? HUGE_VAL : -HUGE_VAL);
    if (ask(EQc(a, 0), 'd')) return NAN;
    return ask(LTc(0, a), 'd') ? HUGE_VAL : -HUGE_VAL;
  }
  if (cst(a)) {
    if (std::isinf(a)) return ask(LTc(0, b), 'd') ? a : -a;
    if (a == 0) return 0.0;
  }
  if (bits(a) == bits(b)) return 1.0;
  return box(mk(DIV, node(a), node(b)));
}
static double un(Op op, double a) { return box(mk(op, node(a))); }
static double abs_(double a) { a = in(a); if (cst(a)) return fabs(a); if (ask(LTc(a, 0), 'a')) return neg_(a); return a; }
static double sqrt_(double a) {
  a = in(a); if (cst(a)) return sqrt(a);
  if (havoc) { double r = hv("sqrt"); return r; }
  if (ask(LTc(a, 0), 's')) return -NAN;
  return un(SQRT, a);
}
static int nacos = 0;
static double acos_(double a) {
  a = in(a); if (cst(a)) { if (a < -1 || a > 1) ++nacos; return acos(a); }
  if (ask(LTc(a, -1), 's')) { ++nacos; return NAN; }
  if (ask(LTc(1, a), 's')) { ++nacos; return NAN; }
  if (havoc) return hv("acos");
  return un(ACOS, a);
}
static double atan2_(double y, double x) {
  y = in(y); x = in(x); if (cst(y) && cst(x)) return atan2(y, x);
  if ((cst(y) && !std::isfinite(y)) || (cst(x) && !std::isfinite(x))) { if ((cst(y) && std::isnan(y)) || (cst(x) && std::isnan(x))) return NAN; bail("atan2 of infinity"); }
  if (havoc) return hv("atan2");
  if (ask(EQc(y, 0), 't')) return ask(LTc(x, 0), 't') ? M_PI : 0.0;
  return box(mk(ATAN2, node(y), node(x)));
}
static double pow_(double a, double b) {
  a = in(a); b = in(b); if (cst(a) && cst(b)) return pow(a, b);
  if (cst(b) && (std::isnan(b))) return b;
  if (cst(a) && (std::isnan(a))) return a;
  if (havoc) return hv("pow");
  if (cst(b) && b == std::floor(b) && fabs(b) <= 64) {
    int n = (int)b;
    if (n == 0) return 1.0;
    if (n == 1) return a;
    if (n > 0) return box(mk(POWI, node(a), (Id)n));
    return div_(1.0, n == -1 ? a : box(mk(POWI, node(a), (Id)-n)));
  }
  if (cst(b) && b == 0.5) return sqrt_(a);
  if (cst(b) && !std::isfinite(b)) bail("pow with infinite exponent");
  if (cst(a)) {
    if (a == 1) return 1.0;
    if (!std::isfinite(a)) { if (ask(EQc(b, 0), 'd')) return 1.0; return (a > 0 && ask(LTc(0, b), 'd')) ? a : 0.0; }
    if (a < 0) bail("pow of negative constant");
    if (a == 0) { if (ask(EQc(b, 0), 'd')) return 1.0; return ask(LTc(0, b), 'd') ? 0.0 : HUGE_VAL; }
    return box(mk(POW, node(a), node(b)));
  }
  if (ask(LTc(a, 0), 's')) { if (!cst(b)) bail("pow of negative base with symbolic exponent"); return NAN; }
  if (ask(EQc(a, 0), 'd')) { if (cst(b)) return b > 0 ? 0.0 : HUGE_VAL; if (ask(EQc(b, 0), 'd')) return 1.0; return ask(LTc(0, b), 'd') ? 0.0 : HUGE_VAL; }
  return box(mk(POW, node(a), node(b)));
}

// ---------------------------------------------------------------- entry points used by the rewritten IR
extern "C" {
void __sx_enter(uint32_t f) { entered.insert(f); }
double __sx_fadd(double a, double b) { return add_(a, b); }
double __sx_fsub(double a, double b) { return sub_(a, b); }
double __sx_fmul(double a, double b) { return mul_(a, b); }
double __sx_fdiv(double a, double b) { return div_(a, b); }
double __sx_fneg(double a) { return neg_(a); }
static bool cmp(int p, double a, double b) {
  a = in(a); b = in(b);
  bool na = cst(a) && std::isnan(a), nb = cst(b) && std::isnan(b);
  bool unordered_true = p >= 10; int q = p % 10;
  if (na || nb) return unordered_true;
  switch (q) {
    case 0: return ask(EQc(a, b)); case 1: return !ask(EQc(a, b));
    case 2: return ask(LTc(a, b)); case 3: return ask(LEc(a, b));
    case 4: return ask(LTc(b, a)); case 5: return ask(LEc(b, a));
  }
  return false;
}
bool __sx_oeq(double a, double b) { return cmp(0, a, b); }
bool __sx_one(double a, double b) { return cmp(1, a, b); }
bool __sx_olt(double a, double b) { return cmp(2, a, b); }
bool __sx_ole(double a, double b) { return cmp(3, a, b); }
bool __sx_ogt(double a, double b) { return cmp(4, a, b); }
bool __sx_oge(double a, double b) { return cmp(5, a, b); }
bool __sx_ueq(double a, double b) { return cmp(10, a, b); }
bool __sx_une(double a, double b) { return cmp(11, a, b); }
bool __sx_ult(double a, double b) { return cmp(12, a, b); }
bool __sx_ule(double a, double b) { return cmp(13, a, b); }
bool __sx_ugt(double a, double b) { return cmp(14, a, b); }
bool __sx_uge(double a, double b) { return cmp(15, a, b); }
bool __sx_uno(double a, double b) { a = in(a); b = in(b); return (cst(a) && std::isnan(a)) || (cst(b) && std::isnan(b)); }
bool __sx_ord(double a, double b) { return !__sx_uno(a, b); }
bool __sx_class(double a, int mask) { // llvm.is.fpclass
  a = in(a);
  if (!cst(a)) {
    bool neg = mask & 0x8, sub = mask & 0x90, z = mask & 0x60, pos = mask & 0x100; (void)sub;
    if (neg && z && pos) return true; if (!neg && !z && !pos) return false;
    if (ask(EQc(a, 0))) return z; return ask(LTc(a, 0)) ? neg : pos;
  }
  int c = std::isnan(a) ? 3 : std::isinf(a) ? (a < 0 ? 4 : 512) : a == 0 ? (std::signbit(a) ? 32 : 64) : std::fpclassify(a) == FP_SUBNORMAL ? (a < 0 ? 16 : 128) : (a < 0 ? 8 : 256);
  return (mask & c) != 0;
}
// conversions
static const uint32_t RND = 0x5EED0000u; static int nrand = 0; static std::vector<double>& rands() { static std::vector<double> r; return r; }
int __sx_rand() { int k = nrand++; rands().push_back(box(mkvar(VAR, "rand#" + std::to_string(k), 0, 2147483647.0))); return (int)(RND + k); }
double __sx_sitofp(int64_t v) { if (((uint64_t)v & ~0xFFFFULL) == RND && (size_t)(v & 0xFFFF) < rands().size()) return rands()[v & 0xFFFF]; return (double)v; }
double __sx_uitofp(uint64_t v) { if ((v & ~0xFFFFULL) == RND && (size_t)(v & 0xFFFF) < rands().size()) return rands()[v & 0xFFFF]; return (double)v; }
static int64_t toint(double a, bool) {
  a = in(a); if (cst(a)) return (int64_t)a;
  // truncation of a symbolic value: split over the integers it may take (bounded)
  for (int64_t k = 0; k <= 64; ++k) {
    if (ask(LTc(a, (double)(k + 1)))) { if (ask(LTc((double)(-k - 1), a))) { if (k == 0) return 0; return ask(LTc(a, 0)) ? -k : k; } if (k == 64) break; if (ask(LTc(a, 0))) continue; }
  }
  bail("float to integer"); return 0;
}
int64_t __sx_fptosi(double a) { return toint(a, true); }
uint64_t __sx_fptoui(double a) { return (uint64_t)toint(a, false); }
double __sx_bail1(double a) { a = in(a); if (!cst(a)) bail("unsupported operation on symbolic value"); return a; }
int64_t __sx_dbits(double a) { if (!cst(a)) bail("bit pattern of symbolic value"); return (int64_t)bits(a); }
// libm
double __sx_m_sqrt(double a) { return sqrt_(a); }
double __sx_m_fabs(double a) { return abs_(a); }
double __sx_m_acos(double a) { return acos_(a); }
double __sx_m_asin(double a) { a = in(a); if (cst(a)) return asin(a); if (ask(LTc(a, -1), 's') || ask(LTc(1, a), 's')) return NAN; if (havoc) return hv("asin"); return atan2_(a, sqrt_(sub_(1, mul_(a, a)))); }
double __sx_m_atan(double a) { a = in(a); if (cst(a)) return atan(a); return atan2_(a, 1.0); }
double __sx_m_atan2(double a, double b) { return atan2_(a, b); }
double __sx_m_sin(double a) { a = in(a); if (cst(a)) return sin(a); if (havoc) return hv("sin"); return un(SIN, a); }
double __sx_m_cos(double a) { a = in(a); if (cst(a)) return cos(a); if (havoc) return hv("cos"); return un(COS, a); }
double __sx_m_tan(double a) { a = in(a); if (cst(a)) return tan(a); return div_(__sx_m_sin(a), __sx_m_cos(a)); }
double __sx_m_exp(double a) { a = in(a); if (cst(a)) return exp(a); if (havoc) return hv("exp"); return un(EXP, a); }
double __sx_m_log(double a) { a = in(a); if (cst(a)) return log(a); if (havoc) return hv("log"); if (ask(LTc(a, 0), 's')) return NAN; if (ask(EQc(a, 0), 's')) return -HUGE_VAL; return un(LOG, a); }
double __sx_m_pow(double a, double b) { return pow_(a, b); }
double __sx_m_hypot(double a, double b) { return sqrt_(add_(mul_(a, a), mul_(b, b))); }
double __sx_m_fma(double a, double b, double c) { return add_(mul_(a, b), c); }
double __sx_m_fmin(double a, double b) { a = in(a); b = in(b); if (cst(a) && std::isnan(a)) return b; if (cst(b) && std::isnan(b)) return a; return ask(LTc(b, a)) ? b : a; }
double __sx_m_fmax(double a, double b) { a = in(a); b = in(b); if (cst(a) && std::isnan(a)) return b; if (cst(b) && std::isnan(b)) return a; return ask(LTc(a, b)) ? b : a; }
double __sx_m_copysign(double a, double b) { a = in(a); b = in(b); if (cst(a) && cst(b)) return copysign(a, b); double m = abs_(a); if (cst(b)) return std::signbit(b) ? neg_(m) : m; return ask(LTc(b, 0)) ? neg_(m) : m; }
// rounding functions split over the integers the value may round to (bounded, see toint); the others by their definitions
#define ROUND1(f, e) double __sx_m_##f(double a) { a = in(a); if (cst(a)) return f(a); if (havoc) return hv(#f); return e; }
static double trunc_(double a) { return (double)toint(a, true); }
static double floor_(double a) { double t = trunc_(a); return ask(LTc(a, t)) ? t - 1 : t; }
ROUND1(trunc, trunc_(a)) ROUND1(floor, floor_(a)) ROUND1(ceil, -floor_(neg_(a))) ROUND1(round, ask(LTc(a, 0)) ? -floor_(add_(0.5, neg_(a))) : floor_(add_(a, 0.5)))
double __sx_m_fmod(double a, double b) { a = in(a); b = in(b); if (cst(a) && cst(b)) return fmod(a, b); if (havoc) return hv("fmod"); return sub_(a, mul_(b, trunc_(div_(a, b)))); }
double __sx_frem(double a, double b) { return __sx_m_fmod(a, b); }
ROUND1(exp2, pow_(2.0, a)) ROUND1(expm1, sub_(un(EXP, a), 1)) ROUND1(sinh, div_(sub_(un(EXP, a), un(EXP, neg_(a))), 2)) ROUND1(cosh, div_(add_(un(EXP, a), un(EXP, neg_(a))), 2)) ROUND1(tanh, sub_(1, div_(2, add_(1, un(EXP, add_(a, a))))))
ROUND1(log2, div_(__sx_m_log(a), M_LN2)) ROUND1(log10, div_(__sx_m_log(a), M_LN10)) ROUND1(log1p, __sx_m_log(add_(1, a))) ROUND1(cbrt, ask(LTc(a, 0)) ? neg_(pow_(neg_(a), 1.0 / 3)) : pow_(a, 1.0 / 3))
#define CONC1(f) double __sx_m_##f(double a) { a = in(a); if (cst(a)) return f(a); bail(#f); return 0; }
CONC1(rint) CONC1(nearbyint)
}

// ---------------------------------------------------------------- harness API
namespace vh {
double real(const std::string& name, double lo, double hi) { return box(mkvar(VAR, fresh_name(name), lo, hi)); }
B bvar(const std::string& name) { return B{(int)mkvar(BVAR, fresh_name(name), 0, 0)}; }
bool truth(B b) { return ask(b.v); }
int integer(const std::string& name0, int lo, int hi) {
  std::string name = fresh_name(name0);
  if (lo > hi) bail("empty integer range");
  msg("i %s %d %d", name.c_str(), lo, hi);
  for (int v = lo; v < hi; ++v) if (split()) { msg("I %d", v); return v; }
  msg("I %d", hi); return hi;
}
B lt(double a, double b) { a = in(a); b = in(b); return B{(int)LTc(a, b)}; }
B le(double a, double b) { a = in(a); b = in(b); return B{(int)LEc(a, b)}; }
B eq(double a, double b) { a = in(a); b = in(b); return B{(int)EQc(a, b)}; }
B yes() { return B{(int)mk(TRUE_)}; }
B no() { return B{(int)mk(FALSE_)}; }
B near(double a, double b, double tol) {
  a = in(a); b = in(b);
  if (cst(a) && cst(b)) return lit(fabs(a - b) <= tol + 1e-9 * (fabs(a) + fabs(b)));
  if ((cst(a) && !std::isfinite(a)) || (cst(b) && !std::isfinite(b))) return no();
  if (bits(a) == bits(b)) return yes();
  return B{(int)mk(NEAR, node(a), node(b), node(tol))};
}
B operator&&(B a, B b) { Op x = T()[a.v].op, y = T()[b.v].op; if (x == FALSE_ || y == FALSE_) return no(); if (x == TRUE_) return b; if (y == TRUE_) return a; if (a.v == b.v) return a; return B{(int)mk(AND, a.v, b.v)}; }
B operator||(B a, B b) { Op x = T()[a.v].op, y = T()[b.v].op; if (x == TRUE_ || y == TRUE_) return yes(); if (x == FALSE_) return b; if (y == FALSE_) return a; if (a.v == b.v) return a; return B{(int)mk(OR, a.v, b.v)}; }
B operator!(B a) { return B{(int)NOTc(a.v)}; }
void assume(B b) { send_node(b.v); msg("a %d", b.v); reply(); }
void check(const char* label, B b) { send_node(b.v); msg("k %d %s", b.v, label); reply(); }
void fact(B b) { check("lemma", b); assume(b); }
B is_nan(double a) { a = in(a); return lit(cst(a) && !std::isfinite(a)); }
B determined(double a) { return lit(!is_uninit(a) && !(is_sym(a) && T()[unbox(a)].name.compare(0, 6, "uninit") == 0)); }
bool thorough() { const char* t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
void mode_havoc() { havoc = true; }
int acos_errors() { return nacos; }
bool native() { return false; }
void note(const char* what) { msg("x note %s", what); }
static void unit(std::vector<double> v) {
  ob += ""; for (double d : v) send_node(unbox(d));
  std::string s = "u"; for (double d : v) s += " " + std::to_string(unbox(d)); msg("%s", s.c_str()); reply();
}
Eigen::Quaterniond unit_quat(const std::string& n) {
  double w = real(n + ".w", 0, 1), x = real(n + ".x", -1, 1), y = real(n + ".y", -1, 1), z = real(n + ".z", -1, 1);
  unit({w, x, y, z}); return Eigen::Quaterniond(w, x, y, z);
}
Eigen::Quaterniond yaw_quat(const std::string& n) {
  double w = real(n + ".w", 0, 1), z = real(n + ".z", -1, 1);
  unit({w, z}); return Eigen::Quaterniond(w, 0, 0, z);
}
Eigen::Vector3d unit_vec(const std::string& n) {
  double x = real(n + ".x", -1, 1), y = real(n + ".y", -1, 1), z = real(n + ".z", -1, 1);
  unit({z, x, y}); return Eigen::Vector3d(x, y, z);
}
static std::vector<std::pair<std::string, Fn>>& regs() { static std::vector<std::pair<std::string, Fn>> r; return r; }
Reg::Reg(const char* name, Fn f) { regs().push_back({name, f}); }
}
int main(int argc, char** argv) {
  if (argc < 2) { for (auto& r : vh::regs()) printf("%s\n", r.first.c_str()); return 0; }
  mallopt(M_PERTURB, 0x55);
  int dn = open("/dev/null", O_WRONLY); if (!getenv("SX_VERBOSE")) { dup2(dn, 1); dup2(dn, 2); }
  vh::Fn f = 0; for (auto& r : vh::regs()) if (r.first == argv[1]) f = r.second;
  if (!f) return 8;
  msg("i root 0 0"); 
  if (!split()) { msg("Z"); flush(); return 0; }
  msg("I 0");
  f();
  finish("e");
}
