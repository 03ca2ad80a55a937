// Stand-in for the vendored matplotlibcpp.hpp (which drives a Python interpreter): the calls the
// library makes are recorded instead of plotted.  Same standard headers as the original, so that
// overload resolution in the library's own code is the same.
#ifndef DYNAMIC_OBSTACLE_AVOIDANCE_UTILS_PLOTTING_MATPLOTLIBCPP_H_
#define DYNAMIC_OBSTACLE_AVOIDANCE_UTILS_PLOTTING_MATPLOTLIBCPP_H_
#include <vector>
#include <map>
#include <array>
#include <numeric>
#include <algorithm>
#include <stdexcept>
#include <iostream>
#include <cstdint>
#include <functional>
#include <Python.h>
#include <string>
namespace matplotlibcpp {
struct Record { std::string kind, s; std::vector<double> x, y; };
inline std::vector<Record>& records() { static std::vector<Record> r; return r; }
inline void rec(const std::string& kind, const std::string& s, const std::vector<double>& x, const std::vector<double>& y)
{ Record r; r.kind = kind; r.s = s; r.x = x; r.y = y; records().push_back(r); }
template<typename NX, typename NY>
bool plot(const std::vector<NX>& x, const std::vector<NY>& y, const std::string& s = "")
{ rec("plot", s, std::vector<double>(x.begin(), x.end()), std::vector<double>(y.begin(), y.end())); return true; }
template<typename N> bool plot(const std::vector<N>& y, const std::string& s = "")
{ rec("plot1", s, {}, std::vector<double>(y.begin(), y.end())); return true; }
inline bool plot(const std::vector<double>& x, const std::vector<double>& y, const std::string& s = "") { return plot<double,double>(x, y, s); }
template<typename N> void text(N x, N y, const std::string& s = "") { rec("text", s, {(double)x}, {(double)y}); }
inline long figure(long = -1) { rec("figure", "", {}, {}); return 1; }
inline void figure_size(size_t, size_t) {}
inline void close() { rec("close", "", {}, {}); }
inline void show(const bool = true) { rec("show", "", {}, {}); }
inline void save(const std::string& f) { rec("save", f, {}, {}); }
inline void draw() {}
inline void clf() {}
inline void ion() {}
inline void legend() {}
template<typename N> void pause(N) {}
inline void title(const std::string&) {}
inline void axis(const std::string&) {}
inline void xlabel(const std::string&) {}
inline void ylabel(const std::string&) {}
inline void grid(bool) {}
inline void subplot(long, long, long n) { rec("subplot", std::to_string(n), {}, {}); }
template<typename N> void xlim(N a, N b) { rec("xlim", "", {(double)a, (double)b}, {}); }
template<typename N> void ylim(N a, N b) { rec("ylim", "", {(double)a, (double)b}, {}); }
}
#endif
