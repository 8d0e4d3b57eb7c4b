// Common part of the bounded conformance drivers: each driver runs the real
// classes of /repo/src on structured and random inputs and compares what they
// do with an independent statement of the property.
#ifndef CONF_H
#define CONF_H
#include <RcppEigen.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <algorithm>
#include <numeric>
typedef Eigen::VectorXd Vec;
typedef Eigen::MatrixXd Mat;
typedef Eigen::ArrayXd Arr;
typedef std::vector<int> Items;
struct Conf {
  long cases = 0, checks = 0, skipped = 0;
  int fails = 0;
  std::map<std::string, int> byKind;
  std::map<std::string, long> groups;
  std::string current;
  std::string groupName;
  std::mt19937_64 rng;
  double scale = 1;   // effort multiplier
  std::string only;
  bool quiet = false;
  void begin(const std::string& group, const std::string& desc) {
    groupName = group; current = desc; ++cases; ++groups[group];
  }
  void fail(const std::string& kind, const std::string& what) {
    ++fails;
    if(byKind[kind]++ < 3 && !quiet)
      std::printf("FAIL %s :: %s :: input %s\n", kind.c_str(), what.c_str(), current.c_str());
    std::fflush(stdout);
  }
  bool ok(bool c, const std::string& kind, const std::string& what = "") {
    ++checks;
    if(!c) fail(kind, what);
    return c;
  }
  bool close(double got, double want, double tol, const std::string& kind, const std::string& what = "") {
    ++checks;
    if(std::isfinite(got) && std::fabs(got - want) <= tol) return true;
    if(got == want) return true;
    std::ostringstream s; s.precision(17);
    s << what << " got " << got << " want " << want << " tol " << tol;
    fail(kind, s.str());
    return false;
  }
  bool close(const Mat& got, const Mat& want, double tol, const std::string& kind, const std::string& what = "") {
    ++checks;
    if(got.rows() != want.rows() || got.cols() != want.cols()) {
      std::ostringstream s; s << what << " shape " << got.rows() << "x" << got.cols() << " want " << want.rows() << "x" << want.cols();
      fail(kind, s.str()); return false;
    }
    for(int i = 0; i < got.rows(); ++i) for(int j = 0; j < got.cols(); ++j)
      if(!(std::fabs(got(i, j) - want(i, j)) <= tol)) {
        std::ostringstream s; s.precision(15);
        s << what << " entry (" << i << "," << j << ") got " << got(i, j) << " want " << want(i, j) << " tol " << tol;
        fail(kind, s.str()); return false;
      }
    return true;
  }
  double unif(double a = 0, double b = 1) { return std::uniform_real_distribution<double>(a, b)(rng); }
  double norm(double s = 1) { return s * std::normal_distribution<double>()(rng); }
  int integer(int a, int b) { return std::uniform_int_distribution<int>(a, b)(rng); }
  Vec vec(int n, double s = 1) { Vec v(n); for(int i = 0; i < n; ++i) v(i) = norm(s); return v; }
  Mat mat(int n, int m, double s = 1) { Mat v(n, m); for(int i = 0; i < n; ++i) for(int j = 0; j < m; ++j) v(i, j) = norm(s); return v; }
  Mat spd(int n, double ridge = 0.5) { Mat a = mat(n, n); return Mat(a * a.transpose() / std::max(1, n) + ridge * Mat::Identity(n, n)); }
  Mat sym(int n) { Mat a = mat(n, n); return Mat(a + a.transpose()); }
  Items subset(int n, int k) { Items a(n); std::iota(a.begin(), a.end(), 0); std::shuffle(a.begin(), a.end(), rng); a.resize(k); return a; }
  Items labels(int n, int maxLabel) { Items a(maxLabel + 1); std::iota(a.begin(), a.end(), 0); std::shuffle(a.begin(), a.end(), rng); a.resize(n); return a; }
};
template <typename T> std::string show(const std::vector<T>& v) {
  std::ostringstream s; s.precision(17); s << "[";
  for(size_t i = 0; i < v.size(); ++i) s << (i ? "," : "") << v[i];
  s << "]"; return s.str();
}
inline std::string show(const Mat& m) {
  std::ostringstream s; s.precision(17); s << "[";
  for(int i = 0; i < m.rows(); ++i) { if(i) s << ";"; for(int j = 0; j < m.cols(); ++j) s << (j ? "," : "") << m(i, j); }
  s << "]"; return s.str();
}
inline std::string showv(const Vec& m) { return show(Mat(m.transpose())); }
inline std::string num(double x) { std::ostringstream s; s.precision(17); s << x; return s.str(); }
inline std::string num(int x) { return std::to_string(x); }
// central-difference gradient and Hessian in double with Richardson step
inline Vec numGrad(const std::function<double(const Vec&)>& f, Vec x, double h = 1e-3) {
  Vec g(x.size());
  for(int i = 0; i < x.size(); ++i) {
    auto d = [&](double e) { Vec a = x, b = x; a(i) += e; b(i) -= e; return (f(a) - f(b)) / (2 * e); };
    g(i) = (4 * d(h / 2) - d(h)) / 3;
  }
  return g;
}
inline Mat numJac(const std::function<Vec(const Vec&)>& f, Vec x, double h = 1e-3) {
  Mat g(x.size(), x.size());
  for(int i = 0; i < x.size(); ++i) {
    auto d = [&](double e) { Vec a = x, b = x; a(i) += e; b(i) -= e; return Vec((f(a) - f(b)) / (2 * e)); };
    g.col(i) = (4 * d(h / 2) - d(h)) / 3;
  }
  return g;
}
void run(Conf& c);
#ifndef CONF_NOMAIN
int main(int argc, char** argv) {
  Conf c;
  unsigned long seed = argc > 1 ? std::strtoul(argv[1], 0, 10) : 1;
  c.scale = argc > 2 ? std::atof(argv[2]) : 1;
  if(argc > 3) c.only = argv[3];
  c.rng.seed(seed);
  run(c);
  std::printf("SUMMARY cases=%ld checks=%ld fails=%d\n", c.cases, c.checks, c.fails);
  for(auto& g : c.groups) std::printf("GROUP %s %ld\n", g.first.c_str(), g.second);
  return c.fails ? 1 : 0;
}
#endif
#endif
