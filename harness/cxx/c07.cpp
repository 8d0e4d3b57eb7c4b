// C07: sparse-grid storage
#include "conf.h"
#include "Basis.h"
#include "Point.h"
#include "SparseGrid.h"
#include "SparseStore.h"
#include "SparseGridTransform.h"
#include "Quadratic.h"
#include "SparseBelief.h"
#include "counting.h"
typedef std::vector<int> VI;
static long long binom(int n, int k) { long long r = 1; for(int i = 1; i <= k; ++i) r = r * (n - k + i) / i; return r; }
static void levelsRec(int d, int left, VI& cur, std::vector<VI>& out) {
  if((int) cur.size() == d) { out.push_back(cur); return; }
  for(int l = 0; l <= left; ++l) { cur.push_back(l); levelsRec(d, left - l, cur, out); cur.pop_back(); }
}
// every admissible combination, as a set of (levels, positions)
static std::set<std::pair<VI, VI>> everything(int d, int k) {
  std::vector<VI> ls; VI cur; levelsRec(d, k, cur, ls);
  std::set<std::pair<VI, VI>> all;
  for(auto& l : ls) { VI p(d, 0); while(true) { all.insert({l, p}); int t = 0; while(t < d && ++p[t] >= (1 << l[t])) { p[t] = 0; ++t; } if(t == d) break; } }
  return all;
}
struct Smooth { // smooth test function of d variables with gradient and Hessian
  Mat A; Vec b; double c0; Vec w; double amp; double s;
  double f(const Vec& x) const { return -0.5 * x.dot(A * x) + b.dot(x) + c0 + amp * std::sin(w.dot(x) + s); }
  Vec g(const Vec& x) const { return -A * x + b + amp * std::cos(w.dot(x) + s) * w; }
  Mat h(const Vec& x) const { return -A - amp * std::sin(w.dot(x) + s) * w * w.transpose(); }
};
static Smooth smooth(Conf& c, int d, bool gauss) { Smooth q; q.A = c.spd(d); q.b = c.vec(d); q.c0 = c.norm(3); q.w = c.vec(d); q.amp = gauss ? 0 : c.norm(1); q.s = c.norm(); return q; }
static std::string show(const Smooth& q) { return "A=" + ::show(q.A) + " b=" + showv(q.b) + " c=" + num(q.c0) + " w=" + showv(q.w) + " amp=" + num(q.amp) + " s=" + num(q.s); }
void run(Conf& c) {
  // counting
  for(int d = 1; d <= 12; ++d) for(int k = 0; k <= 12; ++k) {
    long long want = 0; for(int i = 0; i <= k; ++i) want += binom(d - 1 + i, i) << i;
    if(want > 100000000) continue;
    c.begin("count", "d=" + num(d) + " k=" + num(k));
    c.ok(findNumGridPoints(d, k) == want, "C07-count", "number of grid points " + num(findNumGridPoints(d, k)) + " want " + std::to_string(want));
  }
  for(int d : {30, 50, 100, 300}) for(int k = 0; k <= 2; ++k) { c.begin("count", "d=" + num(d) + " k=" + num(k)); long long want = 0; for(int i = 0; i <= k; ++i) want += binom(d - 1 + i, i) << i; c.ok(findNumGridPoints(d, k) == want, "C07-count", "number of grid points"); }
  for(int k = 0; k < 4; ++k) { c.begin("count", "d=0 k=" + num(k)); c.ok(findNumGridPoints(0, k) == 1, "C07-count", "no coordinates: one point"); }
  for(int n = 0; n <= 28; ++n) for(int k = 0; k <= n; ++k) { c.begin("choose", num(n) + " " + num(k)); c.ok(choose(n, k) == binom(n, k), "C07-choose", "binomial coefficient"); }
  // enumeration and indexing
  for(int d = 1; d <= 8; ++d) for(int k = 0; k <= 9; ++k) {
    long long size = 0; for(int i = 0; i <= k; ++i) size += binom(d - 1 + i, i) << i;
    if(size > 6000 * std::max(1.0, c.scale)) continue;
    c.begin("enumeration", "d=" + num(d) + " k=" + num(k));
    auto all = everything(d, k);
    c.ok((long long) all.size() == size, "C07-spec", "specification");
    Point p(d); Basis const* nb = 0; (void) nb;
    for(long i = 0; i < size; ++i) {
      VI l(d), q(d); for(int t = 0; t < d; ++t) { l[t] = p.getLevel(t); q[t] = p.getPosition(t); }
      if(!c.ok(all.erase({l, q}) == 1, "C07-enumeration", "place " + std::to_string(i) + ": combination levels " + ::show(l) + " positions " + ::show(q) + " is repeated or not admissible")) break;
      c.ok(p.getIndex() == i, "C07-running-index", "index while advancing is " + num(p.getIndex()) + " at place " + std::to_string(i));
      Point direct(l, q);
      c.ok(direct.getIndex() == i, "C07-index", "index of levels " + ::show(l) + " positions " + ::show(q) + " is " + num(direct.getIndex()) + ", place " + std::to_string(i));
      c.ok(direct == p, "C07-equal", "point built from levels and positions differs from the enumerated one");
      if(i + 1 < size) p.advance();
    }
    c.ok(all.empty(), "C07-enumeration", "combinations left out: " + std::to_string(all.size()));
  }
  // the chain of parents in one direction visits every lower level and position once
  for(int r = 0; r < 60; ++r) {
    int d = c.integer(1, 4); VI l(d), q(d); for(int t = 0; t < d; ++t) { l[t] = c.integer(0, 4); q[t] = c.integer(0, (1 << l[t]) - 1); }
    int t = c.integer(0, d - 1);
    c.begin("parents", "levels=" + ::show(l) + " positions=" + ::show(q) + " direction=" + num(t));
    Point p(l, q), par = p.firstParent(t); std::set<std::pair<int, int>> seen;
    for(int guard = 0; guard < 200 && par.getLevel(t) < l[t]; ++guard) {
      VI l2 = l, q2 = q; l2[t] = par.getLevel(t); q2[t] = par.getPosition(t);
      c.ok(par == Point(l2, q2), "C07-parent", "parent is not the point with that level and position");
      seen.insert({par.getLevel(t), par.getPosition(t)}); par.advanceInDirection(t);
    }
    c.ok((int) seen.size() == (1 << l[t]) - 1, "C07-parents", "number of parents");
    c.ok(p == Point(l, q), "C07-parent-const", "the point itself changed");
  }
  // one-dimensional basis: cardinal at the knots of its own and lower levels; derivatives
  for(int K = 0; K <= 6; ++K) {
    Basis basis(K); c.begin("basis", "levelMax=" + num(K));
    c.ok(basis.getLevelMax() == K, "C07-level-max", "level");
    std::vector<double> seen;
    for(int l = 0; l <= K; ++l) for(int p = 0; p < (1 << l); ++p) {
      for(double z : seen) c.ok(std::fabs(z - basis.getKnot(l, p)) > 1e-9, "C07-knots-distinct", "knots repeat at level " + num(l));
      seen.push_back(basis.getKnot(l, p));
      if(K > 4 && p % 3) continue;
      for(int l2 = 0; l2 <= l; ++l2) for(int p2 = 0; p2 < (1 << l2); ++p2)
        c.close(basis.evaluate(basis.getKnot(l2, p2), l, p), (l == l2 && p == p2) || l == 0 ? 1 : 0, 2e-6 * (1 + (K > 4 ? 20 : 0)), "C07-cardinal", "basis function " + num(l) + "," + num(p) + " at knot " + num(l2) + "," + num(p2));
      for(int r = 0; r < 6; ++r) {
        double x = c.norm(1.5 * (1 + K / 2.0)), h = 1e-5;
        double e = basis.evaluate(x, l, p), d1 = basis.evaluateDerivative(x, l, p), d2 = basis.evaluateSecondDerivative(x, l, p);
        double s = 1 + std::fabs(e) + std::fabs(d1) + std::fabs(d2);
        if(K <= 5) { c.close(d1, (basis.evaluate(x + h, l, p) - basis.evaluate(x - h, l, p)) / (2 * h), 1e-3 * s, "C07-basis-derivative", "level " + num(l) + " position " + num(p) + " x=" + num(x));
        c.close(d2, (basis.evaluateDerivative(x + h, l, p) - basis.evaluateDerivative(x - h, l, p)) / (2 * h), 1e-2 * s * (1 << l), "C07-basis-second-derivative", "level " + num(l) + " position " + num(p) + " x=" + num(x)); }
      }
      for(double x : {1e12, -1e12, 1e300, -1e300, 4294967296.0 * 2, 1e9}) { double v = basis.evaluate(x, l, p), y = basis.getKnot(l, p) < 1e9 ? x : x; (void) y; if(l == 1) { // one quadratic: the same piece on both sides
          double a2 = basis.evaluateSecondDerivative(0.1, l, p); if(std::fabs(x) < 1e13) c.close(v / (x * x), a2 / 2, 1e-6 * (1 + std::fabs(a2)), "C07-far", "far value at x=" + num(x)); }
        if(l >= 2 && std::fabs(x) < 1e13) { double d2 = basis.evaluateSecondDerivative(x, l, p), k1 = basis.evaluateSecondDerivative(x > 0 ? 2e3 : -2e3, l, p), k2 = basis.evaluateSecondDerivative(x > 0 ? 1e3 : -1e3, l, p); double slope = (k1 - k2) / (x > 0 ? 1e3 : -1e3); c.close(d2 / x, slope, 1e-6 * (1 + std::fabs(slope)), "C07-far", "outer piece at x=" + num(x)); } }
    }
  }
  // grids
  int reps = (int) (60 * c.scale);
  for(int r = 0; r < reps; ++r) {
    int d = r % 10 == 0 ? 1 : c.integer(1, 5), k = c.integer(0, d <= 2 ? 5 : (d <= 3 ? 4 : 2));
    Smooth q = smooth(c, d, false); Basis basis(k);
    c.begin("grid", "d=" + num(d) + " k=" + num(k) + " f: " + show(q));
    auto f = [q](const Vec& x) { return q.f(x); };
    SparseGrid G(f, d, basis), G2(f, d, k);
    int size = findNumGridPoints(d, k);
    c.ok(G.size() == size, "C07-size", "size of the grid");
    // expected stored points are exactly those of the enumeration
    std::vector<Vec> pts; Point p(d); double top = -1e300, mag = 1;
    for(int i = 0; i < size; ++i) { Vec z(d); for(int t = 0; t < d; ++t) z(t) = basis.getKnot(p.getLevel(t), p.getPosition(t)); pts.push_back(z); c.close(Mat(p.getGridPoint(basis)), Mat(z), 0, "C07-grid-point", "coordinates of a grid point"); top = std::max(top, q.f(z)); mag = std::max(mag, std::fabs(q.f(z))); if(i + 1 < size) p.advance(); }
    for(int i = 0; i < size; i += 1 + size / 150) { c.close(G.interpolate(pts[i], basis), q.f(pts[i]), 2e-6 * mag * (1 << k), "C07-reproduce", "value at grid point " + num(i)); c.close(G2.interpolate(pts[i], basis), q.f(pts[i]), 2e-6 * mag * (1 << k), "C07-reproduce", "value at grid point " + num(i)); }
    SparseGrid G3(d, basis); G3.initialize(f, basis);
    for(int e = 0; e < 4; ++e) {
      Vec x = c.vec(d, e == 3 ? 3 : 1); double v = G.interpolate(x, basis);
      c.ok(G3.interpolate(x, basis) == v, "C07-initialize", "grid filled later differs");
      c.ok(v <= top + 1e-12 * mag, "C07-bound", "interpolant above the largest stored value");
      if(v > top - 1e-3 * (1 + std::fabs(top))) continue;   // at the bound the interpolant has a corner
      Vec g = G.interpolateDerivative(x, basis); Mat h = G.interpolateSecondDerivative(x, basis);
      double s = 1 + std::fabs(v) + mag; 
      c.close(Mat(g), Mat(numGrad([&](const Vec& z) { return G.interpolate(z, basis); }, x, 1e-4)), 1e-4 * s, "C07-grid-gradient", "gradient of the interpolant at " + showv(x));
      c.close(h, numJac([&](const Vec& z) { return G.interpolateDerivative(z, basis); }, x, 1e-5), 1e-2 * s * (1 + g.cwiseAbs().maxCoeff()), "C07-grid-hessian", "Hessian of the interpolant at " + showv(x));
      c.close(h, Mat(h.transpose()), 1e-9 * s * (1 + h.cwiseAbs().maxCoeff()), "C07-grid-hessian-symmetric", "symmetry");
    }
  }
  // storage relative to a Gaussian
  reps = (int) (80 * c.scale);
  for(int r = 0; r < reps; ++r) {
    int d = c.integer(1, 4), k = c.integer(0, d <= 2 ? 4 : 2); bool gauss = r % 2;
    Smooth q = smooth(c, d, gauss); Basis basis(k); Vec m = c.vec(d); Mat P = c.spd(d);
    bool same = gauss && r % 4 == 1; if(same) { m = q.A.inverse() * q.b; P = q.A; }
    MultiNormal N(m, P);
    c.begin("store", "d=" + num(d) + " k=" + num(k) + " f: " + show(q) + " mean=" + showv(m) + " precision=" + ::show(P));
    auto f = [q](const Vec& x) { return q.f(x); }; auto g = [q](const Vec& x) { return q.g(x); }; auto h = [q](const Vec& x) { return q.h(x); };
    SparseStore S(f, g, h, N, basis), S2(f, g, h, m, P, basis); Items it = c.labels(d, 9); Parameters par; par.sparseBasis = basis; SparseBelief B(it, f, g, h, N, basis);
    Eigen::SelfAdjointEigenSolver<Mat> es(P); Mat R = es.operatorInverseSqrt();
    double mag = 1 + std::fabs(q.f(m)) + q.A.norm() * (1 + R.squaredNorm()) * 10;
    c.close(S.evaluate(m, basis), q.f(m), 1e-6 * mag, "C07-store-mean", "value at the mean");
    int size = findNumGridPoints(d, k); Point p(d);
    for(int i = 0; i < size; ++i) { if(i % (1 + size / 60) == 0) { Vec x = m + R * p.getGridPoint(basis); c.close(S.evaluate(x, basis), q.f(x), 1e-5 * (mag + std::fabs(q.f(x)) + 10) * (1 << k), "C07-store-reproduce", "value at grid point " + num(i)); } if(i + 1 < size) p.advance(); }
    for(int e = 0; e < 4; ++e) {
      Vec x = m + R * c.vec(d, e == 3 ? 4 : 1);
      double v = S.evaluate(x, basis); Vec gr = S.evaluateDerivative(x, basis); Mat he = S.evaluateSecondDerivative(x, basis);
      c.ok(S2.evaluate(x, basis) == v, "C07-store-same", "store built from a location and precision differs");
      c.ok(B.evaluate(x, par) == v && B.evaluateDerivative(x, par) == gr && B.evaluateSecondDerivative(x, par) == he, "C07-belief", "term differs from its store");
      if(gauss) {
        double s = mag + std::fabs(q.f(x)) + (x - m).squaredNorm() * (q.A.norm() + P.norm());
        c.close(v, q.f(x), 1e-6 * s, "C07-gaussian", "Gaussian log-density at " + showv(x));
        c.close(Mat(gr), Mat(q.g(x)), 1e-5 * s, "C07-gaussian-gradient", "gradient at " + showv(x));
        c.close(he, q.h(x), 1e-4 * s, "C07-gaussian-hessian", "Hessian at " + showv(x));
      } else {
        // away from the clamp, derivatives of the stored function are those of its value
        double hh = 1e-4; bool smoothHere = true; Vec z = x; double s = mag + std::fabs(v) + (x - m).squaredNorm() * (q.A.norm() + P.norm());
        Vec ng = numGrad([&](const Vec& y) { return S.evaluate(y, basis); }, x, hh), ng2 = numGrad([&](const Vec& y) { return S.evaluate(y, basis); }, x, hh / 10);
        if((ng - ng2).cwiseAbs().maxCoeff() > 1e-4 * s) smoothHere = false;
        if(smoothHere) { c.close(Mat(gr), Mat(ng), 1e-3 * s, "C07-store-gradient", "gradient at " + showv(x));
          Mat nh = numJac([&](const Vec& y) { return S.evaluateDerivative(y, basis); }, x, 1e-5), nh2 = numJac([&](const Vec& y) { return S.evaluateDerivative(y, basis); }, x, 1e-6);
          if((nh - nh2).cwiseAbs().maxCoeff() < 1e-2 * s) c.close(he, nh, 5e-2 * s, "C07-store-hessian", "Hessian at " + showv(x)); }
      }
    }
  }
  // a grid in transformed coordinates x = m + R z, R any invertible matrix
  reps = (int) (30 * c.scale);
  for(int r = 0; r < reps; ++r) {
    int d = c.integer(1, 4), k = c.integer(0, d <= 2 ? 4 : 2); bool gauss = r % 2;
    Smooth q = smooth(c, d, gauss); Basis basis(k); Vec m = c.vec(d); Mat R(d, d); for(int i = 0; i < d; ++i) for(int j = 0; j < d; ++j) R(i, j) = (i == j ? 1 : 0) + 0.4 * c.norm() / d;
    if(std::fabs(R.determinant()) < 0.05) continue;
    if(gauss) { Mat Ri = R.inverse(); q.A = Ri.transpose() * Ri; q.b = q.A * m; }   // a Gaussian with exactly this location and scale
    c.begin("transform", "d=" + num(d) + " k=" + num(k) + " f: " + show(q) + " shift=" + showv(m) + " scale=" + ::show(R));
    auto f = [q](const Vec& x) { return q.f(x); };
    SparseGridTransform T(f, m, R, basis);
    double mag = 1 + std::fabs(q.f(m)) + q.A.norm() * (1 + R.squaredNorm()) * 10;
    int size = findNumGridPoints(d, k); Point p(d);
    for(int i = 0; i < size; ++i) { if(i % (1 + size / 40) == 0) { Vec x = m + R * p.getGridPoint(basis); c.close(T.interpolate(x, basis), q.f(x), 1e-5 * (mag + std::fabs(q.f(x)) + 10) * (1 << k), "C07-transform-reproduce", "value at grid point " + num(i)); } if(i + 1 < size) p.advance(); }
    for(int e = 0; e < 3; ++e) {
      Vec x = m + R * c.vec(d, 1); double v = T.interpolate(x, basis); Vec g = T.interpolateDerivative(x, basis); Mat h = T.interpolateSecondDerivative(x, basis);
      double s = mag + std::fabs(v);
      if(gauss) { c.close(v, q.f(x), 1e-6 * s, "C07-transform-gaussian", "Gaussian at " + showv(x)); c.close(Mat(g), Mat(q.g(x)), 1e-5 * s, "C07-transform-gaussian-gradient", "gradient at " + showv(x)); c.close(h, q.h(x), 1e-4 * s, "C07-transform-gaussian-hessian", "Hessian at " + showv(x)); continue; }
      Vec ng = numGrad([&](const Vec& y) { return T.interpolate(y, basis); }, x, 1e-4), ng2 = numGrad([&](const Vec& y) { return T.interpolate(y, basis); }, x, 1e-5);
      if((ng - ng2).cwiseAbs().maxCoeff() > 1e-4 * s) continue;
      c.close(Mat(g), Mat(ng), 1e-3 * s, "C07-transform-gradient", "gradient at " + showv(x));
      Mat nh = numJac([&](const Vec& y) { return T.interpolateDerivative(y, basis); }, x, 1e-5), nh2 = numJac([&](const Vec& y) { return T.interpolateDerivative(y, basis); }, x, 1e-6);
      if((nh - nh2).cwiseAbs().maxCoeff() < 1e-2 * s) c.close(h, nh, 5e-2 * s, "C07-transform-hessian", "Hessian at " + showv(x));
    }
  }
  // log-densities that are flat in some directions, or have the curvature of the normal there
  // (a Hessian or the difference of the two has no inverse): still reproduced
  reps = (int) (24 * c.scale);
  for(int r = 0; r < reps; ++r) {
    int d = c.integer(1, 4), k = c.integer(0, d <= 2 ? 3 : 2), rank = c.integer(0, d - 1); bool linear = rank == 0;
    Basis basis(k); Vec m = c.vec(d), u = c.vec(d); Mat P = c.spd(d), L = Mat::Zero(d, d);
    if(r % 2) for(int i = 0; i < rank; ++i) L(i, i) = 1 + std::fabs(c.norm());                         // flat in some coordinates
    else for(int i = 0; i < rank; ++i) { Vec w(d); for(int j = 0; j < d; ++j) w(j) = c.integer(-2, 2); L += w * w.transpose(); }  // flat in other directions
    bool relative = c.integer(0, 2) > 0; if(relative) P = Mat(c.vec(d).array().abs().matrix().asDiagonal()) + Mat::Identity(d, d);
    Smooth q; q.A = relative ? Mat(P + L) : L; q.b = relative ? Vec(q.A * m + L * u) : linear ? Vec(Vec::Zero(d)) : Vec(L * u); q.c0 = c.norm(3); q.w = Vec::Zero(d); q.amp = 0; q.s = 0;
    c.begin("store-flat", "d=" + num(d) + " k=" + num(k) + " f: " + show(q) + " mean=" + showv(m) + " precision=" + ::show(P));
    SparseStore S([q](const Vec& x) { return q.f(x); }, [q](const Vec& x) { return q.g(x); }, [q](const Vec& x) { return q.h(x); }, MultiNormal(m, P), basis);
    Eigen::SelfAdjointEigenSolver<Mat> es(P); Mat R = es.operatorInverseSqrt();
    for(int e = 0; e < 3; ++e) {
      Vec x = m + R * c.vec(d, 1); double s = 1 + std::fabs(q.f(m)) + std::fabs(q.f(x)) + (x - m).squaredNorm() * (q.A.norm() + P.norm()) + q.A.norm() * (1 + R.squaredNorm()) * 10;
      c.close(S.evaluate(x, basis), q.f(x), 1e-6 * s, "C07-flat", "quadratic log-density at " + showv(x));
      c.close(Mat(S.evaluateDerivative(x, basis)), Mat(q.g(x)), 1e-5 * s, "C07-flat-gradient", "gradient at " + showv(x));
      c.close(S.evaluateSecondDerivative(x, basis), q.h(x), 1e-4 * s, "C07-flat-hessian", "Hessian at " + showv(x));
    }
  }
  { // no coordinates left: the store is the constant
    for(int k = 0; k < 3; ++k) { c.begin("store-empty", "k=" + num(k)); Basis basis(k); double v = c.norm(5);
      SparseStore S([v](const Vec&) { return v; }, [](const Vec&) { return Vec(0); }, [](const Vec&) { return Mat(0, 0); }, MultiNormal(Vec(0), Mat(0, 0)), basis);
      c.close(S.evaluate(Vec(0), basis), v, 0, "C07-empty", "constant"); }
  }
}
