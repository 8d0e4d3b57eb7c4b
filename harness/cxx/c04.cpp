// C04: Gaussian algebra
#include "conf.h"
#include "MultiNormal.h"
#include "NormalBelief.h"
static double lg(const Vec& m, const Mat& P, const Vec& x) {
  double ld = 0; if(m.size()) { Eigen::LLT<Mat> l(P); for(int i = 0; i < m.size(); ++i) ld += std::log(l.matrixL()(i, i)); }
  Vec e = x - m; return ld - 0.5 * m.size() * std::log(2 * std::acos(-1.0)) - 0.5 * e.dot(P * e);
}
static void whole(Conf& c, const MultiNormal& N, const Vec& m, const Mat& P, const std::string& k, double rel = 1e-7) {
  int d = m.size(); double sc = 1 + (d ? P.cwiseAbs().maxCoeff() : 0) + (d ? Mat(P.inverse()).cwiseAbs().maxCoeff() : 0) + (d ? m.cwiseAbs().maxCoeff() : 0);
  double tol = rel * sc * sc;
  c.close(Mat(N.getMean()), Mat(m), tol, k + "-mean", "mean");
  c.close(N.getPrecision(), P, tol, k + "-precision", "precision");
  if(d) { c.close(N.getVariance(), Mat(P.inverse()), tol, k + "-variance", "variance");
    c.close(Mat(N.getVariance() * N.getPrecision()), Mat(Mat::Identity(d, d)), tol, k + "-inverse", "variance times precision"); }
  c.ok(N.dimension() == d, k + "-dimension", "dimension");
  if(N.getMean().size() != d) return;
  for(int r = 0; r < 2; ++r) {
    Vec x = m + c.vec(d);
    c.close(N.evaluate(x), lg(m, P, x), tol * 3, k + "-density", "log-density");
    c.close(Mat(N.evaluateDerivative(x)), Mat(-P * (x - m)), tol * 3, k + "-gradient", "gradient of the log-density");
    c.close(N.evaluateSecondDerivative(x), Mat(-P), tol, k + "-hessian", "Hessian of the log-density");
  }
}
static Mat embed(const Mat& P, const Items& s, int d) { Mat o = Mat::Zero(d, d); for(size_t i = 0; i < s.size(); ++i) for(size_t j = 0; j < s.size(); ++j) o(s[i], s[j]) = P(i, j); return o; }
static Vec sel(const Vec& v, const Items& s) { Vec o(s.size()); for(size_t i = 0; i < s.size(); ++i) o(i) = v(s[i]); return o; }
static Mat sel(const Mat& v, const Items& s) { Mat o(s.size(), s.size()); for(size_t i = 0; i < s.size(); ++i) for(size_t j = 0; j < s.size(); ++j) o(i, j) = v(s[i], s[j]); return o; }
void run(Conf& c) {
  int reps = (int) (500 * c.scale);
  for(int r = 0; r < reps; ++r) {
    int d = r % 17 == 0 ? c.integer(0, 1) : c.integer(1, 7);
    Vec m = c.vec(d, r % 5 == 0 ? 20 : 1); Mat P = c.spd(d);
    if(r % 6 == 1) P *= std::exp(c.norm(2));
    std::string base = "d=" + num(d) + " mean=" + showv(m) + " precision=" + show(P);
    c.begin("construct", base);
    MultiNormal N(m, P);
    if(d) whole(c, N, m, P, "C04-construct");
    if(!d) continue;
    c.ok(N.isProper() || std::fabs(lg(m, P, m)) < 1e-300, "C04-proper", "a proper Gaussian is called improper");
    c.ok(!MultiNormal(m, Mat::Zero(d, d)).isProper(), "C04-proper", "a flat Gaussian is called proper");
    { MultiNormal A(d); A.setMean(m); A.setVariance(P.inverse()); whole(c, A, m, P, "C04-setVariance", 1e-6); }
    { MultiNormal A(m, Mat::Identity(d, d)); A.setPrecision(P); whole(c, A, m, P, "C04-setPrecision"); Vec m2 = c.vec(d); A.setMean(m2); whole(c, A, m2, P, "C04-setMean"); }
    { // from a location, gradient and Hessian
      Vec loc = c.vec(d), g = c.vec(d); Mat H = -P;
      c.begin("derivatives", base + " location=" + showv(loc) + " gradient=" + showv(g));
      MultiNormal A(loc, g, H);
      double sc = 1 + P.cwiseAbs().maxCoeff() + P.inverse().eval().cwiseAbs().maxCoeff();
      c.close(Mat(A.evaluateDerivative(loc)), Mat(g), 1e-8 * sc * sc, "C04-from-derivatives", "gradient at the location");
      c.close(A.evaluateSecondDerivative(loc), H, 1e-9 * sc, "C04-from-derivatives", "Hessian");
      whole(c, A, loc + P.ldlt().solve(g), P, "C04-from-derivatives", 1e-6);
    }
    // multiply and divide on a subset in any order, with a common mean
    int k = c.integer(0, d); Items s = c.subset(d, k);
    Vec ms = sel(m, s); Mat Q = c.spd(k);
    c.begin("multiply", base + " subset=" + show(s) + " other precision=" + show(Q));
    {
      MultiNormal A(m, P), B(ms, Q); A.multiplySubset(B, s);
      Mat P2 = P + embed(Q, s, d); whole(c, A, m, P2, "C04-multiply", 1e-7);
      A.divideSubset(B, s); whole(c, A, m, P, "C04-divide", 1e-6);
      whole(c, B, ms, Q, "C04-argument");
      // dividing first, when the result is proper
      MultiNormal D(m, P2); D.divideSubset(B, s); whole(c, D, m, P, "C04-divide", 1e-6);
      // non-matching means: the precision is still the sum of the entries
      MultiNormal E(m, P), F(c.vec(k), Q); E.multiplySubset(F, s);
      double sc = 1 + P2.cwiseAbs().maxCoeff() + P2.inverse().eval().cwiseAbs().maxCoeff();
      c.close(E.getPrecision(), P2, 1e-9 * sc, "C04-multiply-precision", "precision with other means");
      c.close(Mat(E.getVariance() * P2), Mat(Mat::Identity(d, d)), 1e-7 * sc * sc, "C04-multiply-inverse", "variance with other means");
      // the same items in full: the usual product of two Gaussians
      Items all = c.subset(d, d); Vec mo = c.vec(d); Mat Po = c.spd(d);
      MultiNormal G(m, P), H(mo, Po); G.multiplySubset(H, all);
      Mat Pt = P + embed(Po, all, d); Vec mv = Vec::Zero(d); for(int i = 0; i < d; ++i) mv(all[i]) = mo(i);
      Vec want = Pt.ldlt().solve(P * m + embed(Po, all, d) * mv);
      whole(c, G, want, Pt, "C04-multiply-all", 1e-6);
    }
    // marginals
    c.begin("margin", base + " items=" + show(s));
    Mat V = P.inverse();
    if(k) { MultiNormal M = N.computeMarginal(s); whole(c, M, ms, Mat(sel(V, s).inverse()), "C04-margin", 1e-6); }
    else c.ok(N.computeMarginal(s).dimension() == 0, "C04-margin-empty", "empty marginal");
    { int t = c.integer(0, d - 1); Items rest; for(int i = 0; i < d; ++i) if(i != t) rest.push_back(i);
      c.begin("integrate", base + " item=" + num(t));
      MultiNormal M = N.integrate(t);
      c.ok(M.dimension() == d - 1, "C04-integrate-dimension", "dimension after integrating");
      if(d > 1) whole(c, M, sel(m, rest), Mat(sel(V, rest).inverse()), "C04-integrate", 1e-6); }
    // labelled items
    Items it = c.labels(d, d + c.integer(0, 6)); Items sub; for(int i : s) sub.push_back(it[i]);
    double lc = c.norm(3), lo = c.norm(3);
    c.begin("labelled", base + " items=" + show(it) + " other items=" + show(sub) + " other precision=" + show(Q));
    Parameters par;
    NormalBelief A(it, N, lc), B(sub, MultiNormal(ms, Q), lo);
    auto belief = [&](NormalBelief& b, const Vec& mm, const Mat& PP, double cst, const std::string& kk) {
      whole(c, b.getNormal(), mm, PP, kk, 1e-6);
      c.close(b.getLogNormalizingConstant(), cst, 1e-10 * (1 + std::fabs(cst)), kk + "-constant", "log normalizing constant");
      Vec x = mm + c.vec(mm.size());
      double sc = 1 + PP.cwiseAbs().maxCoeff();
      c.close(b.evaluate(x, par), cst + lg(mm, PP, x), 1e-6 * sc * sc, kk + "-belief-value", "value");
      c.close(Mat(b.evaluateDerivative(x, par)), Mat(-PP * (x - mm)), 1e-6 * sc * sc, kk + "-belief-gradient", "gradient");
      c.close(b.evaluateSecondDerivative(x, par), Mat(-PP), 1e-6 * sc * sc, kk + "-belief-hessian", "Hessian");
    };
    belief(A, m, P, lc, "C04-belief");
    A *= B; belief(A, m, P + embed(Q, s, d), lc + lo, "C04-belief-multiply");
    c.ok(A.getItems() == it, "C04-belief-items", "items after multiplying");
    A /= B; belief(A, m, P, lc, "C04-belief-divide");
    if(k) { NormalBelief M = A.margin(sub); c.ok(M.getItems() == sub, "C04-belief-margin-items", "items of the margin"); belief(M, ms, Mat(sel(V, s).inverse()), lc, "C04-belief-margin"); }
    { NormalBelief C(it, m, P); belief(C, m, P, 0, "C04-belief-construct"); Vec loc = c.vec(d), g = c.vec(d); NormalBelief D(it, loc, g, -P); belief(D, loc + P.ldlt().solve(g), P, 0, "C04-belief-derivatives"); }
    { NormalBelief F(it); c.ok(F.getNormal().getPrecision() == Mat::Zero(d, d) && F.getNormal().getMean() == Vec::Zero(d), "C04-flat", "flat belief");
      // multiplying a flat Gaussian by a proper one over all the items gives that one
      Items al = c.subset(d, d); Items lab; Vec mp(d); Mat Pp(d, d); for(int i : al) lab.push_back(it[i]); mp = sel(m, al); Pp = sel(P, al);
      NormalBelief G(lab, mp, Pp); F *= G; belief(F, m, P, 0, "C04-flat-multiply"); }
  }
}
