// C03: integrating out one coordinate
#include "conf.h"
#include "IntegratedFunction.h"
struct Density {           // log-density with its exact gradient and Hessian
  int d; Mat A; Vec b; double c0; Mat W; Vec amp; Vec off;
  double f(const Vec& x) const {
    double v = -0.5 * x.dot(A * x) + b.dot(x) + c0;
    for(int k = 0; k < amp.size(); ++k) { double t = W.row(k).dot(x) + off(k); v -= amp(k) * (t > 0 ? t + std::log1p(std::exp(-t)) : std::log1p(std::exp(t))); }
    return v;
  }
  Vec g(const Vec& x) const {
    Vec r = -A * x + b;
    for(int k = 0; k < amp.size(); ++k) { double t = W.row(k).dot(x) + off(k), p = 1 / (1 + std::exp(-t)); r -= amp(k) * p * W.row(k).transpose(); }
    return r;
  }
  Mat h(const Vec& x) const {
    Mat r = -A;
    for(int k = 0; k < amp.size(); ++k) { double t = W.row(k).dot(x) + off(k), p = 1 / (1 + std::exp(-t)); r -= amp(k) * p * (1 - p) * W.row(k).transpose() * W.row(k); }
    return r;
  }
};
static Vec extend(const Vec& x, int t, double v) {
  Vec r(x.size() + 1); int j = 0;
  for(int i = 0; i < r.size(); ++i) r(i) = i == t ? v : x(j++);
  return r;
}
static Items others(int d, int t) { Items r; for(int i = 0; i < d; ++i) if(i != t) r.push_back(i); return r; }
static Mat sel(const Mat& m, const Items& r, const Items& c) { Mat o(r.size(), c.size()); for(size_t i = 0; i < r.size(); ++i) for(size_t j = 0; j < c.size(); ++j) o(i, j) = m(r[i], c[j]); return o; }
void run(Conf& c) {
  int reps = (int) (260 * c.scale);
  for(int r = 0; r < reps; ++r) {
    int d = r % 13 == 0 ? 1 : c.integer(1, 6), t = c.integer(0, d - 1), n = r % 5 == 0 ? c.integer(1, 2) : c.integer(1, 15);
    bool gaussian = r % 3 == 0;
    Density den; den.d = d; den.A = c.spd(d); den.b = c.vec(d); den.c0 = r % 7 == 0 ? c.norm(300) : c.norm(3);
    int K = gaussian ? 0 : c.integer(1, 4); den.W = c.mat(K, d); den.amp = c.vec(K).cwiseAbs(); den.off = c.vec(K);
    Vec mean; Mat prec;
    if(gaussian) { mean = den.A.inverse() * den.b; prec = den.A; }
    else { mean = c.vec(d); prec = c.spd(d); }
    MultiNormal normal(mean, prec);
    QuadratureRule rule(n);
    auto f = [den](const Vec& x) { return den.f(x); };
    auto g = [den](const Vec& x) { return den.g(x); };
    auto h = [den](const Vec& x) { return den.h(x); };
    IntegratedFunction I(t, f, g, h, normal);
    Vec x(d - 1); Items o = others(d, t);
    for(int i = 0; i < d - 1; ++i) x(i) = mean(o[i]) + c.norm(r % 4 == 1 ? 0.3 : 1);
    c.begin(gaussian ? "gaussian" : "general", "d=" + num(d) + " integrateOver=" + num(t) + " n=" + num(n) + " x=" + showv(x) + " mean=" + showv(mean) + " precision=" + show(prec) + " A=" + show(den.A) + " b=" + showv(den.b) + " c=" + num(den.c0) + " W=" + show(den.W) + " amp=" + showv(den.amp) + " off=" + showv(den.off));
    // the conditional Gaussian, from the precision: mean m_t - P_to (x - m_o) / P_tt, variance 1 / P_tt
    double ptt = prec(t, t), cm = mean(t);
    for(int i = 0; i < d - 1; ++i) cm -= prec(t, o[i]) / ptt * (x(i) - mean(o[i]));
    double sd = 1 / std::sqrt(ptt);
    Arr nodes = rule.getNodes(), w = rule.getWeights();
    long double sum = 0; long double top = -1e300;
    std::vector<long double> ls;
    for(int i = 0; i < n; ++i) { double u = cm + std::sqrt(2.) * sd * nodes(i); ls.push_back(logl(w(i)) + (long double) nodes(i) * nodes(i) + den.f(extend(x, t, u))); top = std::max(top, ls.back()); }
    for(auto l : ls) sum += expl(l - top);
    double want = (double) (logl(sum) + top + logl(sqrtl(2) * sd));
    double got = I.evaluate(x, rule);
    double tol = 1e-7 * (1 + std::fabs(want) * 1e-3 + std::fabs(den.c0) * 1e-6);
    c.close(got, want, tol, "C03-value", "log integral against the quadrature sum along the conditional Gaussian");
    if(gaussian) {
      Mat Aoo = sel(den.A, o, o), Aot = sel(den.A, o, {t});
      Vec bo(d - 1); for(int i = 0; i < d - 1; ++i) bo(i) = den.b(o[i]);
      double bt = den.b(t) - (d > 1 ? Aot.col(0).dot(x) : 0);
      double exact = den.c0 + 0.5 * std::log(2 * std::acos(-1.0)) - 0.5 * std::log(ptt) + 0.5 * bt * bt / ptt;
      if(d > 1) exact += -0.5 * x.dot(Aoo * x) + bo.dot(x);
      c.close(got, exact, tol + 1e-7, "C03-gaussian", "Gaussian marginal");
      if(d > 1) {
        Vec ge = bo - Aoo * x - Aot.col(0) * bt / ptt; Mat he = -Aoo + Aot * Aot.transpose() / ptt;
        c.close(Mat(I.evaluateDerivative(x, rule)), Mat(ge), 1e-7 * (1 + ge.cwiseAbs().maxCoeff()), "C03-gaussian-gradient", "gradient of the Gaussian marginal");
        c.close(I.evaluateSecondDerivative(x, rule), he, 1e-6 * (1 + he.cwiseAbs().maxCoeff() + ge.squaredNorm()), "C03-gaussian-hessian", "Hessian of the Gaussian marginal");
      }
    }
    Vec grad = I.evaluateDerivative(x, rule); Mat hess = I.evaluateSecondDerivative(x, rule);
    if(!c.ok(grad.size() == d - 1 && hess.rows() == d - 1 && hess.cols() == d - 1, "C03-shape", "shape of gradient or Hessian")) continue;
    if(d > 1) {
      auto v = [&](const Vec& z) { return I.evaluate(z, rule); };
      auto gv = [&](const Vec& z) { return I.evaluateDerivative(z, rule); };
      Vec ng = numGrad(v, x, 2e-3); Mat nh = numJac(gv, x, 2e-3);
      double sc = 1 + ng.cwiseAbs().maxCoeff() + nh.cwiseAbs().maxCoeff();
      c.close(Mat(grad), Mat(ng), 2e-6 * sc * (1 + 1e-3 * std::fabs(den.c0)), "C03-gradient", "gradient against differences of the value");
      c.close(hess, nh, 2e-5 * sc, "C03-hessian", "Hessian against differences of the gradient");
      c.close(hess, Mat(hess.transpose()), 1e-9 * sc, "C03-hessian-symmetric", "symmetry of the Hessian");
    }
    // an evaluation leaves the function as it was
    Vec x2 = x.array() + 0.7; I.evaluate(x2, rule); I.evaluateSecondDerivative(x2, QuadratureRule(3));
    c.ok(I.evaluate(x, rule) == got, "C03-repeat", "a second evaluation differs");
  }
}
