// C05: signed sums of factors
#include "conf.h"
#include "MixedContinuousBelief.h"
#include "MixedContinuousBeliefVector.h"
struct Factor { Items items; Vec m; Mat P; double c0; bool sparse; };
static double lg(const Vec& m, const Mat& P, const Vec& x) {
  double ld = 0; Eigen::LLT<Mat> l(P); for(int i = 0; i < m.size(); ++i) ld += std::log(l.matrixL()(i, i));
  Vec e = x - m; return ld - 0.5 * m.size() * std::log(2 * std::acos(-1.0)) - 0.5 * e.dot(P * e);
}
void run(Conf& c) {
  Parameters par; par.GLMMTheta = Vec::Constant(2, 0.7); par.GLMMBeta = Vec::Constant(1, 0.3); par.GLMMFamily = Family("binomial", "logit");
  int reps = (int) (300 * c.scale);
  for(int r = 0; r < reps; ++r) {
    int d = r % 11 == 0 ? 1 : c.integer(1, 7);
    Items items = c.labels(d, d + c.integer(0, 8));
    c.begin("signed-sum", "");
    MixedContinuousBelief M(items);
    c.ok(M.getItems() == items, "C05-items", "items of an empty term");
    std::ostringstream desc; desc << "items=" << show(items);
    // the sum kept by the specification: value, gradient and Hessian at fixed points
    std::vector<Vec> xs; for(int q = 0; q < 3; ++q) xs.push_back(c.vec(d));
    std::vector<double> val(3, 0); std::vector<Vec> gr(3, Vec::Zero(d)); std::vector<Mat> he(3, Mat::Zero(d, d));
    double scale = 1;
    auto compare = [&](const std::string& k) {
      c.current = desc.str();
      c.ok(M.getItems() == items, "C05-items", "items changed");
      for(int q = 0; q < 3; ++q) {
        c.close(M.evaluate(xs[q], par), val[q], 1e-9 * scale, "C05-value" + k, "signed sum at x=" + showv(xs[q]));
        c.close(Mat(M.evaluateDerivative(xs[q], par)), Mat(gr[q]), 1e-9 * scale, "C05-gradient" + k, "gradient at x=" + showv(xs[q]));
        c.close(M.evaluateSecondDerivative(xs[q], par), he[q], 1e-9 * scale, "C05-hessian" + k, "Hessian at x=" + showv(xs[q]));
      }
    };
    compare("-empty");
    int K = c.integer(1, 6);
    std::vector<std::pair<MixedContinuousBelief, int>> used;
    for(int f = 0; f < K; ++f) {
      int k = c.integer(f == 0 && r % 3 == 0 ? d : 1, d);
      Items s = c.subset(d, k), lab; for(int i : s) lab.push_back(items[i]);
      bool glmm = c.integer(0, 2) == 0;
      ContinuousBelief cb; Vec m = c.vec(k); Mat P = c.spd(k);
      Mat X, Zt; Arr y, w; Eigen::SparseMatrix<double> La; Eigen::VectorXi Li;
      if(glmm) {
        int n = c.integer(1, 4); X = c.mat(n, 1); Zt = c.mat(k, n); y = Arr(n); w = Arr(n);
        for(int i = 0; i < n; ++i) { y(i) = c.integer(0, 1); w(i) = c.integer(1, 3); }
        Mat L0 = Mat::Identity(k, k); La = L0.sparseView(); Li = Eigen::VectorXi::Zero(k); for(int i = 0; i < k; ++i) Li(i) = c.integer(0, 1);
        cb = ContinuousBelief(lab, X, Zt, La, Li, y, w);
      } else cb = ContinuousBelief(lab, m, P);
      MixedContinuousBelief fac(cb);
      c.ok(fac.getItems() == lab, "C05-factor-items", "items of a single factor");
      int sign = c.integer(0, 2) ? 1 : -1;
      desc << " | " << (sign > 0 ? "*" : "/") << (glmm ? "glmm" : "normal") << show(lab);
      if(sign > 0) M *= fac; else M /= fac;
      for(int q = 0; q < 3; ++q) {
        Vec x(k); for(int i = 0; i < k; ++i) x(i) = xs[q](s[i]);
        double v; Vec g; Mat h;
        if(glmm) {
          Mat A(k, X.rows()); for(int i = 0; i < k; ++i) A.row(i) = par.GLMMTheta(Li(i)) * Zt.row(i);
          Arr eta = (X * par.GLMMBeta + A.transpose() * x).array(), mu = 1 / (1 + (-eta).exp());
          v = (w * (y * mu.log() + (1 - y) * (1 - mu).log())).sum();
          g = A * (w * (y - mu)).matrix(); h = -A * (w * mu * (1 - mu)).matrix().asDiagonal() * A.transpose();
        } else { v = lg(m, P, x); g = -P * (x - m); h = -P; }
        val[q] += sign * v; scale += std::fabs(v) + g.cwiseAbs().maxCoeff() + h.cwiseAbs().maxCoeff();
        for(int i = 0; i < k; ++i) { gr[q](s[i]) += sign * g(i); for(int j = 0; j < k; ++j) he[q](s[i], s[j]) += sign * h(i, j); }
      }
      compare("");
      used.push_back({fac, sign});
    }
    // combined terms combine: multiply by a whole signed sum, then divide by it again
    std::vector<double> v0 = val;
    MixedContinuousBelief copy = M;
    M *= copy; for(int q = 0; q < 3; ++q) { val[q] *= 2; gr[q] *= 2; he[q] *= 2; } scale *= 2; desc << " | *self"; compare("-product");
    M /= copy; for(int q = 0; q < 3; ++q) { val[q] /= 2; gr[q] /= 2; he[q] /= 2; } desc << " | /self"; compare("-undo");
    M /= copy; for(int q = 0; q < 3; ++q) { val[q] = 0; gr[q].setZero(); he[q].setZero(); } desc << " | /self"; compare("-cancel");
    M *= copy; for(int q = 0; q < 3; ++q) val[q] = v0[q];
    for(int q = 0; q < 3; ++q) c.close(M.evaluate(xs[q], par), val[q], 1e-9 * scale, "C05-value-restored", "value after dividing and multiplying");
    for(auto& u : used) { if(u.second > 0) M /= u.first; else M *= u.first; }
    for(int q = 0; q < 3; ++q) c.close(M.evaluate(xs[q], par), 0, 1e-8 * scale, "C05-undo-each", "value after undoing each factor");
    c.ok(copy.getItems() == items, "C05-copy", "items of a copy"); 
    for(int q = 0; q < 3; ++q) c.close(copy.evaluate(xs[q], par), v0[q], 1e-9 * scale, "C05-copy", "value of a copy");
  }
  // a single factor, through the appenders
  for(int r = 0; r < (int) (40 * c.scale); ++r) {
    int k = c.integer(1, 4); Items it = c.labels(k, 9); Vec m = c.vec(k); Mat P = c.spd(k);
    c.begin("append", "items=" + show(it)); MixedContinuousBeliefVector bs; size_t before = bs.size();
    appendNormalBelief(bs, it, m, P);
    c.ok(bs.size() == before + 1 && bs.back().getItems() == it, "C05-append", "append adds one term on its own items");
    Vec x = c.vec(k); c.close(bs.back().evaluate(x, par), lg(m, P, x), 1e-8 * (1 + P.cwiseAbs().maxCoeff() * 20), "C05-append", "value of the appended normal term");
  }
}
