// C06: the linear predictor of the current parameters only
#include "conf.h"
#include "ContinuousBelief.h"
#include "MixedContinuousBelief.h"
struct Term {
  int k, n, p; Items items; Mat X, Zt; Mat Lpat; Eigen::SparseMatrix<double> La; Eigen::VectorXi Lind; Arr y, w; int nth;
};
static Term make(Conf& c, int kmax = 5) {
  Term t; t.k = c.integer(1, kmax); t.n = c.integer(0, 6); t.p = c.integer(0, 3); t.items = c.labels(t.k, t.k + 5);
  t.X = c.mat(t.n, t.p); t.Zt = c.mat(t.k, t.n);
  t.Lpat = Mat::Zero(t.k, t.k); bool diag = c.integer(0, 1);
  std::vector<Eigen::Triplet<double>> tr;
  for(int j = 0; j < t.k; ++j) for(int i = 0; i <= j; ++i) if(i == j ? c.integer(0, 9) > 0 || t.k == 1 : (!diag && c.integer(0, 1))) tr.push_back({i, j, 1.0 + c.integer(0, 3)});
  t.La.resize(t.k, t.k); t.La.setFromTriplets(tr.begin(), tr.end()); t.La.makeCompressed();
  t.nth = c.integer(1, 7); t.Lind.resize(t.La.nonZeros());
  for(int i = 0; i < t.Lind.size(); ++i) t.Lind(i) = c.integer(0, t.nth - 1);
  t.y.resize(t.n); t.w.resize(t.n);
  for(int i = 0; i < t.n; ++i) { t.w(i) = c.integer(0, 4); t.y(i) = c.integer(0, 1); }
  return t;
}
static Mat lambdat(const Term& t, const Vec& theta) {
  Mat L = Mat::Zero(t.k, t.k); int idx = 0;
  for(int j = 0; j < t.k; ++j) for(int q = t.La.outerIndexPtr()[j]; q < t.La.outerIndexPtr()[j + 1]; ++q) L(t.La.innerIndexPtr()[q], j) = theta(t.Lind(idx++));
  return L;
}
static std::string showT(const Term& t) { return "items=" + show(t.items) + " X=" + show(t.X) + " Zt=" + show(t.Zt) + " Lambdat=" + show(Mat(t.La)) + " Lind=" + show(Mat(t.Lind.cast<double>().transpose())) + " y=" + showv(t.y.matrix()) + " w=" + showv(t.w.matrix()); }
static void expect(Conf& c, const Term& t, ContinuousBelief& b, const Vec& theta, const Vec& beta, const Vec& u, const std::string& link, const std::string& k, int which = 7) {
  Parameters par; par.GLMMTheta = theta; par.GLMMBeta = beta; par.GLMMFamily = Family("binomial", link);
  Mat A = lambdat(t, theta) * t.Zt;
  Arr eta = (t.X * beta + A.transpose() * u).array();
  Family fam("binomial", link);
  double tol = 1e-9 * (1 + t.n * (1 + A.cwiseAbs().sum()) * 10);
  std::string in = " theta=" + showv(theta) + " beta=" + showv(beta) + " u=" + showv(u) + " link=" + link;
  if(which & 1) c.close(b.evaluate(u, par), fam.evaluate(eta, t.y, t.w), tol * (1 + eta.abs().sum()), k + "-value", "value at" + in);
  if(which & 2) c.close(Mat(b.evaluateDerivative(u, par)), Mat(A * fam.evaluateDerivative(eta, t.y, t.w).matrix()), tol, k + "-gradient", "gradient at" + in);
  if(which & 4) c.close(b.evaluateSecondDerivative(u, par), Mat(A * fam.evaluateSecondDerivative(eta, t.y, t.w).matrix().asDiagonal() * A.transpose()), tol * (1 + A.cwiseAbs().sum()), k + "-hessian", "Hessian at" + in);
}
void run(Conf& c) {
  int reps = (int) (250 * c.scale);
  for(int r = 0; r < reps; ++r) {
    Term t = make(c); c.begin("history", showT(t));
    ContinuousBelief b(t.items, t.X, t.Zt, t.La, t.Lind, t.y, t.w);
    ContinuousBelief shared = b; MixedContinuousBelief mixed(b);
    c.ok(b.getItems() == t.items, "C06-items", "items");
    std::vector<Vec> thetas, betas;
    for(int q = 0; q < 4; ++q) { thetas.push_back(c.vec(t.nth).cwiseAbs()); betas.push_back(c.vec(t.p)); }
    thetas.push_back(Vec::Zero(t.nth)); betas.push_back(Vec::Zero(t.p));
    { Vec th = thetas[0]; th(c.integer(0, t.nth - 1)) += 1e-9; thetas.push_back(th); Vec be = betas[0]; if(t.p) be(t.p - 1) += 1e-9; betas.push_back(be); }
    { Vec th = thetas[0]; th(c.integer(0, t.nth - 1)) *= -1; thetas.push_back(th); Vec be = betas[0]; if(t.p > 1) std::swap(be(0), be(t.p - 1)); betas.push_back(be); }
    { Vec th(t.nth + 1); th << thetas[0], 2.5; thetas.push_back(th); betas.push_back(betas[1]); }
    if(t.nth > 1) { Vec th = thetas[0].reverse(); thetas.push_back(th); betas.push_back(betas[1]); }
    std::string link = c.integer(0, 1) ? "logit" : "probit";
    for(int step = 0; step < 14; ++step) {
      ContinuousBelief& which = c.integer(0, 2) ? b : shared;
      Vec th = thetas[c.integer(0, thetas.size() - 1)], be = betas[c.integer(0, betas.size() - 1)];
      Vec u = c.vec(t.k); if(c.integer(0, 4) == 0) u.setZero();
      if(c.integer(0, 5) == 0) link = link == "logit" ? "probit" : "logit";
      expect(c, t, which, th, be, u, link, "C06", 1 << c.integer(0, 2));
      if(c.integer(0, 3) == 0) { Parameters par; par.GLMMTheta = th; par.GLMMBeta = be; par.GLMMFamily = Family("binomial", link); Vec ux = c.vec(t.k); mixed.evaluate(ux, par); }
      if(step % 5 == 4) expect(c, t, which, th, be, u, link, "C06");
    }
    // the same call gives the identical number whatever happened in between
    Parameters p1; p1.GLMMTheta = thetas[0]; p1.GLMMBeta = betas[0]; p1.GLMMFamily = Family("binomial", "logit");
    Parameters p2 = p1; p2.GLMMTheta = thetas[1]; p2.GLMMBeta = betas[1];
    Vec u = c.vec(t.k); double a = b.evaluate(u, p1); shared.evaluate(u, p2); mixed.evaluateDerivative(u, p2); p2.GLMMFamily = Family("binomial", "probit"); mixed.evaluate(u, p2);
    c.ok(b.evaluate(u, p1) == a, "C06-identical", "a repeated call differs after a call with other parameters");
    // a call that fails leaves no trace
    Parameters bad = p1; bad.GLMMTheta = thetas[2]; bad.GLMMFamily = Family();
    ContinuousBelief fresh(t.items, t.X, t.Zt, t.La, t.Lind, t.y, t.w);
    c.ok(fresh.evaluate(u, p1) == a, "C06-fresh", "a fresh object gives another value");
  }
}
