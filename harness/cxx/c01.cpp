// C01: binomial log-likelihood terms and derivatives
#include "conf.h"
#include "Family.h"
#include <stdexcept>
typedef long double L;
static const L EPS = 1e-8L;
// mean, 1 - mean and the derivatives of the mean, from formulas independent of the code
struct Ref { L mu, q, d1, d2, d3, d4; bool clampLow, clampHigh, near; };
static Ref refLogit(L e) {
  Ref r; L p = e >= 0 ? 1 / (1 + expl(-e)) : expl(e) / (1 + expl(e));
  L q = e >= 0 ? expl(-e) / (1 + expl(-e)) : 1 / (1 + expl(e));
  r.mu = p; r.q = q; L v = p * q; L t = q - p;
  r.d1 = v; r.d2 = v * t; r.d3 = v * (t * t - 2 * v); r.d4 = v * t * (t * t - 8 * v);
  return r;
}
static Ref refProbit(L e) {
  Ref r; r.mu = 0.5L * erfcl(-e / sqrtl(2)); r.q = 0.5L * erfcl(e / sqrtl(2));
  L f = fabsl(e) > 200 ? 0 : expl(-e * e / 2) / sqrtl(2 * acosl(-1.0L));
  if(f == 0) { r.d1 = r.d2 = r.d3 = r.d4 = 0; return r; }
  r.d1 = f; r.d2 = -e * f; r.d3 = (e * e - 1) * f; r.d4 = (3 * e - e * e * e) * f;
  return r;
}
static Ref ref(const std::string& link, double e) {
  Ref r = link == "logit" ? refLogit(e) : refProbit(e);
  r.clampLow = r.mu < EPS; r.clampHigh = r.q < EPS;
  r.near = fabsl(r.mu - EPS) < 1e-14L || fabsl(r.q - EPS) < 1e-14L;
  if(r.clampLow) { r.mu = EPS; r.q = 1 - EPS; }
  if(r.clampHigh) { r.mu = 1 - EPS; r.q = EPS; }
  return r;
}
static void term(const std::string& link, double e, double y, double w, L out[5], L tol[5], bool& clamped) {
  Ref r = ref(link, e);
  clamped = r.clampLow || r.clampHigh || r.near;
  L m = r.mu, q = r.q;
  out[0] = w * (y * logl(m) + (1 - y) * logl(q));
  L f1 = y / m - (1 - y) / q, f2 = -(y / (m * m) + (1 - y) / (q * q));
  L f3 = 2 * (y / (m * m * m) - (1 - y) / (q * q * q)), f4 = -6 * (y / powl(m, 4) + (1 - y) / powl(q, 4));
  out[1] = w * r.d1 * f1;
  out[2] = w * (r.d1 * r.d1 * f2 + r.d2 * f1);
  out[3] = w * (powl(r.d1, 3) * f3 + 3 * r.d1 * r.d2 * f2 + r.d3 * f1);
  out[4] = w * (powl(r.d1, 4) * f4 + 6 * r.d1 * r.d1 * r.d2 * f3 + (4 * r.d1 * r.d3 + 3 * r.d2 * r.d2) * f2 + r.d4 * f1);
  L rel = 400 * 2.3e-16L / std::min(m, q), big = powl(1 + fabsl((L) e), 1);
  for(int k = 0; k < 5; ++k) {
    L s = 1; for(int j = 0; j < k; ++j) s *= link == "probit" ? big : 1;
    tol[k] = fabsl(w) * (1 + fabsl(y)) * s * (rel + 1e-12L) + 1e-12L * fabsl(out[k]);
  }
}
static void one(Conf& c, const std::string& link, const Arr& eta, const Arr& y, const Arr& w) {
  Family fam("binomial", link);
  int n = eta.size();
  c.begin("family-" + link, "link=" + link + " eta=" + showv(eta.matrix()) + " y=" + showv(y.matrix()) + " w=" + showv(w.matrix()));
  double v = fam.evaluate(eta, y, w);
  Arr d[5];
  d[1] = fam.evaluateDerivative(eta, y, w); d[2] = fam.evaluateSecondDerivative(eta, y, w);
  d[3] = fam.evaluateThirdDerivative(eta, y, w); d[4] = fam.evaluateFourthDerivative(eta, y, w);
  L total = 0, tolTotal = 0;
  for(int k = 1; k < 5; ++k) c.ok(d[k].size() == n, "C01-size", "derivative has the wrong length");
  for(int i = 0; i < n; ++i) {
    L out[5], tol[5]; bool clamped;
    term(link, eta(i), y(i), w(i), out, tol, clamped);
    total += out[0]; tolTotal += tol[0];
    for(int k = 1; k < 5; ++k) {
      c.ok(std::isfinite(d[k](i)), "C01-finite-d" + num(k), "derivative of order " + num(k) + " is not finite at eta=" + num(eta(i)));
      if(!clamped) c.close(d[k](i), (double) out[k], (double) tol[k], "C01-d" + num(k), "derivative of order " + num(k) + " at eta=" + num(eta(i)));
    }
  }
  c.ok(std::isfinite(v), "C01-finite-value", "value is not finite");
  c.close(v, (double) total, (double) tolTotal, "C01-value", "log-likelihood");
}
static Arr arr(std::initializer_list<double> l) { Arr a(l.size()); int i = 0; for(double x : l) a(i++) = x; return a; }
void run(Conf& c) {
  std::vector<double> grid = {0, -0.0, 1e-300, 1e-12, 0.1, 0.5, 1, 1.2, 2, 3, 4, 5, 5.5, 5.6, 5.62, 6, 7, 8, 8.3, 10, 12, 15, 18, 18.3, 18.42, 18.43, 20,
    30, 36, 36.8, 37, 38, 38.5, 39, 40, 50, 88, 100, 200, 236, 237, 300, 354, 355, 400, 500, 700, 709, 709.7, 709.8, 710, 744, 745, 746, 800, 1000, 1e4, 1e8, 1e50, 1e77, 1e80, 1e102, 1e103, 1e110, 1e150, 1e154, 1e155, 1e200, 1e300, 1.7e308};
  for(std::string link : {"logit", "probit"}) {
    for(double e : grid) for(int s = -1; s <= 1; s += 2) for(double y : {0.0, 1.0, 0.3, 0.5}) for(double w : {0.0, 1.0, 3.0, 1000.0})
      one(c, link, arr({s * e}), arr({y}), arr({w}));
    one(c, link, Arr(0), Arr(0), Arr(0));
    int reps = (int) (400 * c.scale);
    for(int r = 0; r < reps; ++r) {
      int n = r % 9 == 0 ? c.integer(1, 40) : c.integer(1, 6);
      Arr e(n), y(n), w(n);
      for(int i = 0; i < n; ++i) {
        int kind = c.integer(0, 9);
        e(i) = kind < 7 ? c.norm(kind < 4 ? 2 : 8) : (kind < 9 ? grid[c.integer(0, grid.size() - 1)] * (c.integer(0, 1) ? 1 : -1) : std::pow(10., c.unif(-20, 300)) * (c.integer(0, 1) ? 1 : -1));
        w(i) = c.integer(0, 3) ? c.integer(0, 20) : 1;
        y(i) = c.integer(0, 2) ? c.integer(0, 1) : (w(i) > 0 ? c.integer(0, (int) w(i)) / w(i) : 0);
      }
      one(c, link, e, y, w);
    }
    // repeated use of one family object, and of a family rebuilt from its parts
    Family a("binomial", link), b;
    c.begin("family-object-" + link, link);
    b.setFamilyGivenMean(FamilyGivenMean("binomial")); b.setLink(Link(link));
    for(int r = 0; r < 50; ++r) {
      int n = c.integer(1, 5); Arr e(n), y(n), w(n);
      for(int i = 0; i < n; ++i) { e(i) = c.norm(3); y(i) = c.integer(0, 1); w(i) = c.integer(1, 4); }
      double v1 = a.evaluate(e, y, w); a.evaluateFourthDerivative(e, y, w); a.evaluateSecondDerivative(-e, y, w);
      c.ok(a.evaluate(e, y, w) == v1, "C01-repeat", "a second call gives another value");
      c.ok(b.evaluate(e, y, w) == v1, "C01-rebuilt", "family built from parts gives another value");
    }
    c.ok(a.getLinkName() == link && a.getFamilyName() == "binomial", "C01-names", "names of family and link");
    c.ok(a.getLink().getName() == link, "C01-names", "name of link");
  }
  for(std::string bad : {"cloglog", "log", "", "Logit", "identity"}) {
    c.begin("family-invalid", bad); bool threw = false;
    try { Family f("binomial", bad); } catch(std::exception&) { threw = true; }
    c.ok(threw, "C01-unknown-link", "unknown link " + bad + " accepted");
  }
  for(std::string bad : {"poisson", "gaussian", "", "Binomial"}) {
    c.begin("family-invalid", bad); bool threw = false;
    try { Family f(bad, "logit"); } catch(std::exception&) { threw = true; }
    c.ok(threw, "C01-unknown-family", "unknown family " + bad + " accepted");
  }
}
