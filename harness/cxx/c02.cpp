// C02: one-dimensional quadrature
#include "conf.h"
#include "QuadratureRule.h"
typedef long double L;
void run(Conf& c) {
  // number of points: every n up to 40, and the sizes 2^(l+1)-1 sequential reduction uses
  std::vector<int> ns; for(int n = 1; n <= 40; ++n) ns.push_back(n);
  for(int n : {63, 100, 127, 255}) ns.push_back(n);
  for(int n : ns) {
    QuadratureRule rule(n);
    c.begin("rule", "n=" + num(n));
    Arr nodes = rule.getNodes(), weights = rule.getWeights();
    c.ok(nodes.size() == n && weights.size() == n, "C02-count", "rule has the wrong number of nodes");
    if(nodes.size() != n || weights.size() != n) continue;
    c.close(nodes.sum(), 0, 1e-9 * n * n, "C02-symmetric", "sum of nodes");
    c.close(weights.sum(), std::sqrt(std::acos(-1.0)), 1e-8, "C02-mass", "sum of weights");
    int reps = (int) (c.scale * (n <= 40 ? 24 : 4)) + 1;
    for(int r = 0; r < reps; ++r) {
      double m = r % 3 == 0 ? c.norm(1) : r % 3 == 1 ? c.norm(100) : c.norm(1e-3);
      double s = std::exp(c.norm(r % 4 == 3 ? 4 : 1));
      int degMax = n <= 31 ? 2 * n - 1 : 40;  // beyond n = 31 the outer weights are rounding noise at the top degrees
      int deg = r == 0 ? degMax : (r == 1 ? std::max(0, degMax - 1) : c.integer(0, degMax));
      // polynomial in t = (x - m) / s written about an offset o: p(x) = sum a_k (t - o)^k / norm_k
      double o = c.integer(0, 2) == 0 ? c.norm(0.5) : 0;
      std::vector<L> a(deg + 1);
      for(auto& x : a) x = c.norm(1);
      // scale the coefficients so that every monomial contributes at the same order
      std::vector<L> sc(deg + 1);
      for(int k = 0; k <= deg; ++k) { L f = 1; for(int j = k - 1; j > 0; j -= 2) f *= j; sc[k] = 1 / (f * std::pow(1.0 + std::fabs(o), k)); }
      auto p = [&](double x) { L t = ((L) x - m) / s - o, v = 0, pw = 1; for(int k = 0; k <= deg; ++k) { v += a[k] * sc[k] * pw; pw *= t; } return v; };
      // moments of (Z - o)^k, Z standard normal: M_k = -o M_{k-1} + (k-1) M_{k-2}
      std::vector<L> M(deg + 2); M[0] = 1; M[1] = -o;
      for(int k = 2; k <= deg; ++k) M[k] = -o * M[k - 1] + (k - 1) * M[k - 2];
      L mass = std::sqrt(2 * std::acos(-1.0L)) * s, want = 0, size = 0;
      for(int k = 0; k <= deg; ++k) { want += a[k] * sc[k] * M[k]; size += fabsl(a[k] * sc[k]) * fabsl(M[k]) + fabsl(a[k] * sc[k]); }
      // the sum of absolute values actually added, for the rounding tolerance
      int calls = 0; std::vector<double> seen; L absum = 0;
      auto f = [&](double x) { ++calls; seen.push_back(x); L z = ((L) x - m) / s; L v = p(x) * expl(-z * z / 2); absum += fabsl(p(x)); return (double) v; };
      c.begin("scalar", "n=" + num(n) + " m=" + num(m) + " s=" + num(s) + " degree=" + num(deg) + " offset=" + num(o));
      double got = integrate1D(f, m, s, rule);
      c.ok(calls == n, "C02-nodes-used", "integrand evaluated " + num(calls) + " times");
      std::set<double> uniq(seen.begin(), seen.end());
      c.ok((int) uniq.size() == n, "C02-nodes-distinct", "some node is used twice");
      // each node x_i = m + sqrt(2) s node_i
      std::vector<double> want_nodes; for(int i = 0; i < n; ++i) want_nodes.push_back(std::sqrt(2.) * s * nodes(i) + m);
      std::sort(want_nodes.begin(), want_nodes.end()); std::sort(seen.begin(), seen.end());
      bool same = seen.size() == want_nodes.size();
      for(size_t i = 0; same && i < seen.size(); ++i) same = std::fabs(seen[i] - want_nodes[i]) <= 1e-9 * (std::fabs(m) + s * (1 + std::fabs(want_nodes[i] - m) / s));
      c.ok(same, "C02-node-places", "nodes are not m + sqrt(2) s x_i");
      double cond = std::fabs(m) / s;  // loss in (x - m) / s
      double tol = (double) (mass * size * (n <= 40 ? 3e-8L : 1e-5L) * (1 + (L) 1e-8 * cond * (deg + 1) * n));
      if(n <= 40 && deg * 1e-16 * (1 + cond) < 1e-9) c.close(got, (double) (mass * want), tol, "C02-exact", "integral of the Gaussian-weighted polynomial");
      // linearity
      double al = c.norm(2), be = c.norm(2);
      auto g = [&](double x) { double z = (x - m) / s; return std::cos(x) * std::exp(-z * z / 2); };
      auto h = [&](double x) { return al * f(x) + be * g(x); };
      double ig = integrate1D(g, m, s, rule), ih = integrate1D(h, m, s, rule);
      c.close(ih, al * got + be * ig, 1e-9 * (std::fabs(al) * (double) (size * mass) + std::fabs(be * s * 3) + std::fabs(ih)), "C02-linear", "linearity");
      // vector and matrix versions agree with the scalar one entry by entry
      int d = r % 6 == 5 ? c.integer(0, 1) : c.integer(1, 5);
      Arr ca(d * d); for(int i = 0; i < d * d; ++i) ca(i) = c.norm(1);
      auto comp = [&](int i, double x) { double z = (x - m) / s; return std::exp(-z * z / 2) * (ca(i) + std::sin(z * (i + 1)) + (i % 3) * z); };
      int nv = 0, nm = 0;
      Arr v = integrate1DVector([&](double x) { ++nv; Arr o2(d); for(int i = 0; i < d; ++i) o2(i) = comp(i, x); return o2; }, d, m, s, rule);
      Eigen::ArrayXXd mm = integrate1DMatrix([&](double x) { ++nm; Eigen::ArrayXXd o2(d, d); for(int i = 0; i < d; ++i) for(int j = 0; j < d; ++j) o2(i, j) = comp(i * d + j, x); return o2; }, d, m, s, rule);
      c.ok(nv == n && nm == n, "C02-nodes-used", "vector or matrix integrand evaluated the wrong number of times");
      c.ok(v.size() == d && mm.rows() == d && mm.cols() == d, "C02-shape", "wrong shape");
      if(v.size() == d && mm.rows() == d && mm.cols() == d)
      for(int i = 0; i < d * d; ++i) {
        double w = integrate1D([&](double x) { return comp(i, x); }, m, s, rule);
        double t = 1e-11 * s * 10 * (1 + std::fabs(ca(i)) + n) + 1e-11 * std::fabs(w);
        if(i < d) c.close(v(i), w, t, "C02-vector", "vector version, entry " + num(i));
        c.close(mm(i / d, i % d), w, t, "C02-matrix", "matrix version, entry " + num(i));
      }
    }
  }
  { c.begin("rule", "default"); QuadratureRule r; c.ok(r.getNodes().size() == 0, "C02-empty", "default rule has nodes"); }
  { // a rule is a value: building another one, or copying, does not change it
    c.begin("rule", "value semantics"); QuadratureRule a(7); Arr n0 = a.getNodes(), w0 = a.getWeights(); QuadratureRule b(3); a.getNodes()(0) = 9; QuadratureRule d(a); d = b;
    c.ok((a.getNodes() == n0).all() && (a.getWeights() == w0).all() && d.getNodes().size() == 3, "C02-value", "rules share state");
  }
  { // the largest rules: exp(x^2) overflows in double precision
    for(int n : {300, 350, 400, 511}) {
      c.begin("large-rule", "n=" + num(n)); QuadratureRule rule(n);
      double got = integrate1D([](double x) { return std::exp(-x * x / 2); }, 0, 1, rule);
      c.close(got, std::sqrt(2 * std::acos(-1.0)), 1e-6, std::isnan(got) ? "C02-large-n-nan-" + num(n) : "C02-large-n-" + num(n), "integral of the standard normal kernel with n=" + num(n));
    }
  }
}
