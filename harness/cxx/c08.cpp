// C08: elimination over every model structure
#include "conf.h"
#include "ClusterGraph.h"
#include "Graph.h"
#include "dependenceGraph.h"
typedef Eigen::SparseMatrix<double> SpMat;
struct NT { Items items; Vec m; Mat P; };
static double lg(const Vec& m, const Mat& P, const Vec& x) {
  double ld = 0; Eigen::LLT<Mat> l(P); for(int i = 0; i < m.size(); ++i) ld += std::log(l.matrixL()(i, i));
  Vec e = x - m; return ld - 0.5 * m.size() * std::log(2 * std::acos(-1.0)) - 0.5 * e.dot(P * e);
}
static std::vector<Items> structure(Conf& c, int kind, int& n) {
  std::vector<Items> s;
  auto add = [&](Items a) { std::shuffle(a.begin(), a.end(), c.rng); s.push_back(a); };
  switch(kind) {
    case 0: n = c.integer(1, 8); for(int i = 0; i < n; ++i) add({i}); break;                       // independent groups
    case 1: n = c.integer(2, 8); for(int i = 0; i + 1 < n; ++i) add({i, i + 1}); break;            // chain
    case 2: n = c.integer(3, 6); for(int i = 0; i < n; ++i) add({i, (i + 1) % n}); break;          // cycle
    case 3: n = c.integer(2, 8); for(int i = 1; i < n; ++i) add({i, c.integer(0, i - 1)}); break;  // tree
    case 4: n = c.integer(2, 8); for(int i = 1; i < n; ++i) add({0, i}); break;                    // star
    case 5: n = c.integer(2, 4); { Items a; for(int i = 0; i < n; ++i) a.push_back(i); add(a); } break; // complete
    case 6: n = c.integer(3, 7); { int h = n / 2; for(int i = 0; i < h; ++i) for(int j = h; j < n; ++j) if(c.integer(0, 1)) add({i, j}); } break; // crossed
    default: n = c.integer(2, 7); { int T = c.integer(1, 6); for(int t = 0; t < T; ++t) { int k = c.integer(1, std::min(3, n)); Items a = c.subset(n, k); add(a); } } // random
  }
  return s;
}
void run(Conf& c) {
  // graph bookkeeping
  for(int r = 0; r < (int) (150 * c.scale); ++r) {
    int n = c.integer(1, 9); Items lab = c.labels(n, 15); Graph g(lab); std::set<std::pair<int, int>> e; std::set<int> act(lab.begin(), lab.end()), removed;
    c.begin("graph", "nodes " + show(lab));
    auto key = [](int a, int b) { return std::make_pair(std::min(a, b), std::max(a, b)); };
    for(int s = 0; s < 12; ++s) {
      int op = c.integer(0, 3);
      std::vector<int> av(act.begin(), act.end()); if(av.empty()) break;
      std::shuffle(av.begin(), av.end(), c.rng);
      if(op < 2 && av.size() > 1) { g.addEdge(av[0], av[1]); e.insert(key(av[0], av[1])); c.current += " edge " + num(av[0]) + "-" + num(av[1]); }
      else if(op == 2) { int k = c.integer(1, av.size()); Items a(av.begin(), av.begin() + k); g.connect(a); for(int i : a) for(int j : a) if(i != j) e.insert(key(i, j)); c.current += " connect " + show(a); }
      else { g.removeNode(av[0]); act.erase(av[0]); for(auto it = e.begin(); it != e.end();) if(it->first == av[0] || it->second == av[0]) it = e.erase(it); else ++it; c.current += " remove " + num(av[0]); g.removeNode(av[0]); }
      c.ok(g.numVertices() == (int) act.size(), "C08-graph-vertices", "number of vertices");
      c.ok(g.numEdges() == (int) e.size(), "C08-graph-edges", "number of edges");
      Items it = g.getItems(); c.ok(std::set<int>(it.begin(), it.end()) == act && it.size() == act.size(), "C08-graph-items", "items");
      for(int v : act) { std::set<int> nb; for(auto& q : e) { if(q.first == v) nb.insert(q.second); if(q.second == v) nb.insert(q.first); }
        Items got = g.findNeighbours(v); c.ok(std::set<int>(got.begin(), got.end()) == nb && got.size() == nb.size(), "C08-graph-neighbours", "neighbours of " + num(v)); c.ok(g.findDegree(v) == (int) nb.size(), "C08-graph-degree", "degree of " + num(v)); }
      c.ok(isComplete(g) == (e.size() == act.size() * (act.size() - 1) / 2), "C08-graph-complete", "completeness");
    }
  }
  int reps = (int) (160 * c.scale);
  for(int r = 0; r < reps; ++r) {
    int n; std::vector<Items> st = structure(c, r % 9, n);
    // every effect has its own normal term, as in a mixed model; further terms on any subset
    std::vector<NT> terms;
    for(auto& a : st) { NT t; t.items = a; t.m = c.vec(a.size()); t.P = c.spd(a.size(), 0.2); terms.push_back(t); }
    bool some = r % 7 == 3;
    for(int i = 0; i < n; ++i) { bool covered = false; for(auto& a : st) covered |= std::find(a.begin(), a.end(), i) != a.end(); if(some && covered && c.integer(0, 1)) continue; NT t; t.items = {i}; t.m = c.vec(1); t.P = Mat::Constant(1, 1, c.unif(0.3, 3)); terms.push_back(t); }
    if(r % 5 == 2 && !st.empty()) { NT t = terms[0]; t.m = c.vec(t.m.size()); terms.push_back(t); }   // two terms on the same effects
    if(r % 2) std::shuffle(terms.begin(), terms.end(), c.rng);
    std::ostringstream desc; desc << "effects=" << n << " terms:";
    for(auto& t : terms) desc << " " << show(t.items) << " mean=" << showv(t.m) << " precision=" << show(t.P) << ";";
    c.begin("structure-" + num(r % 9), desc.str());
    std::vector<MixedContinuousBelief> beliefs;
    for(auto& t : terms) beliefs.push_back(MixedContinuousBelief(ContinuousBelief(t.items, t.m, t.P)));
    ClusterGraph g(beliefs);
    Parameters par; int level = c.integer(0, 3); par.sparseBasis = Basis(level); int nq = c.integer(1, 7); par.quadratureRule = QuadratureRule(nq);
    auto clusters = g.getClusters(); int C = clusters.size();
    c.ok(g.nClusters() == C && g.nEdges() == C - 1 && g.nMessages() == C - 1, "C08-messages", "one message from every cluster but the last");
    std::set<int> all; size_t w = 0;
    for(int i = 0; i < C; ++i) { Items a = g.getCluster(i).getItems(); std::set<int> s(a.begin(), a.end()); c.ok(s.size() == a.size(), "C08-cluster-items", "repeated item in a cluster"); all.insert(s.begin(), s.end()); w = std::max(w, a.size()); }
    c.ok((int) all.size() == n, "C08-cover", "clusters cover every effect");
    c.ok(g.width() == (int) w, "C08-width", "width is " + num(g.width()));
    // running intersection: what a cluster shares with the later ones lies in one of them, and every effect leaves once
    for(int i = 0; i + 1 < C; ++i) {
      Items ai = clusters[i].getItems(); std::set<int> s(ai.begin(), ai.end()), sh;
      for(int j = i + 1; j < C; ++j) for(int x : clusters[j].getItems()) if(s.count(x)) sh.insert(x);
      bool in = false; for(int j = i + 1; j < C && !in; ++j) { Items a = clusters[j].getItems(); std::set<int> sj(a.begin(), a.end()); in = std::includes(sj.begin(), sj.end(), sh.begin(), sh.end()); }
      c.ok(in, "C08-running-intersection", "effects shared with later clusters lie in no single later cluster");
      c.ok(sh.size() < s.size(), "C08-eliminates", "a cluster eliminates no effect");
    }
    for(auto& t : terms) { bool in = false; for(auto& cl : clusters) { Items a = cl.getItems(); bool all2 = true; for(int x : t.items) all2 &= std::find(a.begin(), a.end(), x) != a.end(); in |= all2; } c.ok(in, "C08-covers-term", "no cluster contains all effects of the term on " + show(t.items)); }
    // each term in exactly one cluster: the sum over the clusters is the sum of the terms
    Vec x = c.vec(n); double sumC = 0, sumT = 0, scale = 1;
    for(auto& cl : clusters) { Items a = cl.getItems(); Vec y(a.size()); for(size_t i = 0; i < a.size(); ++i) y(i) = x(a[i]); sumC += cl.evaluate(y, par); }
    for(auto& t : terms) { Vec y(t.items.size()); for(size_t i = 0; i < t.items.size(); ++i) y(i) = x(t.items[i]); double v = lg(t.m, t.P, y); sumT += v; scale += std::fabs(v); }
    c.close(sumC, sumT, 1e-9 * scale, "C08-each-term-once", "sum over clusters against sum of terms");
    // the exact Gaussian answer
    Mat Q = Mat::Zero(n, n); Vec h = Vec::Zero(n); double c0 = 0;
    for(auto& t : terms) { int k = t.items.size(); c0 += lg(t.m, t.P, Vec::Zero(k)); Vec pm = t.P * t.m; for(int i = 0; i < k; ++i) { h(t.items[i]) += pm(i); for(int j = 0; j < k; ++j) Q(t.items[i], t.items[j]) += t.P(i, j); } }
    Vec mu = Q.ldlt().solve(h); Eigen::LLT<Mat> L(Q); double ld = 0; for(int i = 0; i < n; ++i) ld += std::log(L.matrixL()(i, i));
    double exact = c0 + 0.5 * h.dot(mu) + 0.5 * n * std::log(2 * std::acos(-1.0)) - ld;
    SpMat S = Q.sparseView();
    double got = NAN; std::string what;
    try { got = computeLogNormalizingConstant(g, mu, S, par); } catch(std::exception& e) { what = e.what(); }
    c.close(got, exact, 1e-5 * scale * (1 + Q.norm()), "C08-gaussian", "log normalizing constant, level " + num(level) + ", " + num(nq) + " points " + what);
    if(std::isfinite(got)) {
      double again = computeLogNormalizingConstant(g, mu, S, par);
      c.ok(again == got, "C08-repeat", "a second computation differs");
      ClusterGraph g2(beliefs); g2.setParameters(par); g2.setNormalApprox(mu, S); g2.calibrateForward(); c.close(g2.computeLogNormalizingConstant(), got, 0, "C08-steps", "step by step");
      // calibrated margins: marginal of each cluster is the joint one
      ClusterGraph g3(beliefs); g3.setParameters(par); g3.setNormalApprox(mu, S); g3.calibrate(); c.ok(g3.isCalibrated(), "C08-calibrated", "flag");
      for(int i = 0; i < C; ++i) { Items a = g3.getCluster(i).getItems(); Vec y(a.size()), m2(a.size()); Mat V = Q.inverse(), Vs(a.size(), a.size()); for(size_t p = 0; p < a.size(); ++p) { y(p) = mu(a[p]) + 0.3 * c.norm(); m2(p) = mu(a[p]); for(size_t q = 0; q < a.size(); ++q) Vs(p, q) = V(a[p], a[q]); }
        c.close(g3.getCluster(i).evaluate(y, par), exact + lg(m2, Vs.inverse(), y), 1e-4 * scale * (1 + Q.norm()), "C08-calibrated-cluster", "calibrated cluster " + num(i)); }
    }
  }
  // independent groups: the answer is the sum of the adaptive quadratures of the groups
  for(int r = 0; r < (int) (40 * c.scale); ++r) {
    int n = c.integer(1, 5), nq = c.integer(1, 15); Parameters par; par.GLMMTheta = Vec::Constant(1, c.unif(0.2, 2)); par.GLMMBeta = c.vec(1); par.GLMMFamily = Family("binomial", c.integer(0, 1) ? "logit" : "probit"); par.sparseBasis = Basis(c.integer(0, 4)); par.quadratureRule = QuadratureRule(nq);
    std::vector<MixedContinuousBelief> bs; double want = 0; Vec mu = c.vec(n); Mat Q = Mat::Zero(n, n); std::ostringstream desc; desc << "groups=" << n << " nq=" << nq << " theta=" << par.GLMMTheta(0) << " beta=" << par.GLMMBeta(0);
    for(int i = 0; i < n; ++i) {
      int k = c.integer(1, 5); Mat X = c.mat(k, 1), Zt = Mat::Ones(1, k); Arr y(k), w = Arr::Ones(k); for(int j = 0; j < k; ++j) y(j) = c.integer(0, 1);
      Mat one = Mat::Ones(1, 1); SpMat La = one.sparseView(); Eigen::VectorXi Li = Eigen::VectorXi::Zero(1);
      ContinuousBelief gb({i}, X, Zt, La, Li, y, w), nb({i}, Vec::Zero(1), one); bs.push_back(MixedContinuousBelief(gb)); bs.push_back(MixedContinuousBelief(nb));
      Q(i, i) = c.unif(0.5, 3); double s = 1 / std::sqrt(Q(i, i)); desc << " y=" << showv(y.matrix());
      want += std::log(integrate1D([&](double t) { Vec u = Vec::Constant(1, t); return std::exp(gb.evaluate(u, par) + nb.evaluate(u, par)); }, mu(i), s, par.quadratureRule));
    }
    if(r % 2) std::shuffle(bs.begin(), bs.end(), c.rng);
    c.begin("independent", desc.str()); ClusterGraph g(bs); SpMat S = Q.sparseView(); c.ok(g.width() == 1, "C08-width", "width of independent groups");
    c.close(computeLogNormalizingConstant(g, mu, S, par), want, 1e-8 * (1 + std::fabs(want)), "C08-independent", "sum of one-dimensional quadratures");
  }
  { // a guide whose log-density at its mean is exactly zero is a proper Gaussian like any other
    c.begin("zero-height", "precision with log normalizer exactly zero");
    double target = 2 * std::acos(-1.0), best = 0; for(int k = -40; k <= 40 && !best; ++k) { double p = target * (1 + k * 1.1e-16); MultiNormal N(Vec::Zero(1), Mat::Constant(1, 1, p)); if(N.evaluate(Vec::Zero(1)) == 0) best = p; }
    if(best) {
      c.current += " p=" + num(best); MultiNormal N(Vec::Zero(1), Mat::Constant(1, 1, best)); c.ok(N.isProper(), "C08-proper-zero", "proper Gaussian called improper");
      std::vector<MixedContinuousBelief> bs; Vec z = Vec::Zero(1); Mat P = Mat::Constant(1, 1, best);
      bs.push_back(MixedContinuousBelief(ContinuousBelief({0}, z, P))); bs.push_back(MixedContinuousBelief(ContinuousBelief({1}, z, P)));
      ClusterGraph g(bs); Parameters par; par.sparseBasis = Basis(1); par.quadratureRule = QuadratureRule(3); double got = NAN; Mat Q = best * Mat::Identity(2, 2); SpMat S = Q.sparseView();
      try { got = computeLogNormalizingConstant(g, Vec::Zero(2), S, par); } catch(std::exception& e) { c.current += std::string(" threw ") + e.what(); }
      c.close(got, 0, 1e-8, "C08-zero-height", "two normalized Gaussians"); }
    else c.skipped++;
  }
}
