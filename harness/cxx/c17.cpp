// C17: memory safety and integer arithmetic.  All the other drivers run again under
// the address and undefined-behaviour sanitizers (their value checks are not counted
// here), then requests for things that are not there must raise an error.
#include "conf.h"
#include "Family.h"
#include "QuadratureRule.h"
#include "IntegratedFunction.h"
#include "MultiNormal.h"
#include "NormalBelief.h"
#include "MixedContinuousBelief.h"
#include "MixedContinuousBeliefVector.h"
#include "ContinuousBelief.h"
#include "Basis.h"
#include "Point.h"
#include "SparseGrid.h"
#include "SparseStore.h"
#include "SparseGridTransform.h"
#include "Quadratic.h"
#include "SparseBelief.h"
#include "counting.h"
#include "ClusterGraph.h"
#include "Graph.h"
#include "dependenceGraph.h"
#include "accessParameters.h"
#include "itemsHelper.h"
#include "matrixHelper.h"
#include "subsetEigen.h"
#include <stdexcept>
namespace n1 {
#include "c01.cpp"
}
namespace n2 {
#include "c02.cpp"
}
namespace n3 {
#include "c03.cpp"
}
namespace n4 {
#include "c04.cpp"
}
namespace n5 {
#include "c05.cpp"
}
namespace n6 {
#include "c06.cpp"
}
namespace n7 {
#include "c07.cpp"
}
namespace n8 {
#include "c08.cpp"
}
template <typename F> static void mustThrow(Conf& c, const std::string& kind, const std::string& what, F f) {
  c.begin("invalid-request", what); bool threw = false; std::string got;
  try { f(); } catch(std::exception& e) { threw = true; got = e.what(); }
  c.ok(threw, kind, what + " did not raise an error");
}
void run(Conf& c) {
  Conf q; q.rng = c.rng; q.scale = 0.12 * c.scale; q.quiet = true;
  struct { const char* name; void (*f)(Conf&); } all[] = {{"C01", n1::run}, {"C03", n3::run}, {"C04", n4::run}, {"C05", n5::run}, {"C06", n6::run}, {"C07", n7::run}, {"C08", n8::run}, {"C02", n2::run}};
  std::fflush(stdout);
  for(auto& a : all) {
    if(!c.only.empty() && c.only != a.name) continue;
    std::printf("PHASE %s\n", a.name); std::fflush(stdout);
    long before = q.cases; a.f(q); c.groups[std::string("sanitized-") + a.name] += q.cases - before; c.cases += q.cases - before;
  }
  if(!c.only.empty() && c.only != "own") return;
  std::printf("PHASE own\n"); std::fflush(stdout);
  Parameters par; Vec z1 = Vec::Zero(1); Mat i1 = Mat::Identity(1, 1);
  Parameters shared;
  for(int d = 1; d <= 4; ++d) {
    Items it = c.labels(d, 8); NormalBelief A(it, c.vec(d), c.spd(d)), B({99}, z1, i1); Items bad = it; bad.push_back(99); NormalBelief B2(bad, c.vec(d + 1), c.spd(d + 1));
    mustThrow(c, "C17-unknown-effect", "multiplying by a Gaussian over an effect that is not there", [&] { NormalBelief X = A; X *= B; });
    mustThrow(c, "C17-unknown-effect", "multiplying by a Gaussian over more effects", [&] { NormalBelief X = A; X *= B2; });
    mustThrow(c, "C17-unknown-effect", "dividing by a Gaussian over an effect that is not there", [&] { NormalBelief X = A; X /= B; });
    mustThrow(c, "C17-unknown-effect", "margin onto an effect that is not there", [&] { A.margin({99}); });
    mustThrow(c, "C17-unknown-effect", "margin onto an effect that is not there", [&] { A.margin(bad); });
    MixedContinuousBelief M(it), F(ContinuousBelief({99}, z1, i1));
    mustThrow(c, "C17-unknown-effect", "multiplying a term by one over an effect that is not there", [&] { MixedContinuousBelief X = M; X *= F; });
    mustThrow(c, "C17-unknown-effect", "dividing a term by one over an effect that is not there", [&] { MixedContinuousBelief X = M; X /= F; });
    mustThrow(c, "C17-unknown-effect", "position of an effect that is not there", [&] { findRelativeItem(99, it); });
    mustThrow(c, "C17-unknown-effect", "positions of effects that are not there", [&] { findRelativeItems(bad, it); });
    mustThrow(c, "C17-unknown-position", "level in a direction that is not there", [&] { Point p(d); p.getLevel(d); });
    mustThrow(c, "C17-unknown-position", "position in a direction that is not there", [&] { Point p(d); p.getPosition(d + 3); });
    mustThrow(c, "C17-unknown-position", "moving in a direction that is not there", [&] { Point p(d); p.advanceInDirection(d); });
    mustThrow(c, "C17-unknown-effect", "edge to a node that is not there", [&] { Graph g(it); g.addEdge(it[0], 99); });
    mustThrow(c, "C17-unknown-effect", "neighbours of a node that is not there", [&] { Graph g(it); g.findNeighbours(99); });
    mustThrow(c, "C17-unknown-effect", "removing a node that is not there", [&] { Graph g(it); g.removeNode(99); });
    mustThrow(c, "C17-unknown-effect", "degree of a node that is not there", [&] { Graph g(it); g.findDegree(99); });
    std::vector<MixedContinuousBelief> bs; for(int i = 0; i < d; ++i) bs.push_back(MixedContinuousBelief(ContinuousBelief({i}, z1, i1)));
    ClusterGraph g(bs); g.setParameters(par);
    mustThrow(c, "C17-unknown-effect", "margin of a cluster graph onto an effect that is not there", [&] { ClusterGraph h = g; h.margin({99}); });
    mustThrow(c, "C17-unknown-position", "cluster that is not there", [&] { g.getCluster(g.nClusters()); });
    if(d > 1) mustThrow(c, "C17-unknown-effect", "margin of a cluster graph onto effects of no single cluster", [&] { ClusterGraph h = g; h.margin({0, d - 1}); });
  }
  mustThrow(c, "C17-unknown-family", "unknown family", [&] { setParametersFamily(shared, "poisson"); });
  mustThrow(c, "C17-unknown-family", "unknown link", [&] { setParametersLink(shared, "cloglog"); });
  // many nodes: the number of possible edges does not fit in an int
  for(int n : {46341, 46342, 46400, 65537, 92682}) {
    c.begin("large-graph", num(n) + " nodes"); Items it(n); std::iota(it.begin(), it.end(), 0); Graph g(it);
    long long wrapped = ((long long) n * (n - 1)) & 0xffffffffLL; int half = (int) wrapped / 2; int e = 0;
    for(int i = 0; e < half && half < 100000 && i + 1 < n; ++i, ++e) g.addEdge(i, i + 1);
    c.ok(!isComplete(g), "C17-large-graph", "a sparse graph is called complete");
    c.ok(g.numVertices() == n, "C17-large-graph", "vertices");
  }
  // spline pieces far outside the knots, and no levels at all
  for(int K = 0; K <= 4; ++K) { Basis b(K); for(int l = 0; l <= K; ++l) for(int p = 0; p < (1 << l); ++p) for(double x : {0.0, 1e5, -1e5, 1e9, 4e9, 4.3e9, 1e10, 1e15, 1e19, 2e19, 1e30, 1e100, 1e300, -1e300, (double) INFINITY, (double) -INFINITY, (double) NAN}) { c.begin("far", "levelMax=" + num(K) + " level=" + num(l) + " x=" + num(x)); b.evaluate(x, l, p); b.evaluateDerivative(x, l, p); b.evaluateSecondDerivative(x, l, p); c.ok(true, "C17-far"); } }
  // parameters through the accessors
  for(int r = 0; r < 20; ++r) { c.begin("accessors", num(r)); Parameters p; int s = c.integer(0, 5), n = c.integer(1, 20); setParametersNSparseLevels(p, s); setParametersNQuadraturePoints(p, n); c.ok(getParametersNSparseLevels(p) == s && getParametersNQuadraturePoints(p) == n, "C17-accessors", "levels and points are kept"); setParametersFamily(p, "binomial"); setParametersLink(p, r % 2 ? "logit" : "probit"); c.ok(getParametersFamily(p) == "binomial" && getParametersLink(p) == (r % 2 ? "logit" : "probit"), "C17-accessors", "family and link are kept"); }
  // subset helpers on every shape, including the empty ones
  for(int r = 0; r < 200; ++r) {
    int d = c.integer(0, 6); Vec v = c.vec(d); Mat m = c.mat(d, d); Items s = c.subset(d, c.integer(0, d)); c.begin("helpers", "d=" + num(d) + " subset=" + show(s));
    Vec a = getVectorSubset(v, s), b = findSubset(v, s); c.ok(a == b && a.size() == (int) s.size(), "C17-helpers", "subset"); Mat n = getMatrixSubset(m, s); Vec v2 = v; Mat m2 = m; setVectorSubset(v2, a, s); setMatrixSubset(m2, n, s); c.ok(v2 == v && m2 == m, "C17-helpers", "set what was got");
    addVectorSubset(v2, s, a); addMatrixSubset(m2, s, n); Eigen::SparseMatrix<double> sp = m.sparseView(); c.ok(getSparseMatrixSubset(sp, s) == n, "C17-helpers", "sparse subset");
    if(d) { int t = c.integer(0, d - 1); Vec w = getVectorWithout(t, v); Mat wm = getMatrixWithout(t, m); Vec back(d); back.setZero(); setVectorWithout(t, back, w); bool good = w.size() == d - 1 && wm.rows() == d - 1 && wm.cols() == d - 1; for(int i = 0, j = 0; good && i < d; ++i) if(i != t) { good = back(i) == v(i) && w(j) == v(i); ++j; } c.ok(good, "C17-helpers", "without one"); }
  }
}
