From 66fd6954437d2c9a07954e7786d651e9115881c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:31 +0000
Subject: [PATCH 01/32] fix: logit link and its derivatives overflow to NaN for
 large linear predictors

---
 src/LogitLink.cpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/LogitLink.cpp b/src/LogitLink.cpp
index a82d8c5..ac56d2a 100644
--- a/src/LogitLink.cpp
+++ b/src/LogitLink.cpp
@@ -4,37 +4,35 @@ LogitLink::LogitLink()
 {
 }
 
+// Written in terms of the mean p and its complement 1 - p, neither of which can
+// overflow, however large the linear predictor is.
 Eigen::ArrayXd LogitLink::computeMean(const Eigen::ArrayXd& linearPredictor) const
 {
-  return exp(linearPredictor) / (1 + exp(linearPredictor)); 
+  return 1. / (1. + exp(-linearPredictor));
 }
 
 Eigen::ArrayXd LogitLink::computeMeanDerivative(const Eigen::ArrayXd& linearPredictor) const
 {
-  return exp(linearPredictor) / pow(1. + exp(linearPredictor), 2);
+  return computeMean(linearPredictor) * computeMean(-linearPredictor);
 }
 
 Eigen::ArrayXd LogitLink::computeMeanSecondDerivative(const Eigen::ArrayXd& linearPredictor) const
 {
-  return exp(linearPredictor) * (1 - exp(linearPredictor)) / pow(1. + exp(linearPredictor), 3);
+  Eigen::ArrayXd mean = computeMean(linearPredictor);
+  Eigen::ArrayXd complement = computeMean(-linearPredictor);
+  return mean * complement * (complement - mean);
 }
 
 Eigen::ArrayXd LogitLink::computeMeanThirdDerivative(const Eigen::ArrayXd& linearPredictor) const
 {
- 
-  auto numerator = exp(linearPredictor) *
-    (-4 * exp(linearPredictor) + exp(2 * linearPredictor) + 1.);
-  auto denominator = pow(1. + exp(linearPredictor), 4);
-  return numerator / denominator;
+  Eigen::ArrayXd derivative = computeMeanDerivative(linearPredictor);
+  return derivative * (1. - 6. * derivative);
 }
 
 Eigen::ArrayXd LogitLink::computeMeanFourthDerivative(const Eigen::ArrayXd& linearPredictor) const
 {
-  auto numerator = - exp(linearPredictor) *
-    (11 * exp(linearPredictor) - 11 * exp(2*linearPredictor)
-     + exp(3 * linearPredictor) - 1.);
-  auto denominator = pow(1. + exp(linearPredictor), 5);
-  return numerator / denominator;
+  Eigen::ArrayXd derivative = computeMeanDerivative(linearPredictor);
+  return computeMeanSecondDerivative(linearPredictor) * (1. - 12. * derivative);
 }
 
 std::string LogitLink::getName() const
-- 
2.43.0


From 986caa49c186008771f6c193259bc7cf818b36c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:21 +0000
Subject: [PATCH 02/32] fix: probit derivatives are NaN for very large linear
 predictors

---
 src/ProbitLink.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ProbitLink.cpp b/src/ProbitLink.cpp
index 5db3d8f..02d4c68 100644
--- a/src/ProbitLink.cpp
+++ b/src/ProbitLink.cpp
@@ -31,8 +31,11 @@ Eigen::ArrayXd ProbitLink::computeMeanSecondDerivative(const Eigen::ArrayXd& lin
 Eigen::ArrayXd ProbitLink::computeMeanThirdDerivative(const Eigen::ArrayXd& linearPredictor) const
 {
   Eigen::ArrayXd thirdDerivative(linearPredictor.size());
-  for(auto i = 0; i < thirdDerivative.size(); ++i)
-    thirdDerivative(i) = (pow(linearPredictor(i), 2) - 1.) * pdf(standardNormal_, linearPredictor(i));
+  for(auto i = 0; i < thirdDerivative.size(); ++i) {
+    // the density underflows to 0 long before the power overflows
+    double density = pdf(standardNormal_, linearPredictor(i));
+    thirdDerivative(i) = density > 0 ? (pow(linearPredictor(i), 2) - 1.) * density : 0.;
+  }
   return thirdDerivative;
 }
 
@@ -40,8 +43,10 @@ Eigen::ArrayXd ProbitLink::computeMeanThirdDerivative(const Eigen::ArrayXd& line
 Eigen::ArrayXd ProbitLink::computeMeanFourthDerivative(const Eigen::ArrayXd& linearPredictor) const
 {
   Eigen::ArrayXd fourthDerivative(linearPredictor.size());
-  for(auto i = 0; i < fourthDerivative.size(); ++i)
-    fourthDerivative(i) = (-pow(linearPredictor(i), 3) +  3. * linearPredictor(i)) * pdf(standardNormal_, linearPredictor(i));
+  for(auto i = 0; i < fourthDerivative.size(); ++i) {
+    double density = pdf(standardNormal_, linearPredictor(i));
+    fourthDerivative(i) = density > 0 ? (-pow(linearPredictor(i), 3) +  3. * linearPredictor(i)) * density : 0.;
+  }
   return fourthDerivative;
 }
 
-- 
2.43.0


From d41e3dbe62ea7638dd35aaadf9d4cb42295d0bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 03/32] fix: conditional mean of the integrated coordinate has
 the wrong sign

---
 src/IntegratedFunction.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/IntegratedFunction.cpp b/src/IntegratedFunction.cpp
index 409ff99..8e8af1e 100644
--- a/src/IntegratedFunction.cpp
+++ b/src/IntegratedFunction.cpp
@@ -95,7 +95,7 @@ double IntegratedFunction::findConditionalMean(const Vector& x) const
 {
   double mu = mean1_;
   if(x.size() > 0)
-    mu -= cross_.dot(x - mean2_);
+    mu += cross_.dot(x - mean2_);
   
   return mu;
 }
@@ -131,7 +131,7 @@ Vector IntegratedFunction::integrateDerivativeNoLog
     Vector derivative =  derivativeFunction_(xExt) * value;
     Vector derivativeRem = getVectorWithout(integrateOver_,
 					    derivative);
-    Vector correction = -cross_ * derivative(integrateOver_);
+    Vector correction = cross_ * derivative(integrateOver_);
     Eigen::ArrayXd ret = (derivativeRem + correction).array();
     return ret;
   };
@@ -163,8 +163,8 @@ Matrix IntegratedFunction::integrateSecondDerivativeNoLog
     double secondDerivative11 = secondDerivative(integrateOver_,
 						 integrateOver_);
     Matrix ret = secondDerivative22;
-    ret -= cross_ * secondDerivative12.transpose();
-    ret -= secondDerivative12 * cross_.transpose();
+    ret += cross_ * secondDerivative12.transpose();
+    ret += secondDerivative12 * cross_.transpose();
     ret += cross_ * cross_.transpose() * secondDerivative11;
     Eigen::ArrayXXd retArray = ret.array();
     return retArray;
-- 
2.43.0


From 4684f87091ed1ded50042ab2a42be88fe5f9c5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 04/32] fix: term initialisation reads past the parameters when
 the factor has more of them than items

---
 src/GLMMBelief.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/GLMMBelief.cpp b/src/GLMMBelief.cpp
index a790f0e..2f927db 100644
--- a/src/GLMMBelief.cpp
+++ b/src/GLMMBelief.cpp
@@ -70,7 +70,9 @@ void GLMMBelief::setBeta(const Eigen::VectorXd& beta)
 
 void GLMMBelief::initializeParameterDependents()
 {
-  theta_ = Eigen::VectorXd::Zero(numItems_);
+  // Lind_ may refer to more variance parameters than there are items
+  int numTheta = Lind_.size() > 0 ? Lind_.maxCoeff() + 1 : 0;
+  theta_ = Eigen::VectorXd::Zero(numTheta);
   beta_ = Eigen::VectorXd::Zero(numFixed_);
   setLambdatThetaZt(theta_);
   XBeta_ = X_ * beta_;
-- 
2.43.0


From 2ef15e4c54ec9b9748599a30bbb4d83a6be3875d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:12 +0000
Subject: [PATCH 05/32] fix: undefined conversions when locating a spline
 interval

---
 src/BasisLevel.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/BasisLevel.cpp b/src/BasisLevel.cpp
index b566bde..feba626 100644
--- a/src/BasisLevel.cpp
+++ b/src/BasisLevel.cpp
@@ -76,7 +76,8 @@ void BasisLevel::initializeBandwidth(int levelMax)
      boost::math::normal standardNormal(0.0, 1.0);
      bandwidth_ = (scale_ * quantile(standardNormal, prob)) / 10;
   } else {
-    bandwidth_ = 0;
+    // there is a single knot, at 0: any positive width will do
+    bandwidth_ = 1;
   }
 }
 
@@ -205,9 +206,10 @@ int BasisLevel::findIntervalId(double x) const
 {
   int ret = 0;
   if(x > knots_.at(0)) {
-     unsigned int xToGrid = (x - knots_.at(0)) / bandwidth_;
+     // compare before converting, as x may be too far out for an integer
+     double xToGrid = (x - knots_.at(0)) / bandwidth_;
      if(xToGrid < gridIds_.size())
-       ret = gridIds_[xToGrid];
+       ret = gridIds_[static_cast<int>(xToGrid)];
      else
        ret = (2 << level_) - 1;
   }
-- 
2.43.0


From ba5131c1ea447bdae7cd54b513312b648d759c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:12 +0000
Subject: [PATCH 06/32] fix: number of possible edges overflows for graphs of
 more than 46341 nodes

---
 src/Graph.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Graph.cpp b/src/Graph.cpp
index c434f03..ca95757 100644
--- a/src/Graph.cpp
+++ b/src/Graph.cpp
@@ -119,7 +119,8 @@ std::vector<int> Graph::findNeighbours(int i) const
 
 bool isComplete(const Graph& graph)
 {
-  int possibleEdges = graph.numVertices() * (graph.numVertices() - 1) / 2;
+  long long numVertices = graph.numVertices();
+  long long possibleEdges = numVertices * (numVertices - 1) / 2;
   return (graph.numEdges() == possibleEdges);
 }
 
-- 
2.43.0


From 05aa3533d2ec8206811d56c58ddd7c12099b454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:12 +0000
Subject: [PATCH 07/32] fix: an item that is not there silently becomes the
 first item

---
 src/itemsHelper.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/itemsHelper.cpp b/src/itemsHelper.cpp
index 3362b54..9ecba03 100644
--- a/src/itemsHelper.cpp
+++ b/src/itemsHelper.cpp
@@ -8,8 +8,7 @@ int findRelativeItem(int item, const std::vector<int>& items)
   if(relativeItem != items.end())
     return relativeItem - items.begin();
   else
-     std::domain_error("item not contained in items");
-  return 0;
+    throw std::domain_error("item not contained in items");
 }
 
 std::vector<int> findRelativeItems(const std::vector<int>& subset,
-- 
2.43.0


From 80a43fe8a6ac018839308820ac9c822aededcd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:38 +0000
Subject: [PATCH 08/32] fix: a Gaussian or term whose log-density is exactly
 zero at the mean is called improper

---
 src/MixedContinuousBelief.cpp | 4 ++--
 src/MultiNormal.cpp           | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/MixedContinuousBelief.cpp b/src/MixedContinuousBelief.cpp
index 211b700..b0f89aa 100644
--- a/src/MixedContinuousBelief.cpp
+++ b/src/MixedContinuousBelief.cpp
@@ -232,13 +232,13 @@ bool MixedContinuousBelief::isProper(const Parameters& parameters)
   auto normalMean = normalApprox_.getNormal().getMean();
   if(beliefs_.size() > 0) {
     auto evalAtMean = evaluate(normalMean, parameters);
-    if(!std::isnormal(evalAtMean)) {
+    if(!std::isfinite(evalAtMean)) {
       proper = false;
     }
   }
   auto evalNormalAtMean = normalApprox_.evaluate(normalMean,
 						 parameters);
-  if(!std::isnormal(evalNormalAtMean)) {
+  if(!std::isfinite(evalNormalAtMean)) {
     proper = false;
   }
   
diff --git a/src/MultiNormal.cpp b/src/MultiNormal.cpp
index 9f721c2..09a76b9 100644
--- a/src/MultiNormal.cpp
+++ b/src/MultiNormal.cpp
@@ -1,4 +1,5 @@
 #include <math.h>
+#include <limits>
 
 #include "subsetEigen.h"
 
@@ -11,7 +12,9 @@ MultiNormal::MultiNormal(): mean_(), precision_(0, 0), variance_(0, 0),
 
 MultiNormal::MultiNormal(int dimension):
   mean_(dimension), precision_(dimension, dimension),
-  variance_(dimension, dimension), normalizer_(0)
+  variance_(dimension, dimension),
+  // improper until the precision or variance is set
+  normalizer_(-std::numeric_limits<double>::infinity())
 {
 }
 
@@ -82,7 +85,7 @@ void MultiNormal::divideSubset(const MultiNormal& normal,
 
 bool MultiNormal::isProper() const
 {
-  return ((normalizer_ != 0) && (std::isfinite(normalizer_)));
+  return std::isfinite(normalizer_);
 }
 
 double MultiNormal::evaluate(const Eigen::VectorXd& x) const
-- 
2.43.0


From f13958039e122c2b485f43bbef0d1bfa07136961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:46 +0000
Subject: [PATCH 09/32] fix: joining two frames loses bounds, block positions
 and groups of the second

---
 R/model_frames.R | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/R/model_frames.R b/R/model_frames.R
index 6563440..ddf0fb9 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -197,11 +197,12 @@ concatenate_frames <- function(modfr1, modfr2) {
       out$reTrms$Zt <- rbind(reTrms1$Zt, reTrms2$Zt)
       out$reTrms$theta <- c(reTrms1$theta, reTrms2$theta)
       out$reTrms$Lind <- c(reTrms1$Lind, reTrms2$Lind + length(reTrms1$theta))
-      out$reTrms$Gp <- c(0L, reTrms1$Gp[2] + reTrms2$Gp[2])
-      out$reTrms$lower <- c(reTrms1$lower, reTrms2$upper)
+      out$reTrms$Gp <- c(reTrms1$Gp, max(reTrms1$Gp) + reTrms2$Gp[-1])
+      out$reTrms$lower <- c(reTrms1$lower, reTrms2$lower)
       out$reTrms$Lambdat <- concatenate_Matrix(reTrms1$Lambdat, reTrms2$Lambdat)
       # need "assign" attribute to print out groups correctly
-      attr(out$reTrms$flist, "assign") <- TRUE
+      out$reTrms$flist <- c(reTrms1$flist, reTrms2$flist)
+      attr(out$reTrms$flist, "assign") <- seq_along(out$reTrms$flist)
       out$reTrms$cnms <- c(reTrms1$cnms, reTrms2$cnms)
       out$reTrms$Ztlist <- c(reTrms1$Ztlist, reTrms2$Ztlist)
     }
-- 
2.43.0


From 419e8e7e0e163b1f67173dd45c8a2965cd7cc336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:46 +0000
Subject: [PATCH 10/32] fix: list of random-effects designs of a subset or sum
 of model frames is not the subset or sum

---
 R/model_frames.R | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/R/model_frames.R b/R/model_frames.R
index ddf0fb9..de1ef01 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -104,7 +104,7 @@ is_modfr <- function(x) {
   if(has_reTrms(modfr)) {
     reTrms <- modfr$reTrms
     out$reTrms$Zt <- reTrms$Zt[, i, drop = FALSE]
-    out$reTrms$Ztlist <- lapply(reTrms$Ztlist, "[", j = i, drop = FALSE)
+    out$reTrms$Ztlist <- lapply(reTrms$Ztlist, function(Zt) Zt[, i, drop = FALSE])
     out$reTrms$flist <- lapply(reTrms$flist, "[", j = i, drop = FALSE)
   }
   return(out)
@@ -160,7 +160,8 @@ is_modfr <- function(x) {
            call. = FALSE)
     }
     out$reTrms$Zt <- modfr1$reTrms$Zt + modfr2$reTrms$Zt
-    out$reTrms$Ztlist <- mapply("+", modfr1$reTrms$Ztlist, modfr2$reTrms$Ztlist)
+    out$reTrms$Ztlist <- mapply("+", modfr1$reTrms$Ztlist, modfr2$reTrms$Ztlist,
+                                 SIMPLIFY = FALSE)
     # what about flist?
   }
   return(out)
-- 
2.43.0


From 9cac9b58e2c9bc5b1391be1045dd236e971d7fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:46 +0000
Subject: [PATCH 11/32] fix: multiplying a substituted variable by a covariate
 scales the wrong random-effects entries

---
 R/model_frames.R | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/R/model_frames.R b/R/model_frames.R
index de1ef01..87a0e5f 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -123,8 +123,10 @@ is_modfr <- function(x) {
   out <- modfr
   out$X <- modfr$X * a
   if(has_reTrms(modfr)) {
-    out$reTrms$Zt <- modfr$reTrms$Zt * a
-    out$reTrms$Ztlist <- lapply(modfr$reTrms$Ztlist, `*`, e2 = a)
+    # a is a number, or has one entry for each row of X (column of Zt)
+    times_a <- function(Zt) Matrix::t(Matrix::t(Zt) * a)
+    out$reTrms$Zt <- times_a(modfr$reTrms$Zt)
+    out$reTrms$Ztlist <- lapply(modfr$reTrms$Ztlist, times_a)
   }
   return(out)
 }
-- 
2.43.0


From f4e781e4e64a257fc46d6c328a322403f3620a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:46 +0000
Subject: [PATCH 12/32] fix: numbers, brackets and unary minus in Sub() terms
 are rejected as non-linear

---
 R/modify_subexpr.R | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/R/modify_subexpr.R b/R/modify_subexpr.R
index 8537842..a01a933 100644
--- a/R/modify_subexpr.R
+++ b/R/modify_subexpr.R
@@ -1,6 +1,6 @@
 find_sub_status <- function(x, subvar) {
-  if(is.logical(x)) {
-    x
+  if(is.atomic(x)) {
+    FALSE
   }
   else if(is.name(x)) {
     identical(as.character(x), subvar)
@@ -37,6 +37,10 @@ modify_subexpr <- function(x, subvar) {
         }
       } else if(identical(x[[1]], quote(`+`))) {
         x[[1]] <- quote(`+fr`)
+      } else if(identical(x[[1]], quote(`(`))) {
+        x
+      } else if(length(x) == 2L && identical(x[[1]], quote(`-`))) {
+        x <- call("*fr", x[[2]], -1)
       } else if(identical(x[[1]], quote(`-`))) {
         x[[1]] <- quote(`-fr`)
       } else if(identical(x[[1]], quote(`*`))) {
-- 
2.43.0


From 14872a7d3c51e0ffc4d6afc8750ab9660b0e09ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:46 +0000
Subject: [PATCH 13/32] fix: number of substituted variables in each Sub() term
 is never checked

---
 R/subformula.R | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/R/subformula.R b/R/subformula.R
index 623912b..e63fd16 100644
--- a/R/subformula.R
+++ b/R/subformula.R
@@ -105,11 +105,11 @@ match_subform_subexpr <- function(subforms, subexprs, data) {
   which_subvars <- lapply(subexprs, find_vars, vars = subvars)
   # check how many subvars involved in each subexpr
   n_subvars <- vapply(which_subvars, length, 1L)
-  if(any(n_subvars) > 1L) {
+  if(any(n_subvars > 1L)) {
     stop("Each Sub(.) should only involve a single substituted variable",
-      .call = FALSE)
-  } else if (any(n_subvars) == 0L) {
-    stop("Each Sub(.) should involve a substituted variable", .call = FALSE)
+         call. = FALSE)
+  } else if (any(n_subvars == 0L)) {
+    stop("Each Sub(.) should involve a substituted variable", call. = FALSE)
   }
   lapply(subforms, add_subexpr, subexprs = subexprs, which_subvars = which_subvars)
 }
-- 
2.43.0


From e389ff5c782d7f0cea6a6610f6ece80ad004f216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:10 +0000
Subject: [PATCH 14/32] fix: levels of an index given in the data are taken
 from another index, or not found

---
 R/indexing.R | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/R/indexing.R b/R/indexing.R
index a34cb99..6266453 100644
--- a/R/indexing.R
+++ b/R/indexing.R
@@ -85,7 +85,11 @@ find_indices_subform <- function(sub, data) {
     if(exists(index, data)) {
       # coerce to factor with common levels
       levels_i <- get(index, data)
+      index_i <- factor(levels_i, levels = levels_i)
       indices_i <- lapply(indices_i, factor, levels = levels_i)
+      if(any(vapply(indices_i, anyNA, TRUE))) {
+        stop("Indexing variables should take values in ", index, call. = FALSE)
+      }
       # replace in data, so have factors with correct levels
       for(j in seq_along(indices_i)) {
         data[[names(indices_i)[j]]] <- indices_i[[j]]
-- 
2.43.0


From a3b52d65ed8db8a60c63c2d2a20c328b7af8cbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:10 +0000
Subject: [PATCH 15/32] fix: numeric indices with gaps are flattened onto the
 wrong cells

---
 R/indexing.R | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/R/indexing.R b/R/indexing.R
index 6266453..82b934c 100644
--- a/R/indexing.R
+++ b/R/indexing.R
@@ -121,10 +121,16 @@ find_index_i <- function(index, i, index_i, subform, data) {
   vars <- vars[in_data]
   x_vars <- data[vars]
   # for each var, we subset vars to keep only levels
+  # if indices are numeric, 1 up to the largest are all possible
+  if(is.factor(index_i)) {
+    levels_i_needed <- length(index_i)
+  } else {
+    levels_i_needed <- max(index_i)
+  }
   if(length(x_vars) > 0) {
     levels_i_max <- max(vapply(x_vars, find_dim_in_dir, 1L, i = i))
   } else {
-    levels_i_max <- length(index_i)
+    levels_i_max <- levels_i_needed
   }
   if(is.factor(index_i)) {
     if(length(index_i) != levels_i_max) {
@@ -134,6 +140,10 @@ find_index_i <- function(index, i, index_i, subform, data) {
       return(index_i)
     }
   } else {
+    if(any(index_i < 1 | index_i > levels_i_max | index_i != round(index_i))) {
+      stop(paste0("Index ", index, " should only take values in 1, ..., ",
+                  levels_i_max), call. = FALSE)
+    }
     return(1:levels_i_max)
   }
 }
-- 
2.43.0


From 2ccc497fe843bcaf9ffcf6f1629dd9b17f778f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:10 +0000
Subject: [PATCH 16/32] fix: missing covariates in a subformula shift the rows
 of the levels after them

---
 R/model_frames.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/model_frames.R b/R/model_frames.R
index 87a0e5f..7f43c85 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -79,7 +79,7 @@ parse_subformula <- function(formula, data, lme4_control) {
     modfr <- list(X = modfr_tot$X, reTrms = modfr_tot$reTrms)
   } else {
 
-    fr <- lm(formula, data = data_vars, family = family,
+    fr <- lm(formula, data = data_vars, na.action = na.fail,
              method = "model.frame")
     X <- model.matrix(formula, data = fr)
     modfr <- list(X = X)
-- 
2.43.0


From 22ca4ca6ce8df9fea97a0aecd661561494e3fdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:10 +0000
Subject: [PATCH 17/32] fix: models without fixed effects use entries past the
 end of the parameters

---
 R/IS.R      | 2 +-
 R/glmmFit.R | 9 +++------
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/R/IS.R b/R/IS.R
index 0fe8158..929c699 100644
--- a/R/IS.R
+++ b/R/IS.R
@@ -1,7 +1,7 @@
 find_XBeta <- function(pars, modfr) {
   n_fixed <- ncol(modfr$X)
   n_random <- length(modfr$reTrms$theta)
-  beta <- pars[(n_random + 1) : (n_random + n_fixed)]
+  beta <- pars[n_random + seq_len(n_fixed)]
   XBeta <- as.numeric(modfr$X %*% beta)
 }
 
diff --git a/R/glmmFit.R b/R/glmmFit.R
index e35c4e3..98259cf 100644
--- a/R/glmmFit.R
+++ b/R/glmmFit.R
@@ -70,8 +70,7 @@ print.glmmFit <- function(x, ...){
   names_theta <- unlist(unname(x$modfr$reTrms$cnms))
   p_beta <- ncol(x$modfr$X)
   p_theta <- length(x$modfr$reTrms$theta)
-  p <- p_beta + p_theta
-  estim_fixed <- x$estim[(p_theta+1):p]
+  estim_fixed <- x$estim[p_theta + seq_len(p_beta)]
   names(estim_fixed) <- names_beta
   estim_random <- x$estim[1:p_theta]
   estim_random_df <- data.frame("Groups" = group_names,
@@ -133,7 +132,6 @@ print.summaryGlmmFit <- function(x, ...){
   names_theta <- unlist(unname(fit$modfr$reTrms$cnms))
   p_beta <- ncol(fit$modfr$X)
   p_theta <- length(fit$modfr$reTrms$theta)
-  p <- p_beta + p_theta
   estim_random <- fit$estim[1:p_theta]
   se_random <- x$se[1:p_theta]
   estim_random_df <- data.frame("Groups" = group_names,
@@ -152,7 +150,7 @@ print.summaryGlmmFit <- function(x, ...){
   cat("\n")
   cat("\n")
   cat("Fixed effects: \n")
-  which_fixed <- (p_theta+1):p
+  which_fixed <- p_theta + seq_len(p_beta)
   estim_fixed <- fit$estim[which_fixed]
   se_fixed <- x$se[which_fixed]
   z_fixed <- x$z[which_fixed]
@@ -176,10 +174,9 @@ coef_random.glmmFit <- function(x) {
 coef_fixed.glmmFit <- function(x) {
   p_theta <- length(x$modfr$reTrms$theta)
   p_beta <- ncol(x$modfr$X)
-  p <- p_beta + p_theta
 
   names_beta <- attr(x$modfr$X,"dimnames")[[2]]
-  which_fixed <- (p_theta+1):p
+  which_fixed <- p_theta + seq_len(p_beta)
   estim_fixed <- x$estim[which_fixed]
   names(estim_fixed) <- names_beta
 
-- 
2.43.0


From 67d71b636e144b1577d16dd7fb97a9f3e003cd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:10 +0000
Subject: [PATCH 18/32] fix: importance samples do not have the covariance of
 the Gaussian approximation

---
 R/IS.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/IS.R b/R/IS.R
index 929c699..0a67334 100644
--- a/R/IS.R
+++ b/R/IS.R
@@ -61,7 +61,7 @@ find_log_integrand<- function(pars, modfr)
 
 transform_normal <- function(z, normal_approx) {
   C <- solve(chol(normal_approx$precision))
-  normal_approx$mean + crossprod(C, z)
+  normal_approx$mean + C %*% z
 }
 
 find_log_weights <- function(z, log_integrand, normal_approx) {
-- 
2.43.0


From a50c9b865500cb62bd2f294f351b01b9be44527e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:10 +0000
Subject: [PATCH 19/32] fix: importance sampling average overflows when the
 weights are very different

---
 R/IS.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/IS.R b/R/IS.R
index 0a67334..eb6e23d 100644
--- a/R/IS.R
+++ b/R/IS.R
@@ -80,7 +80,7 @@ find_lfun_IS <- function(modfr, devfun_laplace, nIS) {
     normal_approx <- compute_normal_approx(pars, devfun_laplace)
     log_integrand <- find_log_integrand(pars, modfr)
     log_weights <- find_log_weights(z_poss, log_integrand, normal_approx)
-    b <- mean(log_weights)
+    b <- max(log_weights)
     log(mean(exp(log_weights - b))) + b
   }
 
-- 
2.43.0


From 8bc62e3436f66b1331a998db78f7686457cd382a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:04 +0000
Subject: [PATCH 20/32] fix: factor and two-column responses are not converted
 by every method

---
 R/IS.R         |  7 +++----
 R/hol.R        |  7 +++----
 R/splitframe.R | 22 +++-------------------
 R/utility.R    | 17 +++++++++++++++++
 4 files changed, 26 insertions(+), 27 deletions(-)

diff --git a/R/IS.R b/R/IS.R
index eb6e23d..be03642 100644
--- a/R/IS.R
+++ b/R/IS.R
@@ -38,10 +38,9 @@ find_eta <- function(u, XBeta, LambdatThetaZt) {
 find_log_integrand<- function(pars, modfr)
 {
   family <- modfr$family
-  y <- model.response(modfr$fr)
-  weights <- model.weights(modfr$fr)
-  if(length(weights) == 0)
-    weights <- rep(1, length(y))
+  resp <- find_response(modfr)
+  y <- resp$response
+  weights <- resp$weights
 
   XBeta <- find_XBeta(pars, modfr)
   LambdatThetaZt <- find_LambdatThetaZt(pars, modfr)
diff --git a/R/hol.R b/R/hol.R
index 6ae7d7e..029d381 100644
--- a/R/hol.R
+++ b/R/hol.R
@@ -14,10 +14,9 @@ find_epsilon_1 <- function(pars, modfr, devfun_laplace_1) {
   LambdatThetaZt <- find_LambdatThetaZt(pars, modfr)
   eta_hat <- find_eta(u_hat, XBeta, LambdatThetaZt)
 
-  response <- model.response(modfr$fr)
-  weights <- model.weights(modfr$fr)
-  if(length(weights) == 0)
-    weights <- rep(1, length(response))
+  resp <- find_response(modfr)
+  response <- resp$response
+  weights <- resp$weights
 
   gamma_3 <- -modfr_family$evaluate_d3(eta_hat, response, weights)
   gamma_4 <- -modfr_family$evaluate_d4(eta_hat, response, weights)
diff --git a/R/splitframe.R b/R/splitframe.R
index 2d5e74b..8ad03db 100644
--- a/R/splitframe.R
+++ b/R/splitframe.R
@@ -36,25 +36,9 @@ find_local_term <- function(clique_ext, modfr) {
   Lind_mat <- modfr$reTrms$Lambdat
   Lind_mat@x <- as.numeric(modfr$reTrms$Lind)
   Lind_C <- as.integer(Lind_mat[C, C, drop = FALSE]@x) - 1
-  resp <- model.response(modfr$fr)
-  if(is.factor(resp)) {
-    resp <- (resp != levels(resp)[1L])
-  }
-  weights <- model.weights(modfr$fr)
-  if(is.null(weights)) {
-    weights_C <- rep(1, length(obs_C))
-  } else {
-    weights_C <- weights[obs_C]
-  }
-  if(NCOL(resp) == 1) {
-    resp_C <- resp[obs_C]
-    resp_C <- matrix(unname(resp_C), ncol = 1)
-  } else {
-    #####################
-    # FIXME: should convert to vector form
-    resp_C <- resp[obs_C, , drop = FALSE]
-    #####################
-  }
+  resp <- find_response(modfr)
+  weights_C <- resp$weights[obs_C]
+  resp_C <- matrix(resp$response[obs_C], ncol = 1)
   list(C = C, X = X_C, Zt = Zt_C, Lambdat = Lambdat_C,
        Lind = Lind_C, resp = resp_C, weights = weights_C)
 }
diff --git a/R/utility.R b/R/utility.R
index f9c1748..080f1b0 100644
--- a/R/utility.R
+++ b/R/utility.R
@@ -82,6 +82,23 @@ check_weights <- function(weights) {
   }
 }
 
+# response and weights of a binomial model as used in its likelihood:
+# factors are coded 0/1, and (success, failure) counts as proportions
+find_response <- function(modfr) {
+  response <- model.response(modfr$fr)
+  weights <- model.weights(modfr$fr)
+  if(length(weights) == 0)
+    weights <- rep(1, NROW(response))
+  if(is.factor(response)) {
+    response <- as.numeric(response != levels(response)[1L])
+  } else if(NCOL(response) == 2L) {
+    size <- rowSums(response)
+    response <- ifelse(size > 0, response[, 1] / size, 0)
+    weights <- weights * size
+  }
+  list(response = as.numeric(response), weights = as.numeric(weights))
+}
+
 check_modfr_SR <- function(modfr) {
   family <- modfr$family$family
   link <- modfr$family$link
-- 
2.43.0


From f42f8dea80124b56756400c3f04f56097a12fa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:46 +0000
Subject: [PATCH 21/32] fix: offsets are ignored except in the mode used by the
 approximations

---
 R/IS.R            | 4 ++++
 R/loglikelihood.R | 4 +++-
 R/splitframe.R    | 3 ++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/R/IS.R b/R/IS.R
index be03642..8eac1cb 100644
--- a/R/IS.R
+++ b/R/IS.R
@@ -3,6 +3,10 @@ find_XBeta <- function(pars, modfr) {
   n_random <- length(modfr$reTrms$theta)
   beta <- pars[n_random + seq_len(n_fixed)]
   XBeta <- as.numeric(modfr$X %*% beta)
+  offset <- stats::model.offset(modfr$fr)
+  if(length(offset) > 0)
+    XBeta <- XBeta + offset
+  XBeta
 }
 
 find_LambdatThetaZt <- function(pars, modfr) {
diff --git a/R/loglikelihood.R b/R/loglikelihood.R
index 8c6c721..f9aa589 100644
--- a/R/loglikelihood.R
+++ b/R/loglikelihood.R
@@ -48,6 +48,8 @@ find_lfun_SR <- function(modfr, devfun_lme4, nSL, nAGQ) {
   calibration_pars$family <- modfr$family$family
   calibration_pars$link <- modfr$family$link
   beliefs <- cluster_graph(factorization_terms)
+  # an offset is an extra column of X in each term, with coefficient 1
+  beta_offset <- if(is.null(stats::model.offset(modfr$fr))) NULL else 1
 
   complexity_limit <- 5e5
   if(beliefs$width^(2 * nSL) > complexity_limit) {
@@ -64,7 +66,7 @@ find_lfun_SR <- function(modfr, devfun_lme4, nSL, nAGQ) {
            call. = FALSE)
     }
     calibration_pars$theta <- pars[1:n_random]
-    calibration_pars$beta <- pars[-(1:n_random)]
+    calibration_pars$beta <- c(pars[-(1:n_random)], beta_offset)
     normal_approx <- compute_normal_approx(pars, devfun_lme4)
     l_SR <- beliefs$compute_log_normalizing_constant(normal_approx$mean,
                                                      normal_approx$precision,
diff --git a/R/splitframe.R b/R/splitframe.R
index 8ad03db..f4a5599 100644
--- a/R/splitframe.R
+++ b/R/splitframe.R
@@ -30,7 +30,8 @@ add_obs <- function(cliques, act, obs) {
 find_local_term <- function(clique_ext, modfr) {
   C <- clique_ext$C
   obs_C <- clique_ext$obs_C
-  X_C <- unname(modfr$X[obs_C, , drop = FALSE])
+  # an offset is an extra column, with coefficient 1
+  X_C <- unname(cbind(modfr$X, stats::model.offset(modfr$fr))[obs_C, , drop = FALSE])
   Zt_C <- unname(as.matrix(modfr$reTrms$Zt[C, obs_C, drop = FALSE]))
   Lambdat_C <- modfr$reTrms$Lambdat[C, C, drop = FALSE]
   Lind_mat <- modfr$reTrms$Lambdat
-- 
2.43.0


From ca7ddd10ebb612ca85c604d5b4eda897097f21cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:46 +0000
Subject: [PATCH 22/32] fix: observations without random effects shift the
 active set of those after them

---
 R/splitframe.R | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/R/splitframe.R b/R/splitframe.R
index f4a5599..5a10a18 100644
--- a/R/splitframe.R
+++ b/R/splitframe.R
@@ -4,7 +4,14 @@ find_active <- function(modfr) {
   Lambdat <- modfr$reTrms$Lambdat
   LambdatZt <- Lambdat %*% Zt
   LambdatZt <- as(LambdatZt, "dgTMatrix")
-  tapply(LambdatZt@i + 1, LambdatZt@j + 1, c, simplify = FALSE)
+  obs <- factor(LambdatZt@j + 1, levels = seq_len(ncol(Zt)))
+  tapply(LambdatZt@i + 1, obs, c, simplify = FALSE)
+}
+
+# observations which do not involve any random effect can go in any clique
+find_cliques <- function(act) {
+  cliques <- unname(unique(act))
+  cliques[vapply(cliques, length, 1L) > 0L]
 }
 
 add_obs_C <- function(C, act, obs_rem) {
@@ -46,7 +53,7 @@ find_local_term <- function(clique_ext, modfr) {
 
 find_factorization_terms <- function(modfr) {
   act <- find_active(modfr)
-  cliques <- unname(unique(act))
+  cliques <- find_cliques(act)
   n_obs <- ncol(modfr$reTrms$Zt)
   n_re <- nrow(modfr$reTrms$Zt)
   cliques_ext <- add_obs(cliques, act, 1:n_obs)
@@ -89,7 +96,7 @@ save_factorization_to_file <- function(modfr, file = "") {
   unlink(file)
 
   act <- find_active(modfr)
-  cliques <- unname(unique(act))
+  cliques <- find_cliques(act)
   n_obs <- ncol(modfr$reTrms$Zt)
   n_re <- nrow(modfr$reTrms$Zt)
   cliques_ext <- add_obs(cliques, act, 1:n_obs)
-- 
2.43.0


From 52a16ce18ded173305fc9c5956a74c732aa59bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:46 +0000
Subject: [PATCH 23/32] fix: evaluating the likelihood overwrites the offset in
 the model frame

---
 R/loglikelihood.R | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/R/loglikelihood.R b/R/loglikelihood.R
index f9aa589..7eda9cc 100644
--- a/R/loglikelihood.R
+++ b/R/loglikelihood.R
@@ -11,7 +11,9 @@ find_lfun_glmm <- function(modfr, method, control = NULL,
 }
 
 find_devfun_laplace_1 <- function(modfr, lme4_control) {
-  devfun_lme4 <- lme4::mkGlmerDevfun(fr = modfr$fr, X = modfr$X,
+  # lme4 writes the linear predictor over the offset it is given
+  fr <- unserialize(serialize(modfr$fr, NULL))
+  devfun_lme4 <- lme4::mkGlmerDevfun(fr = fr, X = modfr$X,
                                      reTrms = modfr$reTrms, family = modfr$family,
                                      control = lme4_control)
   lme4::updateGlmerDevfun(devfun_lme4, modfr$reTrms, nAGQ = 1)
-- 
2.43.0


From b02430337e129658f82284a513c6b179b8362075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:46 +0000
Subject: [PATCH 24/32] fix: covariances keep the sign of a variance parameter
 whose estimate changed sign

---
 R/fit.R | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/R/fit.R b/R/fit.R
index 6377e90..2b4788a 100644
--- a/R/fit.R
+++ b/R/fit.R
@@ -69,7 +69,11 @@ glmm <- function(formula, subformula = NULL, data = NULL, family = gaussian,
                 call. = FALSE)
     }
     if(all(modfr$reTrms$lower == 0)) {
-      opt$estim[1:p_theta] <- abs(opt$estim[1:p_theta])
+      # change sign of covariances to match
+      signs <- rep(1, length(opt$estim))
+      signs[1:p_theta][opt$estim[1:p_theta] < 0] <- -1
+      opt$estim <- signs * opt$estim
+      opt$Sigma <- signs * opt$Sigma * rep(signs, each = length(signs))
       if(any(opt$estim[1:p_theta] > 4.9)) {
         opt$Sigma <- matrix(NA, nrow = length(opt$estim), ncol = length(opt$estim))
         warning("The approximate MLE might not be finite", call. = FALSE)
-- 
2.43.0


From 5552cd0d369f9d032d8ebb4d6965669f66e47fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:33 +0000
Subject: [PATCH 25/32] fix: evaluating the likelihood overwrites the
 random-effects factor of the model frame

---
 R/loglikelihood.R | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/R/loglikelihood.R b/R/loglikelihood.R
index 7eda9cc..14a5ece 100644
--- a/R/loglikelihood.R
+++ b/R/loglikelihood.R
@@ -11,10 +11,15 @@ find_lfun_glmm <- function(modfr, method, control = NULL,
 }
 
 find_devfun_laplace_1 <- function(modfr, lme4_control) {
-  # lme4 writes the linear predictor over the offset it is given
-  fr <- unserialize(serialize(modfr$fr, NULL))
+  # lme4 writes over the offset and random-effects factor it is given: copy them
+  fr <- modfr$fr
+  for(j in which(vapply(fr, is.double, TRUE)))
+    fr[[j]] <- fr[[j]] + 0
+  reTrms <- modfr$reTrms
+  reTrms$theta <- reTrms$theta + 0
+  reTrms$Lambdat@x <- reTrms$Lambdat@x + 0
   devfun_lme4 <- lme4::mkGlmerDevfun(fr = fr, X = modfr$X,
-                                     reTrms = modfr$reTrms, family = modfr$family,
+                                     reTrms = reTrms, family = modfr$family,
                                      control = lme4_control)
   lme4::updateGlmerDevfun(devfun_lme4, modfr$reTrms, nAGQ = 1)
 }
-- 
2.43.0


From 20ed4e0569a45811c389b25781768dddba4849fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:49 +0000
Subject: [PATCH 26/32] fix: offset argument is looked up under another name
 and can replace a covariate

---
 R/model_frames.R | 37 +++++++------------------------------
 1 file changed, 7 insertions(+), 30 deletions(-)

diff --git a/R/model_frames.R b/R/model_frames.R
index 7f43c85..2ea006a 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -8,6 +8,8 @@ parse_formula <- function(formula, data, family, weights, off,
     family <- get(family, mode = "function", envir = parent.frame())
   if (is.function(family))
     family <- family()
+  # lme4 looks for an argument called offset in this environment
+  offset <- off
   if(has_re(formula)) {
     if (family$family == "gaussian")
       stop("glmmsr can't yet handle family = gaussian", call. = FALSE)
@@ -17,7 +19,7 @@ parse_formula <- function(formula, data, family, weights, off,
     } else {
       if(is.null(weights)) {
         modfr <- lme4::glFormula(formula, data = data_vars, family = family,
-                                 na.action = na.fail, offset = off,
+                                 na.action = na.fail, offset = offset,
                                  control = lme4_control)
       } else {
         if(is.null(off)) {
@@ -27,41 +29,16 @@ parse_formula <- function(formula, data, family, weights, off,
         } else {
           modfr <- lme4::glFormula(formula, data = data_vars, family = family,
                                    na.action = na.fail, weights = weights,
-                                   offset = off, control = lme4_control)
+                                   offset = offset, control = lme4_control)
         }
       }
     }
     if(is.null(modfr$family))
       modfr$family <- family
   } else {
-    if(is.null(off) && is.null(weights)) {
-      fr <- glm(formula, data = data_vars, family = family,
-                method = "model.frame")
-    } else {
-      if(is.null(weights)) {
-        data_vars_off <- data_vars
-        data_vars_off$off <- off
-        fr <- glm(formula, data = data_vars_off, family = family,
-                  method = "model.frame", offset = off)
-      } else {
-        if(is.null(off)) {
-          data_vars_weights <- data_vars
-          data_vars_weights$weights <- weights
-          fr <- glm(formula, data = data_vars_weights,
-                    family = family, method = "model.frame",
-                    weights = weights)
-        } else {
-          data_vars_off_weights <- data_vars
-          data_vars_off_weights$off <- off
-          data_vars_off_weights$weights <- weights
-          fr <- glm(formula, data = data_vars_off_weights,
-                    family = family, method = "model.frame",
-                    offset = off, weights = weights)
-        }
-
-      }
-
-    }
+    fr <- do.call(glm, list(formula, data = data_vars, family = family,
+                            method = "model.frame", offset = off,
+                            weights = weights))
     X <- model.matrix(formula, data = fr)
     modfr <- list(fr = fr, X = X, family = family, formula = formula)
   }
-- 
2.43.0


From 6cdb4143cdf4609365ebde96a3936346c5dc20c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:27 +0000
Subject: [PATCH 27/32] fix: random effects and offsets of a formula with a
 Sub() term are lost or merged into one term

---
 R/subformula.R | 13 +++++--------
 R/utility.R    | 28 +++++-----------------------
 2 files changed, 10 insertions(+), 31 deletions(-)

diff --git a/R/subformula.R b/R/subformula.R
index e63fd16..8ea226e 100644
--- a/R/subformula.R
+++ b/R/subformula.R
@@ -17,14 +17,11 @@ split_formula <- function(formula) {
     fac <- attr(tf, "factors")
     rhs_vars <- attr(fac, "dimnames")[[2]]
     var_sub_rhs <- sapply(var_sub, find_var_rhs, fac = fac)
-    if(length(rhs_vars) > length(var_sub_rhs)){
-      attr(tf, "intercept") <- 1
-      tf_no_sub <- drop.terms(tf, var_sub_rhs, keep.response = TRUE)
-      attr(tf_no_sub, "intercept") <- 0
-      form_no_sub <- fixFormulaObject(tf_no_sub)
-    } else{
-      form_no_sub <- update.formula(formula, . ~ 0)
-    }
+    # the intercept is always removed if there is a Sub() term
+    labels_no_sub <- c("0", fix_brackets(rhs_vars[-unlist(var_sub_rhs)]),
+                       as.character(attr(tf, "variables"))[-1L][attr(tf, "offset")])
+    form_no_sub <- stats::reformulate(labels_no_sub, response = formula[[2L]])
+    environment(form_no_sub) <- environment(formula)
     subexprs <- lapply(rhs_vars[var_sub_rhs], find_subexpr)
   }
   else{
diff --git a/R/utility.R b/R/utility.R
index 080f1b0..281ca48 100644
--- a/R/utility.R
+++ b/R/utility.R
@@ -39,29 +39,11 @@ subset_dim <- function(x, i, indices){
 }
 
 
-# copied from terms.formula
-# stop dropping of brackets around (1 | group) terms
-fixFormulaObject <- function(object) {
-  Terms <- terms(object)
-  tmp <- attr(Terms, "term.labels")
-  ind <- grep("|", tmp, fixed = TRUE)
-  if (length(ind))
-    tmp[ind] <- paste("(", tmp[ind], ")")
-  if (length(ind <- attr(Terms, "offset"))) {
-    tmp2 <- as.character(attr(Terms, "variables"))[-1L]
-    tmp <- c(tmp, tmp2[ind])
-  }
-  rhs <- if (length(tmp))
-    paste(tmp, collapse = " + ")
-  else "1"
-  if (!attr(terms(object), "intercept"))
-    rhs <- paste(rhs, "- 1")
-  if (length(form <- formula(object)) > 2L) {
-    res <- formula(paste("lhs ~", rhs))
-    res[[2L]] <- form[[2L]]
-    res
-  }
-  else formula(paste("~", rhs))
+# put back the brackets around (1 | group) terms, which terms() removes
+fix_brackets <- function(labels) {
+  has_bar <- grepl("|", labels, fixed = TRUE)
+  labels[has_bar] <- paste0("(", labels[has_bar], ")")
+  labels
 }
 
 
-- 
2.43.0


From a210f82d05953f0ec825f67a1d983bb9cb9d83b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:49 +0000
Subject: [PATCH 28/32] fix: subformulas with several indices and no random
 effects are rejected

---
 R/indexing.R | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/R/indexing.R b/R/indexing.R
index 82b934c..2eb3d1a 100644
--- a/R/indexing.R
+++ b/R/indexing.R
@@ -182,7 +182,8 @@ flatten_formula <- function(formula, indices){
     # and combine with cbind
     # for now, insist all indexing is done with indices in indices
 
-    formula_flat <- matrix_indexing(formula_flat, indices)
+    formula_flat <- stats::as.formula(matrix_indexing(formula_flat, indices),
+                                      env = environment(formula))
   }
   formula_flat
 }
-- 
2.43.0


From e9616f3d7a26911ca00e4c448d4757d1226adb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:19 +0000
Subject: [PATCH 29/32] fix: parameter vectors of the wrong length are accepted
 by the Laplace, AGQ and IS approximations

---
 R/IS.R            | 1 +
 R/laplace.R       | 6 +++++-
 R/loglikelihood.R | 5 ++++-
 R/utility.R       | 8 ++++++++
 4 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/R/IS.R b/R/IS.R
index 8eac1cb..4c6e6b2 100644
--- a/R/IS.R
+++ b/R/IS.R
@@ -80,6 +80,7 @@ find_lfun_IS <- function(modfr, devfun_laplace, nIS) {
   z_poss <- matrix(rnorm(n * nIS), nrow = n)
 
   lfun <- function(pars) {
+    check_pars(pars, modfr)
     normal_approx <- compute_normal_approx(pars, devfun_laplace)
     log_integrand <- find_log_integrand(pars, modfr)
     log_weights <- find_log_weights(z_poss, log_integrand, normal_approx)
diff --git a/R/laplace.R b/R/laplace.R
index 3abae86..86ce092 100644
--- a/R/laplace.R
+++ b/R/laplace.R
@@ -10,12 +10,16 @@ check_if_order_implemented <- function(family, order) {
 
 find_lfun_Laplace <- function(modfr, devfun_laplace_1, order) {
   if(order == 1L ) {
-    lfun <- function(x) { -devfun_laplace_1(x) / 2 }
+    lfun <- function(x) {
+      check_pars(x, modfr)
+      -devfun_laplace_1(x) / 2
+    }
   }
   else {
     check_if_order_implemented(modfr$family, order)
     if(order == 2L) {
       lfun <- function(x){
+        check_pars(x, modfr)
         epsilon_1 <- find_epsilon_1(x, modfr, devfun_laplace_1)
         -devfun_laplace_1(x) / 2 + epsilon_1
       }
diff --git a/R/loglikelihood.R b/R/loglikelihood.R
index 14a5ece..8047c9a 100644
--- a/R/loglikelihood.R
+++ b/R/loglikelihood.R
@@ -39,7 +39,10 @@ find_lfun_glmm_internal <- function(modfr, method, control, devfun_laplace_1)
 
 find_lfun_AGQ <- function(modfr, devfun_laplace_1, nAGQ) {
   devfun_AGQ <- lme4::updateGlmerDevfun(devfun_laplace_1, modfr$reTrms, nAGQ = nAGQ)
-  function(x) { -devfun_AGQ(x) / 2 }
+  function(x) {
+    check_pars(x, modfr)
+    -devfun_AGQ(x) / 2
+  }
 }
 
 find_lfun_SR <- function(modfr, devfun_lme4, nSL, nAGQ) {
diff --git a/R/utility.R b/R/utility.R
index 281ca48..27c1b79 100644
--- a/R/utility.R
+++ b/R/utility.R
@@ -81,6 +81,14 @@ find_response <- function(modfr) {
   list(response = as.numeric(response), weights = as.numeric(weights))
 }
 
+check_pars <- function(pars, modfr) {
+  n_pars <- length(modfr$reTrms$theta) + ncol(modfr$X)
+  if(length(pars) != n_pars) {
+    stop("cannot compute loglikelihood for parameter of length ",
+         length(pars), " != ", n_pars, call. = FALSE)
+  }
+}
+
 check_modfr_SR <- function(modfr) {
   family <- modfr$family$family
   link <- modfr$family$link
-- 
2.43.0


From 327cafff0acfdce885c9a4f528f8d2a3fcf8dc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:40 +0000
Subject: [PATCH 30/32] fix: lme4_control is ignored when glmm() makes the
 model frame

---
 R/fit.R | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/R/fit.R b/R/fit.R
index 2b4788a..c29c068 100644
--- a/R/fit.R
+++ b/R/fit.R
@@ -51,7 +51,8 @@ glmm <- function(formula, subformula = NULL, data = NULL, family = gaussian,
   con <- find_control_with_defaults(control, method)
 
   modfr <- find_modfr_glmm(formula, subformula = subformula, data = data,
-                           family = family, weights = weights, offset = offset)
+                           family = family, weights = weights, offset = offset,
+                           lme4_control = lme4_control)
 
   if(has_reTrms(modfr)) {
     devfun_laplace_1 <- find_devfun_laplace_1(modfr, lme4_control)
-- 
2.43.0


From 8c41ba4497c8f3292183a8e6be495d89ed525209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:13 +0000
Subject: [PATCH 31/32] fix: numbers of levels are printed next to the wrong
 random-effects terms

---
 R/glmmFit.R      | 9 +++++++--
 R/model_frames.R | 5 ++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/R/glmmFit.R b/R/glmmFit.R
index 98259cf..06e39b4 100644
--- a/R/glmmFit.R
+++ b/R/glmmFit.R
@@ -48,6 +48,11 @@ print_subformula <- function(subformula) {
   }
 }
 
+# number of levels of the grouping factor of each random effects term
+find_nlevels <- function(flist) {
+  vapply(flist, nlevels, 1L)[attr(flist, "assign")]
+}
+
 #' Print glmmFit object
 #'
 #' @param x glmmFit object
@@ -79,7 +84,7 @@ print.glmmFit <- function(x, ...){
 
   cat("Random effects:\n")
   print(estim_random_df, digits = 4,right = FALSE, row_names = FALSE)
-  nlevels_each <- sapply(x$modfr$reTrms$flist, nlevels)
+  nlevels_each <- find_nlevels(x$modfr$reTrms$flist)
   y <- model.response(x$modfr$fr)
   nobs <- NROW(y)
   cat("Number of obs: ", nobs, ", groups: ", sep="")
@@ -139,7 +144,7 @@ print.summaryGlmmFit <- function(x, ...){
                                 "Estimate" = estim_random,
                                 "Std.Error" = se_random)
   print(estim_random_df, digits = 4, right = FALSE, row.names=FALSE)
-  nlevels_each <- sapply(fit$modfr$reTrms$flist, nlevels)
+  nlevels_each <- find_nlevels(fit$modfr$reTrms$flist)
   y <- model.response(fit$modfr$fr)
   nobs <- NROW(y)
   cat("Number of obs: ", nobs, ", groups: ", sep="")
diff --git a/R/model_frames.R b/R/model_frames.R
index 2ea006a..98981e9 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -83,6 +83,7 @@ is_modfr <- function(x) {
     out$reTrms$Zt <- reTrms$Zt[, i, drop = FALSE]
     out$reTrms$Ztlist <- lapply(reTrms$Ztlist, function(Zt) Zt[, i, drop = FALSE])
     out$reTrms$flist <- lapply(reTrms$flist, "[", j = i, drop = FALSE)
+    attr(out$reTrms$flist, "assign") <- attr(reTrms$flist, "assign")
   }
   return(out)
 }
@@ -182,7 +183,9 @@ concatenate_frames <- function(modfr1, modfr2) {
       out$reTrms$Lambdat <- concatenate_Matrix(reTrms1$Lambdat, reTrms2$Lambdat)
       # need "assign" attribute to print out groups correctly
       out$reTrms$flist <- c(reTrms1$flist, reTrms2$flist)
-      attr(out$reTrms$flist, "assign") <- seq_along(out$reTrms$flist)
+      attr(out$reTrms$flist, "assign") <- c(attr(reTrms1$flist, "assign"),
+                                            length(reTrms1$flist) +
+                                              attr(reTrms2$flist, "assign"))
       out$reTrms$cnms <- c(reTrms1$cnms, reTrms2$cnms)
       out$reTrms$Ztlist <- c(reTrms1$Ztlist, reTrms2$Ztlist)
     }
-- 
2.43.0


From 5ea0ffbe9cefe29effd1e8d491523f17d5e5816b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 32/32] fix: reject substituted variables beyond the second
 argument of a call

---
 R/modify_subexpr.R | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/R/modify_subexpr.R b/R/modify_subexpr.R
index a01a933..9c26f9b 100644
--- a/R/modify_subexpr.R
+++ b/R/modify_subexpr.R
@@ -18,16 +18,14 @@ modify_subexpr <- function(x, subvar) {
   if(is.atomic(x) || is.name(x)) {
     x
   } else if (is.call(x)) {
-    arg1sub <- FALSE
-    arg2sub <- FALSE
-    if(length(x) > 1L) {
-      arg1sub <- find_sub_status(x[[2]], subvar)
-      if(length(x) > 2L) {
-        arg2sub <- find_sub_status(x[[3]], subvar)
+    args_sub <- vapply(as.list(x)[-1L], find_sub_status, TRUE, subvar = subvar)
+    if(any(args_sub)) {
+      # only the first two arguments of a linear operation can be substituted
+      if(any(args_sub[-(1:2)])) {
+        stop("Substituted variables used in non-linear function",
+             call. = FALSE)
       }
-    }
-    if(arg1sub || arg2sub) {
-      if(identical(x[[1]], quote(`[`)) && arg1sub && !arg2sub) {
+      if(identical(x[[1]], quote(`[`)) && args_sub[1L] && !any(args_sub[-1L])) {
         x[[1]] <- quote(`[fr`)
         if(length(x) > 3L) {
           # have multiple indexing: must flatten
-- 
2.43.0

