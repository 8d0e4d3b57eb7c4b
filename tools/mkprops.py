#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (a script, so that the text stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a=dict(files=files,mechanism=[dict(name=x,where=y) for x,y in mech],observe_at=observe,hook_needed=None)
    if state: a["state"]=[dict(name=x,meaning=y,where=z) for x,y,z in state]
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))

p("C01","Binomial log-likelihood terms and their derivatives are exact",
 "For every linear predictor, response and weight, and for both the logit and the probit link, a likelihood term has value sum of w*(y*log(mu)+(1-y)*log(1-mu)), where mu is the inverse link clamped into [1e-8, 1-1e-8]. Its first to fourth derivatives with respect to each linear predictor are the exact derivatives of that sum wherever the mean is not clamped. For finite inputs every value and derivative is finite, however large the linear predictor.",
 ["inputs"],"all linear predictors (any length, any finite values), responses in [0,1], non-negative weights, links logit and probit, derivative orders 0 to 4",
 "Tests check a few fitted models to a few digits; a wrong coefficient in a third derivative or an overflow at an extreme linear predictor does not move them.",
 ["src/LogitLink.cpp","src/ProbitLink.cpp","src/Binomial.cpp","src/Family.cpp","src/Link.cpp","src/FamilyGivenMean.cpp"],
 [("inverse links and their derivatives","src/LogitLink.cpp, src/ProbitLink.cpp"),("binomial log-density in the mean and clamping of the mean","src/Binomial.cpp"),("chain rule through the link","src/Family.cpp"),("selection of link and family by name","src/Link.cpp, src/FamilyGivenMean.cpp")],
 ["Family::evaluate and its four derivative functions"])
p("C02","One-dimensional quadrature integrates Gaussian-weighted polynomials exactly",
 "For every number of points n, location m and scale s > 0, the adaptive rule applied to p(x)*exp(-(x-m)^2/(2*s^2)) returns its integral over the real line for every polynomial p of degree at most 2n-1. The rule is linear in the integrand and uses each of its n nodes exactly once, and the versions for vector and matrix integrands agree entry by entry with the scalar one.",
 ["inputs"],"all integrands, locations, scales, dimensions and numbers of quadrature points from 1 up to those the package sets by default (31)",
 "Tests see the rule only through whole fits at one or two sizes; an error in one node, weight or scale factor at other sizes hides in the tolerance.",
 ["src/QuadratureRule.cpp"],
 [("construction of nodes and weights","src/QuadratureRule.cpp initialize, findHermiteJacobi"),("scaled sums over the nodes","src/QuadratureRule.cpp integrate1D, integrate1DVector, integrate1DMatrix")],
 ["integrate1D, integrate1DVector, integrate1DMatrix"])
p("C03","Integrating out one random effect: value, gradient and Hessian agree",
 "Integrating a log-density over any one of its coordinates returns the log of the quadrature sum along the conditional Gaussian of that coordinate given the others. If the log-density is that of an unnormalized Gaussian and the same Gaussian guides the integration, the result is the exact Gaussian marginal at every point for any number of quadrature points. The gradient and Hessian returned are the exact first and second derivatives of the returned value.",
 ["inputs"],"all log-densities with derivatives, all dimensions, coordinates, proper Gaussian approximations, evaluation points and numbers of quadrature points",
 "Needs every dimension, coordinate and correlation; tests fit models whose cliques are small and whose tolerance hides an inexact conditional mean.",
 ["src/IntegratedFunction.cpp","src/subsetEigen.cpp","src/QuadratureRule.cpp"],
 [("conditional mean and standard deviation","src/IntegratedFunction.cpp initializeConditionalTerms, findConditionalMean"),("integrals of value, gradient and Hessian","src/IntegratedFunction.cpp integrate*NoLog"),("removing and inserting a coordinate","src/subsetEigen.cpp")],
 ["IntegratedFunction::evaluate, evaluateDerivative, evaluateSecondDerivative"])
p("C04","Gaussian approximations obey Gaussian algebra whatever the order of items",
 "A Gaussian over labelled items keeps its precision and variance inverse to each other, and its log-density, gradient and Hessian are those of the Gaussian with that mean and precision, normalized. Multiplying by (or dividing by) a Gaussian over some of the items, listed in any order, adds to (or subtracts from) the precision exactly the matching entries, and products of Gaussians with a common mean keep that mean. Marginalizing onto items in any order, or dropping one item, selects exactly those means and variances, and a Gaussian built from a location, gradient and Hessian has that gradient and Hessian there.",
 ["inputs"],"all dimensions, means, precisions, item lists and orders",
 "Every subset and order of items matters; tests use models whose items are in increasing order and never look at the Gaussian approximations.",
 ["src/MultiNormal.cpp","src/NormalBelief.cpp","src/subsetEigen.cpp","src/itemsHelper.cpp"],
 [("precision, variance and normalizer kept in step","src/MultiNormal.cpp setPrecision, setVariance, initializeNormalizer"),("products, quotients and marginals over subsets","src/MultiNormal.cpp multiplySubsetInternal, computeMarginal, integrate"),("label bookkeeping","src/NormalBelief.cpp, src/itemsHelper.cpp")],
 ["MultiNormal and NormalBelief public functions"])
p("C05","A combined term is the signed sum of its factors on their own items",
 "A combined log-density over labelled items equals, at every point, the sum of its multiplied-in factors minus the sum of its divided-out factors, each evaluated at the coordinates of its own items, whatever order the items are listed in. Its gradient and Hessian are the matching signed sums, placed in the rows and columns of those items. Multiplying by a term and then dividing by it leaves the value unchanged everywhere.",
 ["inputs","histories"],"all sequences of multiplications and divisions, all factor item lists contained in the items, all evaluation points",
 "The number of factor histories and item orders is unbounded; tests observe only the final likelihood of a few models.",
 ["src/MixedContinuousBelief.cpp","src/matrixHelper.cpp","src/itemsHelper.cpp","src/ContinuousBelief.cpp"],
 [("signed list of factors and their relative positions","src/MixedContinuousBelief.cpp operator*=, operator/=, recomputeRelativeItems"),("gather and scatter of coordinates","src/matrixHelper.cpp")],
 ["MixedContinuousBelief::evaluate, evaluateDerivative, evaluateSecondDerivative"])
p("C06","A model term uses the linear predictor of the current parameters only",
 "For every design and every parameter vectors, a model term at random effects u has linear predictor X*beta + Z*Lambda(theta)*u, where the stored entries of the random-effects factor are the elements of theta given by the index vector, and its value, gradient and Hessian in u are those of the family at that linear predictor. The result depends only on the arguments of that call: no earlier call with other parameters, on this object or on a copy that shares it, changes it.",
 ["inputs","histories"],"all designs, sparsity patterns of the random-effects factor (correlated random effects included), parameter values and sequences of earlier evaluations",
 "The term caches quantities of the last parameters it saw, so an error needs a particular sequence of parameter changes that single-fit tests do not expose.",
 ["src/GLMMBelief.cpp","src/ContinuousBelief.cpp"],
 [("caches keyed on theta and beta","src/GLMMBelief.cpp setTheta, setBeta"),("filling the sparse factor from theta","src/GLMMBelief.cpp setLambdatThetaZt"),("shared handle to a term","src/ContinuousBelief.cpp")],
 ["GLMMBelief::evaluate, evaluateDerivative, evaluateSecondDerivative"],
 [("theta_, LambdatThetaZt_, beta_, XBeta_","last parameters seen and the products computed from them","src/GLMMBelief.cpp")])
p("C07","Sparse-grid storage: complete enumeration, indexing and interpolation",
 "For every dimension and level the sparse grid has exactly the number of points the counting formula gives, advancing from the first point visits every admissible combination of levels and positions exactly once, and the index of a combination is its place in that enumeration. A stored function is reproduced at every grid point, and the gradient and Hessian of the stored function are the exact derivatives of its interpolant. Storing a log-density relative to a Gaussian with the same gradient and Hessian at the mean reproduces an exactly Gaussian log-density everywhere.",
 ["inputs"],"all dimensions and levels the complexity limit admits, all functions with derivatives, all evaluation points",
 "The enumeration and index formulas must agree for every dimension and level; tests run level 3 to 5 on one to three dimensions and only look at likelihoods.",
 ["src/Point.cpp","src/SparseGrid.cpp","src/SparseGridTransform.cpp","src/SparseStore.cpp","src/Quadratic.cpp","src/Basis.cpp","src/BasisLevel.cpp","src/counting.cpp"],
 [("number of grid points","src/counting.cpp"),("enumeration and index of points","src/Point.cpp advance*, setIndex"),("hierarchical coefficients","src/SparseGrid.cpp hierarchize"),("spline basis","src/BasisLevel.cpp"),("quadratic modifier and scaling","src/Quadratic.cpp, src/SparseStore.cpp, src/SparseGridTransform.cpp")],
 ["SparseGrid, SparseGridTransform and SparseStore public functions"])
p("C08","Elimination covers every model structure: each term and effect counted once",
 "For every collection of terms over labelled random effects, each term is multiplied into exactly one cluster and that cluster contains all its effects, each cluster passes one message on the effects it shares with a later cluster, and every effect is integrated out exactly once along a valid elimination order. The reported width is the size of the largest cluster. Hence for Gaussian terms the sequential reduction log normalizing constant equals the exact closed-form value for every structure, effect order and level of storage.",
 ["inputs"],"all dependence structures, orders of terms and effects, and levels of sparse-grid storage",
 "Tests fit four fixed model structures; which clusters and messages arise depends on the structure, and a term lost or counted twice only shows on some structures.",
 ["src/ClusterGraph.cpp","src/Graph.cpp","inst/include/dependenceGraph.h","src/itemsHelper.cpp","src/MixedContinuousBelief.cpp"],
 [("elimination of the effect with fewest neighbours","src/ClusterGraph.cpp initializeInternal"),("assignment of terms to clusters","src/ClusterGraph.cpp populateBelief"),("message passing","src/ClusterGraph.cpp passMessage, calibrateInternal"),("dependence graph with removed vertices","src/Graph.cpp")],
 ["ClusterGraph and computeLogNormalizingConstant"])
p("C09","The log-likelihood function is a function of its parameters only",
 "Calling an approximate log-likelihood function twice with the same parameters returns the identical number, whatever other parameter values were evaluated, or failed to evaluate, in between, for every approximation method. Evaluating it does not change the model frame, other log-likelihood functions built from the same model, or the stored terms it was built from.",
 ["histories"],"all sequences of evaluations at any parameter values, for the methods Laplace (orders 1 and 2), AGQ, SR and IS",
 "Tests evaluate each function at one or two points in one order; state left by an earlier evaluation only shows for particular sequences.",
 ["R/loglikelihood.R","R/IS.R","R/laplace.R","src/ClusterGraph.cpp","src/GLMMBelief.cpp"],
 [("graph copied for each evaluation","src/ClusterGraph.cpp computeLogNormalizingConstant"),("samples drawn once per function","R/IS.R find_lfun_IS"),("parameters written before each evaluation","R/loglikelihood.R find_lfun_SR")],
 ["the function returned by find_lfun_glmm"])
p("C10","Every observation enters exactly one local term, with its own data",
 "For every model frame, the local terms together contain each observation exactly once, each with its own response (coded 0/1 when it is a factor), weight, fixed-effect row and random-effect columns, and each local term lists every random effect its observations involve. There is exactly one standard normal term per random effect, and each stored entry of the random-effects factor is tied to its own variance parameter. Hence the product of the local terms is the full integrand whatever the order of observations or groups.",
 ["inputs"],"all model frames: any nesting or crossing of groups, correlated random effects, any order of observations, weights, numeric, logical and factor responses",
 "Tests compare likelihoods on a few balanced data sets; dropping, duplicating or mismatching one observation depends on the grouping structure and order.",
 ["R/splitframe.R","src/MixedContinuousBeliefVector.cpp"],
 [("active random effects of each observation","R/splitframe.R find_active"),("allocation of observations to cliques","R/splitframe.R add_obs, add_obs_C"),("restriction of the model frame","R/splitframe.R find_local_term"),("terms passed on","R/splitframe.R find_factorization_terms")],
 ["find_active, add_obs, find_local_term, find_factorization_terms"])
p("C11","Subformula terms contribute the written linear combination of designs",
 "For every expression that combines a substituted variable by indexing, addition, subtraction and multiplication or division by numbers, the resulting model frame has, for each observation, the same linear combination of the rows of the subformula's fixed-effect and random-effect designs. Frames from the formula and all subformulas are joined without loss: fixed columns side by side, random effects block by block, each random effect keeping its own variance parameter, bound and group. Expressions that are not linear in the substituted variable are rejected.",
 ["programs","inputs"],"all subformulas and substitution expressions, all data sets and index orders",
 "Expressions form an unbounded language; tests evaluate three pairwise-comparison expressions.",
 ["R/model_frames.R","R/subformula.R","R/modify_subexpr.R"],
 [("frame arithmetic","R/model_frames.R [fr, +fr, -fr, *fr, /fr"),("joining frames","R/model_frames.R concatenate_frames, concatenate_Matrix, attach_subframes"),("rewriting of expressions","R/modify_subexpr.R"),("splitting formulas and matching subformulas","R/subformula.R")],
 ["find_modfr_glmm and the frame operators"])
p("C12","Indexing of substituted variables is exact and independent of coding",
 "Several indices of a substituted variable are flattened by a one-to-one map onto 1..N in the order in which the index grid is laid out, for every number of indices and levels. The levels used for an index are exactly those of the indexing variables and are found separately for each position. Indexing by a factor gives the same model as indexing by its integer codes, and inconsistent dimensions, unknown index variables and factors with differing levels are rejected.",
 ["inputs"],"all numbers of indices and levels, all data sets, index codings and names",
 "A collision or shift in the flattening only appears for particular combinations of sizes; tests use two or three small cases.",
 ["R/indexing.R","R/modify_subexpr.R","R/subformula.R"],
 [("flattening of multiple indices","R/indexing.R multi_to_flat, flatten_vars"),("finding index levels","R/indexing.R find_indices_subform, find_index_i"),("dimension checks","R/indexing.R find_dim_sub, R/utility.R find_dim_in_dir")],
 ["multi_to_flat, find_indices_subform, find_modfr_glmm"])
p("C13","Options are honoured, completed with defaults, and invalid requests rejected",
 "For every method the control list used is the documented defaults overridden by exactly the values the user gave, with the number of quadrature points for sequential reduction always 2^(level+1)-1; unknown names and names not used by the method give a warning. Missing or unknown methods, unsupported families, links or Laplace orders, non-integer weights and parameter vectors of the wrong length give an error. The quality check of the Laplace approximation runs only for the first-order Laplace method and only when requested.",
 ["configurations","inputs"],"all methods, control lists, families, links, weights and parameter lengths",
 "Combinations of options are many and tests exercise a few, mostly valid, ones.",
 ["R/control.R","R/utility.R","R/laplace.R","R/loglikelihood.R","R/fit.R","src/Link.cpp","src/FamilyGivenMean.cpp"],
 [("defaults and warnings","R/control.R find_control_with_defaults"),("validity checks","R/utility.R check_weights, check_modfr_SR; R/laplace.R check_if_order_implemented"),("length and complexity checks","R/loglikelihood.R find_lfun_SR")],
 ["find_control_with_defaults, check_weights, check_modfr_SR, find_lfun_glmm"])
p("C14","Importance sampling averages exact weights under one fixed set of draws",
 "For every model and parameter value, the importance sampling log-likelihood is the log of the average, over a set of draws fixed when the function is created, of the integrand over the density of the Laplace Gaussian approximation, both evaluated at the same random effects. Draws are mapped to that Gaussian: standard normal draws give samples with exactly its mean and precision. The average is computed without overflow or underflow for any size of the log weights.",
 ["inputs"],"all models, parameter values, numbers of draws and sizes of the log weights",
 "The result is random and compared with a loose tolerance, so a wrong covariance or normalizing term can go unnoticed.",
 ["R/IS.R","R/loglikelihood.R"],
 [("mapping of draws","R/IS.R transform_normal"),("log integrand","R/IS.R find_log_integrand, find_eta, find_XBeta, find_LambdatThetaZt"),("log weights and their average","R/IS.R find_log_weights, find_lfun_IS")],
 ["find_lfun_glmm with method IS"])
p("C15","Laplace approximations: first order, second-order correction and divergence",
 "For every model and parameter value, the first-order Laplace log-likelihood is minus half the first-order deviance, and the second-order one adds -K4/8 + (2*K23 + 3*K13)/24, where K4, K23 and K13 are the standard sums of third and fourth derivatives of minus the log-density at the mode against the inverse Hessian. The divergence is half the quadratic form of the gradient of that correction in the estimated covariance. The Gaussian approximation used has the mode of the integrand as mean and minus its expected Hessian there (its Hessian, for the canonical link) as precision.",
 ["inputs"],"all models with a supported family and link, all parameter values, weights and response codings",
 "Tests compare a handful of values on two data sets, mostly with one random effect per cluster, where several wrong formulas coincide.",
 ["R/laplace.R","R/hol.R","R/loglikelihood.R"],
 [("second-order correction","R/laplace.R and R/hol.R"),("divergence","find_laplace_divergence"),("Gaussian approximation","R/loglikelihood.R compute_normal_approx")],
 ["find_lfun_glmm with method Laplace, glmm with check_Laplace"])
p("C16","Reported estimates and variances come from the maximised log-likelihood",
 "For every log-likelihood function, the reported estimate is the point the optimiser found, shifted back to the original scale, starting from the previous fit when one is given, never outside the bound of 5 on the absolute variance parameters, and the reported covariance is the inverse of the negative Hessian of the log-likelihood there. Coefficients, standard errors, z values and p-values are those of that estimate and covariance, each under its own parameter's name, random-effect parameters first, for any number of fixed effects including none. Standard deviations are reported as non-negative.",
 ["inputs"],"all log-likelihood functions, numbers of fixed and random effects (including zero fixed effects) and previous fits",
 "Tests fit a few models with fixed effects and compare a few digits; shifts of names, missing factors of two and empty fixed effects are not covered.",
 ["R/optimization.R","R/fit.R","R/glmmFit.R"],
 [("optimisation on a shifted scale","R/optimization.R"),("reflection of variance parameters","R/fit.R"),("summaries and accessors","R/glmmFit.R")],
 ["glmm, optimize_glmm, coef, vcov, summary"])
p("C17","The compiled core never reads or writes out of bounds or overflows an index",
 "For every model that the R interface accepts, building the terms, the clusters and the sparse grids and evaluating the log-likelihood never accesses an element outside a vector or matrix, never uses an uninitialised or dangling value, and never overflows integer index or count arithmetic. Structurally invalid requests (an effect that is not there, an unknown position) raise an error rather than silently using another element.",
 ["inputs"],"all model structures, including correlated random effects and models without fixed effects, levels of storage from 0 up, extreme finite parameter values",
 "An out-of-bounds read usually returns a plausible number, so tests pass; which sizes trigger it depends on the structure.",
 ["src/subsetEigen.cpp","src/matrixHelper.cpp","src/itemsHelper.cpp","src/GLMMBelief.cpp","src/BasisLevel.cpp","src/Point.cpp","src/counting.cpp","src/Graph.cpp","src/ClusterGraph.cpp"],
 [("index arithmetic","src/subsetEigen.cpp, src/matrixHelper.cpp, src/Point.cpp, src/counting.cpp"),("knots and intervals","src/BasisLevel.cpp"),("lookup of positions","src/itemsHelper.cpp findRelativeItem, src/Graph.cpp")],
 ["every function of the compiled core"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
