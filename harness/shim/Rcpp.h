// Build shim: the core sources include Rcpp.h only for Eigen.
#ifndef VERIF_RCPP_SHIM
#define VERIF_RCPP_SHIM
#include "RcppEigen.h"
#endif
