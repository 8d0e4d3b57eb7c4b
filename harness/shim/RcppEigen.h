// Build shim for the verification harness: the C++ core of glmmsr only needs Eigen.
#ifndef VERIF_RCPPEIGEN_SHIM
#define VERIF_RCPPEIGEN_SHIM
#include <iostream>
#include <Eigen/Dense>
#include <Eigen/Sparse>
#endif
