// Build-speed aid only: the three dispatch sources of the library instantiate
// the same huge matrices; they are instantiated once here, in sources of their
// own, so that the build parallelises.  (See bin/vlib.py build_lib.)
#pragma once
#include "fcl/narrowphase/collision.h"
#include "fcl/narrowphase/distance.h"
#include "fcl/narrowphase/detail/collision_func_matrix.h"
#include "fcl/narrowphase/detail/distance_func_matrix.h"
#include "fcl/narrowphase/detail/conservative_advancement_func_matrix.h"
#include "fcl/narrowphase/detail/gjk_solver_indep.h"
#include "fcl/narrowphase/detail/gjk_solver_libccd.h"
#ifndef FCLV_EXTERN
#define FCLV_EXTERN extern
#endif
namespace fcl { namespace detail {
#ifndef FCLV_MAT
FCLV_EXTERN template struct CollisionFunctionMatrix<GJKSolver_libccd<double>>;
FCLV_EXTERN template struct CollisionFunctionMatrix<GJKSolver_indep<double>>;
FCLV_EXTERN template struct DistanceFunctionMatrix<GJKSolver_libccd<double>>;
FCLV_EXTERN template struct DistanceFunctionMatrix<GJKSolver_indep<double>>;
FCLV_EXTERN template struct ConservativeAdvancementFunctionMatrix<GJKSolver_libccd<double>>;
FCLV_EXTERN template struct ConservativeAdvancementFunctionMatrix<GJKSolver_indep<double>>;
#else
template struct FCLV_MAT;
#endif
} }
