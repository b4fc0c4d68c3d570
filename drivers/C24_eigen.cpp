// C24: matrix vector products with Eigen vectors (C24.cpp: Blaze vectors, Runge-Kutta steps)
//
// The verifier reads stubs/eigen in place of Eigen; the executables use the installed library.
#include <cassert>
#include <cmath>
#include <complex>
#include <limits>
#include <type_traits>
#include "ieompp/types/number.hpp"
#include "ieompp/types/function_matrix.hpp"
#include "ieompp/types/eigen/multiply_assign.hpp"

#include "vc.hpp"

using namespace ieompp;
using C = std::complex<double>;
template <typename T>
using Vec = Eigen::Matrix<T, Eigen::Dynamic, 1>;

template <typename T>
static void eigen_product()
{
    const uint64_t n = vc_u64("n");
    vc_assume(n < (uint64_t(1) << 60) && vc_small(n, 4)); // what a vector can hold
    const auto entry = vc_fun<T(uint64_t, uint64_t)>("M");
    const auto u0    = vc_fun<T(uint64_t)>("u");
    vc_threads();
    const types::FunctionMatrix<T, uint64_t> m(n, n, entry);
    Vec<T> u(n);
    for(uint64_t i = 0; i < n; ++i) {
        u[i] = u0(i);
    }
    types::multiply_assign(m, u);
    vc_assert(uint64_t(u.size()) == n, "the product keeps the dimension");
    vc_assert(vc_forall(n, [&](uint64_t i) { return vc_near(u[i], vc_sum(n, [&](uint64_t j) { return entry(i, j) * u0(j); })); }), "multiply_assign replaces the vector by the matrix vector product");
}
VC_PROP(eigen_product_real) { eigen_product<double>(); }
VC_PROP(eigen_product_complex) { eigen_product<C>(); }
