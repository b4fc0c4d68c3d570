// C30: parallel loop of the matrix vector product with Eigen vectors (C30.cpp explains the method)
#include <cassert>
#include <cmath>
#include <complex>
#include <limits>
#include <type_traits>
#include "ieompp/types/number.hpp"
#include "ieompp/types/function_matrix.hpp"
#include "ieompp/types/eigen/multiply_assign.hpp"

#include "vc.hpp"

using namespace ieompp;
template <typename T>
using Vec = Eigen::Matrix<T, Eigen::Dynamic, 1>;

template <typename T>
static void eigen_product()
{
    const uint64_t n = vc_u64("n");
    vc_assume(n < (uint64_t(1) << 60) && vc_small(n, 20)); // what a vector can hold
    const auto entry = vc_fun<T(uint64_t, uint64_t)>("M");
    const auto u0    = vc_fun<T(uint64_t)>("u");
    const types::FunctionMatrix<T, uint64_t> m(n, n, entry);
    Vec<T> u(n);
    for(uint64_t i = 0; i < n; ++i) {
        u[i] = u0(i);
    }
    auto v = u;
    vc_threads();
    types::multiply_assign(m, u);
    vc_threads();
    types::multiply_assign(m, v);
    vc_assert(u.size() == v.size() && vc_forall(n, [&](uint64_t i) { return vc_near(u[i], v[i]); }), "the result does not depend on the number of threads and the schedule");
}
VC_PROP(eigen_product_real) { eigen_product<double>(); }
VC_PROP(eigen_product_complex) { eigen_product<std::complex<double>>(); }
