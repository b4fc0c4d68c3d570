// C24: one Runge-Kutta step is the fourth-order Taylor propagator
//
// Vectors are blaze::DynamicVector with the elementwise meaning of its operators (stubs/blaze);
// the earlier contents of the integrator's function-local buffers are arbitrary.
#include <cassert>
#include <cmath>
#include <complex>
#include <limits>
#include <type_traits>
#include "ieompp/types/number.hpp"
#include "ieompp/types/function_matrix.hpp"
#include "ieompp/types/blaze/traits.hpp"
#include "ieompp/types/blaze/multiply_assign.hpp"
#include "ieompp/ode/rk4.hpp"

#include "vc.hpp"

using namespace ieompp;
using C  = std::complex<double>;
using FM = types::FunctionMatrix<double, uint64_t>;
template <typename T>
using Vec = blaze::DynamicVector<T, blaze::columnVector>;

// a stored square matrix with the meaning of the matrix vector product
template <typename T>
struct Stored {
    uint64_t n;
    std::function<T(uint64_t, uint64_t)> entry;
};
namespace ieompp
{
    namespace types
    {
        template <typename T>
        struct IsMatrix<Stored<T>> {
            static constexpr bool value = true;
        };
        template <typename T>
        struct IndexType<Stored<T>> {
            using Type = uint64_t;
        };
        template <typename T>
        struct ScalarType<Stored<T>> {
            using Type = T;
        };
        template <typename T>
        struct MatrixDimensionInfo<Stored<T>> {
            static uint64_t rows(const Stored<T>& m) { return m.n; }
            static uint64_t columns(const Stored<T>& m) { return m.n; }
        };
    } // namespace types
} // namespace ieompp
template <typename T>
static Vec<T> operator*(const Stored<T>& m, const Vec<T>& u)
{
    assert(m.n == u.size());
    Vec<T> r(m.n);
    for(uint64_t i = 0; i < m.n; ++i) {
        r[i] = vc_sum(m.n, [&](uint64_t j) { return m.entry(i, j) * u[j]; });
    }
    return r;
}

template <typename T, typename Matrix, typename Make>
static void check(Make make)
{
    const uint64_t n = vc_u64("n");
    vc_assume(n >= 1 && vc_small(n, 4));
    const double h   = vc_real("h");
    vc_assume(vc_small(h > 2. || h < -2., 0));
    vc_threads();
    const auto entry = vc_fun<T(uint64_t, uint64_t)>("M");
    const auto u0    = vc_fun<T(uint64_t)>("u");
    Matrix m         = make(n, entry);
    Vec<T> u(n);
    for(uint64_t i = 0; i < n; ++i) {
        u[i] = u0(i);
    }
    const ode::RK4<double> integrator(n, h);
    vc_assert(integrator.dimension() == n && integrator.step_size() == h, "the integrator keeps dimension and step size");
    integrator.step(m, u);
    vc_assert(u.size() == n, "the step keeps the dimension");
    const auto m1 = [&](uint64_t i) { return vc_sum(n, [&](uint64_t j) { return entry(i, j) * u0(j); }); };
    const auto m2 = [&](uint64_t i) { return vc_sum(n, [&](uint64_t j) { return entry(i, j) * m1(j); }); };
    const auto m3 = [&](uint64_t i) { return vc_sum(n, [&](uint64_t j) { return entry(i, j) * m2(j); }); };
    const auto m4 = [&](uint64_t i) { return vc_sum(n, [&](uint64_t j) { return entry(i, j) * m3(j); }); };
    vc_assert(vc_forall(n, [&](uint64_t i) { return vc_near(u[i], u0(i) + h * m1(i) + (h * h / 2.) * m2(i) + (h * h * h / 6.) * m3(i) + (h * h * h * h / 24.) * m4(i)); }), "one step multiplies by 1 + hM + (hM)^2/2 + (hM)^3/6 + (hM)^4/24");
}
VC_PROP(stored_real)
{
    check<double, Stored<double>>([](uint64_t n, std::function<double(uint64_t, uint64_t)> f) { return Stored<double>{n, f}; });
}
VC_PROP(stored_complex)
{
    check<C, Stored<C>>([](uint64_t n, std::function<C(uint64_t, uint64_t)> f) { return Stored<C>{n, f}; });
}
VC_PROP(function_real)
{
    check<double, FM>([](uint64_t n, std::function<double(uint64_t, uint64_t)> f) { return FM(n, n, f); });
}
VC_PROP(function_complex)
{
    check<C, types::FunctionMatrix<C, uint64_t>>([](uint64_t n, std::function<C(uint64_t, uint64_t)> f) { return types::FunctionMatrix<C, uint64_t>(n, n, f); });
}

template <typename T>
static void product()
{
    const uint64_t n = vc_u64("n");
    vc_assume(vc_small(n, 4));
    const auto entry = vc_fun<T(uint64_t, uint64_t)>("M");
    const auto u0    = vc_fun<T(uint64_t)>("u");
    vc_threads();
    const types::FunctionMatrix<T, uint64_t> m(n, n, entry);
    Vec<T> u(n);
    for(uint64_t i = 0; i < n; ++i) {
        u[i] = u0(i);
    }
    types::multiply_assign(m, u);
    vc_assert(u.size() == n, "the product keeps the dimension");
    vc_assert(vc_forall(n, [&](uint64_t i) { return vc_near(u[i], vc_sum(n, [&](uint64_t j) { return entry(i, j) * u0(j); })); }), "multiply_assign replaces the vector by the matrix vector product");
}
VC_PROP(product_real) { product<double>(); }
VC_PROP(product_complex) { product<C>(); }
