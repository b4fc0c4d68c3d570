// C30: parallel loops: tables and bases (C30_sums.cpp: sums, C30_eigen.cpp: Eigen vectors)
//
// Iterations of a parallel loop must not conflict (obligations of kind 'race', generated for every
// parallel loop executed), and results must not depend on the number of threads or the schedule:
// every function is called twice, and between the calls vc_threads() chooses another number of
// threads and another assignment of iterations to them.  What the results are is not judged here.
#include <cassert>
#include <cmath>
#include <complex>
#include <limits>
#include <type_traits>
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/models/hubbard/dispersion.hpp"
#include "ieompp/models/hubbard_momentum_space/basis.hpp"
#include "ieompp/models/hubbard_real_space/basis.hpp"
#include "ieompp/models/hubbard_real_space/expectation_value.hpp"
#include "ieompp/types/function_matrix.hpp"
#include "ieompp/types/blaze/traits.hpp"
#include "ieompp/types/blaze/multiply_assign.hpp"

#include "vc.hpp"

using namespace ieompp;
namespace rs = models::hubbard_real_space;
namespace ms = models::hubbard_momentum_space;
using Chain = lattices::PeriodicChain<double, uint64_t>;
using Square = lattices::PeriodicSquareLattice<double, uint64_t>;
using Op = algebra::Operator<uint64_t, bool>;
using Mon = algebra::Monomial<Op>;
VC_REFLECT(Op, creator, index1, index2)

#define MAXN 1000000u
#define SAME "the result does not depend on the number of threads and the schedule"

// momenta and lattice vectors of any number and value
struct AnyZone {
    using Float = double;
    using SiteIndex = uint64_t;
    std::vector<double> k;
    uint64_t size() const { return k.size(); }
    double operator[](uint64_t i) const { return k[i]; }
};
struct AnyLattice {
    std::vector<double> v;
    const std::vector<double>& lattice_vectors() const { return v; }
};
VC_PROP(dispersion)
{
    const AnyZone z{vc_seq<double>("k")};
    const AnyLattice l{vc_seq<double>("v")};
    const double J = vc_real("J");
    vc_threads();
    const models::hubbard::Dispersion<double> a(z, l, J);
    vc_threads();
    const models::hubbard::Dispersion<double> b(z, l, J);
    vc_assert(vc_forall(z.size(), [&](uint64_t i) { return vc_near(a(i), b(i)); }), SAME);
}
VC_PROP(square_dispersion)
{
    const uint64_t nx = vc_u64("nx"), ny = vc_u64("ny");
    const double J = vc_real("J"), dx = vc_real("dx"), dy = vc_real("dy");
    vc_assume(0 < nx && nx <= 1000 && 0 < ny && ny <= 1000 && 0 < dx && 0 < dy && vc_small(nx, 10) && vc_small(ny, 10));
    const Square z(nx, ny), l(nx, ny, dx, dy);
    vc_threads();
    const models::hubbard::Dispersion<double> a(z, l, J);
    vc_threads();
    const models::hubbard::Dispersion<double> b(z, l, J);
    vc_assert(vc_forall(nx * ny, [&](uint64_t i) { return vc_near(a(i), b(i)); }), SAME);
}
template <typename B>
static void conjugate(const B& b)
{
    vc_threads();
    const B x = b.get_conjugate();
    vc_threads();
    const B y = b.get_conjugate();
    vc_assert(vc_same(x, y), SAME);
}
VC_PROP(one_operator_basis)
{
    const uint64_t n = vc_u64("n");
    vc_assume(0 < n && n <= MAXN && vc_small(n, 200));
    conjugate(rs::Basis1Operator<Mon>(Chain(n)));
}
VC_PROP(three_operator_basis)
{
    const uint64_t n = vc_u64("n");
    vc_assume(0 < n && n <= MAXN && vc_small(n, 6));
    conjugate(rs::Basis3Operator<Mon>(Chain(n)));
}
VC_PROP(momentum_basis)
{
    const uint64_t n = vc_u64("n"), q = vc_u64("q");
    vc_assume(0 < n && n <= MAXN && q < n && vc_small(n, 12));
    const ms::Basis3Operator<Mon> b(q, Chain(n));
    conjugate(b);
    ms::Basis3Operator<Mon> x(b), y(b);
    vc_threads();
    x.conjugate();
    vc_threads();
    y.conjugate();
    vc_assert(vc_same(x, y), SAME);
}
VC_PROP(expectation_values)
{
    const uint64_t n = vc_u64("n"), a = vc_u64("a"), b = vc_u64("b");
    const double dx = vc_real("dx"), filling = vc_real("filling"), kf = vc_real("kf");
    vc_assume(0 < n && n <= MAXN && a < n && b < n && 0 < dx && 0 <= filling && filling <= 1 && vc_small(n, 200));
    const Chain l(n, dx);
    vc_threads();
    const rs::ExpectationValue1DHalfFilled<double, Chain> v(l, filling, kf);
    vc_threads();
    const rs::ExpectationValue1DHalfFilled<double, Chain> w(l, filling, kf);
    vc_assert(vc_near(v(a, b), w(a, b)), SAME);
}
// any distances a lattice of this size can have (C10: they are the ring distances)
struct Distances : Square {
    uint64_t x, y;
    Distances(uint64_t nx, uint64_t ny, uint64_t dist_x, uint64_t dist_y) : Square(nx, ny, 1., 1.), x(dist_x), y(dist_y) {}
    uint64_t lattice_distance_x(const uint64_t&, const uint64_t&) const { return x; }
    uint64_t lattice_distance_y(const uint64_t&, const uint64_t&) const { return y; }
};
VC_PROP(plane_expectation_values)
{
    const uint64_t nx = vc_u64("nx"), ny = vc_u64("ny"), a = vc_u64("a"), b = vc_u64("b");
    vc_assume(0 < nx && nx <= 1000 && 0 < ny && ny <= 1000 && vc_small(nx, 30) && vc_small(ny, 30));
    const Distances l(nx, ny, vc_u64("x"), vc_u64("y"));
    vc_assume(a < nx * ny && b < nx * ny && l.x <= nx / 2 && l.y <= ny / 2);
    vc_threads();
    const rs::ExpectationValue2DHalfFilled<double, Distances> v(l);
    vc_threads();
    const rs::ExpectationValue2DHalfFilled<double, Distances> w(l);
    vc_assert(vc_near(v(a, b), w(a, b)), SAME);
}
template <typename T>
static void product()
{
    const uint64_t n = vc_u64("n");
    vc_assume(vc_small(n, 20));
    const auto entry = vc_fun<T(uint64_t, uint64_t)>("M");
    const auto u0    = vc_fun<T(uint64_t)>("u");
    const types::FunctionMatrix<T, uint64_t> m(n, n, entry);
    blaze::DynamicVector<T, blaze::columnVector> u(n);
    for(uint64_t i = 0; i < n; ++i) {
        u[i] = u0(i);
    }
    auto v = u;
    vc_threads();
    types::multiply_assign(m, u);
    vc_threads();
    types::multiply_assign(m, v);
    vc_assert(u.size() == v.size() && vc_forall(n, [&](uint64_t i) { return vc_near(u[i], v[i]); }), SAME);
}
VC_PROP(product_real) { product<double>(); }
VC_PROP(product_complex) { product<std::complex<double>>(); }
