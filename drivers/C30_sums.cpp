// C30: parallel loops that accumulate sums (C30.cpp explains the method)
#include <array>
#include <cassert>
#include <complex>
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/models/hubbard_real_space/basis.hpp"
#include "ieompp/models/hubbard_real_space/site_occupation.hpp"
#include "ieompp/types/dot_product.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump/1d.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump/2d.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump_no.hpp"

#include "vc.hpp"

using namespace ieompp;
namespace rs = models::hubbard_real_space;
using Chain = lattices::PeriodicChain<double, uint64_t>;
using Op = algebra::Operator<uint64_t, bool>;
using Mon = algebra::Monomial<Op>;
using OpS = algebra::Operator<uint32_t, bool>;
using MonS = algebra::Monomial<OpS>;
using Cplx = std::complex<double>;
using Values = std::vector<Cplx>;

#define SAME "the result does not depend on the number of threads and the schedule"

namespace ieompp { namespace models { namespace hubbard_real_space {
    // contract: N creators of the sites, then the products at N + N^2 i + N j + k (C13)
    template <typename M>
    struct AnyBasis : std::vector<M> {
        using Monomial = M;
        using BasisIndex = typename std::vector<M>::size_type;
        BasisIndex N = 0, N_squared = 0;
        BasisIndex get_3op_index(BasisIndex i1, BasisIndex i2, BasisIndex i3) const { return N + N_squared * i1 + N * i2 + i3; }
    };
    template <>
    struct Basis3Operator<Mon> : AnyBasis<Mon> {
    };
    template <>
    struct Basis3Operator<MonS> : AnyBasis<MonS> {
    };
    // contract: some function of the two products (C18)
    using AnySum = SiteOccupation<double, Basis3Operator<MonS>>;
    template <>
    double AnySum::expectation_value_1_1(const MonS& a, const MonS& b) const { return expectation_value_function(a[0], b[0]); }
    template <>
    double AnySum::expectation_value_1_3(const MonS& a, const MonS& b) const { return expectation_value_function(a[0], b[0]); }
    template <>
    double AnySum::expectation_value_3_1(const MonS& a, const MonS& b) const { return expectation_value_function(a[0], b[0]); }
    template <>
    double AnySum::expectation_value_3_3(const MonS& a, const MonS& b) const { return expectation_value_function(a[0], b[0]); }
}}}
using Basis1 = rs::Basis1Operator<Mon>;
using Basis3 = rs::Basis3Operator<Mon>;
using Basis3S = rs::Basis3Operator<MonS>;

// every operator carries the position of its product in the basis
static Basis3S numbered(uint64_t n, uint64_t m)
{
    Basis3S b;
    b.N = n;
    b.N_squared = n * n;
    for(uint64_t i = 0; i < n; ++i) b.push_back(MonS{{{true, uint32_t(i), true}}});
    for(uint64_t i = 0; i < m; ++i) b.push_back(MonS{{{true, uint32_t(n + i), true}, {true, uint32_t(n + i), false}, {false, uint32_t(n + i), false}}});
    return b;
}
// real coefficients: the sums are real whatever the expectation values are
static Values reals(uint64_t n)
{
    const auto w = vc_seq_n<double>("v", n);
    Values v;
    for(uint64_t i = 0; i < n; ++i) v.push_back(Cplx(w[i], 0.));
    return v;
}
template <bool shortcut>
static void occupation()
{
    const uint64_t n = vc_u64("n"), m = vc_u64("m");
    vc_assume(n <= 100000 && m <= 1000000000 && vc_small(n, 6) && vc_small(m, 8));
    const auto v = reals(n + m);
    const auto value = vc_fun<double(uint64_t, uint64_t)>("value");
    const Basis3S basis = numbered(n, m);
    const rs::AnySum s{[&](const OpS& a, const OpS& b) { return value(a.index1, b.index1); }, std::cref(basis), std::cref(basis), shortcut};
    vc_threads();
    const double x = s(v);
    vc_threads();
    vc_assert(vc_near(s(v), x), SAME);
}
VC_PROP(site_occupation) { occupation<false>(); }
VC_PROP(site_occupation_shortcut) { occupation<true>(); }
VC_PROP(site_occupation_one_operator)
{
    const uint64_t n = vc_u64("n");
    vc_assume(n >= 1 && n <= 1000000000 && vc_small(n, 20));
    const auto v = reals(n);
    const auto value = vc_fun<double(uint64_t, uint64_t)>("value");
    const Basis1 basis((Chain(n)));
    const Basis1 conjugate = basis.get_conjugate();
    const rs::SiteOccupation<double, Basis1> s{[&](const Op& a, const Op& b) { return value(a.index1, b.index1); }, std::cref(basis), std::cref(conjugate)};
    vc_threads();
    const double x = s(v);
    vc_threads();
    vc_assert(vc_near(s(v), x), SAME);
}

static Basis3 creators(uint64_t n)
{
    Basis3 b;
    b.N = n;
    b.N_squared = n * n;
    for(uint64_t i = 0; i < n; ++i) b.push_back(Mon{{{true, i, true}}});
    return b;
}
struct Line {
    using Vector = double;
    std::vector<double> x;
    uint64_t size() const { return x.size(); }
    double operator[](uint64_t i) const { return x[i]; }
};
struct Plane {
    using Vector = blaze::StaticVector<double, 2ul, blaze::columnVector>;
    std::vector<double> x, y;
    uint64_t size() const { return x.size(); }
    Vector operator[](uint64_t i) const { return Vector(x[i], y[i]); }
};
static Values values(uint64_t n, const char* name)
{
    const Values h = vc_seq_n<Cplx>(name, n);
    vc_assume(vc_forall(n, [&](uint64_t i) { return vc_small(std::abs(h[i].real()) > 1000. || std::abs(h[i].imag()) > 1000., 0); }));
    return h;
}
#define ENV(size)                                                                                    \
    const uint64_t n = vc_u64("n");                                                                  \
    vc_assume(n <= 100000 && vc_small(n, size));                                                     \
    const double k = vc_real("k");                                                                   \
    const auto g = vc_fun<double(uint64_t, uint64_t)>("g");                                          \
    vc_assume(vc_small(k > 1000. || k < -1000., 0));                                                 \
    const auto ev = [&](const Op& a, const Op& b) { return g(a.index1, b.index1); };
#define BOTH(type, args, call, coeff)                                                                \
    vc_threads();                                                                                    \
    type f args;                                                                                     \
    vc_threads();                                                                                    \
    type f2 args;                                                                                    \
    vc_assert(vc_forall(n, [&](uint64_t i) { return vc_near(f.coeff(i), f2.coeff(i)); }), SAME);     \
    vc_threads();                                                                                    \
    const double r = f call;                                                                         \
    vc_threads();                                                                                    \
    vc_assert(vc_near(f call, r), SAME);
VC_PROP(jump_one_operator)
{
    ENV(20)
    const Line l{vc_seq_n<double>("x", n)};
    const Basis1 basis((Chain(1)));
    const Values h = values(n, "h");
    using F = rs::FermiJump1D<double, Basis1>;
    BOTH(const F, (l, ev, k), (basis, h), fourier_coefficient)
}
VC_PROP(jump_three_operator)
{
    ENV(4)
    const Line l{vc_seq_n<double>("x", n)};
    const Basis3 basis = creators(n);
    const Values h = values(n + n * n * n, "h");
    using F = rs::FermiJump1D<double, Basis3>;
    BOTH(F, (basis, l, ev, k), (h), fourier_coefficients().at)
}
VC_PROP(jump_plane)
{
    ENV(4)
    const Plane l{vc_seq_n<double>("x", n), vc_seq_n<double>("y", n)};
    const double ky = vc_real("ky");
    const Basis3 basis = creators(n);
    const Values h = values(n + n * n * n, "h");
    using F = rs::FermiJump2D<double, Basis3>;
    BOTH(F, (basis, l, ev, Plane::Vector(k, ky)), (h), fourier_coefficients().at)
}
template <typename F>
static void normal_ordered()
{
    ENV(20)
    const Line l{vc_seq_n<double>("x", n)};
    const Values h = values(n, "h");
    BOTH(F, (l, ev), (h), fourier_coefficient)
}
VC_PROP(jump_normal_ordered_1) { normal_ordered<rs::FermiJump1D_NO<double, Basis1>>(); }
VC_PROP(jump_normal_ordered_3) { normal_ordered<rs::FermiJump1D_NO<double, Basis3>>(); }
