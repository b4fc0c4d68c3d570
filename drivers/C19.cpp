// C19: Fermi jump.  The evaluators are checked for lattices with arbitrary positions and bases of any
// size; a basis of three-operator products is given by its contract (C13).
#include <array>
#include <cassert>
#include <complex>
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/models/hubbard_real_space/basis.hpp"
#include "ieompp/types/dot_product.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump/1d.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump/2d.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump_no.hpp"

#include "vc.hpp"

using namespace ieompp;
namespace rs = models::hubbard_real_space;
using Op = algebra::Operator<uint64_t, bool>;
using Mon = algebra::Monomial<Op>;
using Cplx = std::complex<double>;
using Values = std::vector<Cplx>;

namespace ieompp { namespace models { namespace hubbard_real_space {
    // contract: N creators of the sites, then the products at N + N^2 i + N j + k (C13)
    template <>
    struct Basis3Operator<Mon> : std::vector<Mon> {
        using Monomial = Mon;
        using BasisIndex = std::vector<Mon>::size_type;
        BasisIndex N = 0, N_squared = 0;
        BasisIndex get_3op_index(BasisIndex i1, BasisIndex i2, BasisIndex i3) const { return N + N_squared * i1 + N * i2 + i3; }
    };
}}}
using Basis1 = rs::Basis1Operator<Mon>;
using Basis3 = rs::Basis3Operator<Mon>;

static Basis3 basis3(uint64_t n)
{
    Basis3 b;
    b.N = n;
    b.N_squared = n * n;
    for(uint64_t i = 0; i < n; ++i) b.push_back(Mon{{{true, i, true}}});
    return b;
}
// a lattice with arbitrary positions
struct Line {
    using Vector = double;
    std::vector<double> x;
    uint64_t size() const { return x.size(); }
    double operator[](uint64_t i) const { return x[i]; }
};
struct Plane {
    using Vector = blaze::StaticVector<double, 2ul, blaze::columnVector>;
    std::vector<double> x, y;
    uint64_t size() const { return x.size(); }
    Vector operator[](uint64_t i) const { return Vector(x[i], y[i]); }
};
static Line line(uint64_t n, const char* name)
{
    return Line{vc_seq_n<double>(name, n)};
}
// coefficients of moderate size (concrete runs: limits rounding errors)
static Values values(uint64_t n, const char* name)
{
    const Values h = vc_seq_n<Cplx>(name, n);
    vc_assume(vc_forall(n, [&](uint64_t i) { return vc_small(std::abs(h[i].real()) > 1000. || std::abs(h[i].imag()) > 1000., 0); }));
    return h;
}
// |sum_i exp(i phase(i)) (re(i) + i im(i))|^2
template <typename Phase, typename Re, typename Im>
static double jump(uint64_t n, Phase p, Re re, Im im)
{
    const double x = vc_sum(n, [&](uint64_t i) { return vc_cos(p(i)) * re(i) - vc_sin(p(i)) * im(i); });
    const double y = vc_sum(n, [&](uint64_t i) { return vc_cos(p(i)) * im(i) + vc_sin(p(i)) * re(i); });
    return x * x + y * y;
}
static bool is_phase(const Cplx& c, double p) { return vc_near(c.real(), vc_cos(p)) && vc_near(c.imag(), vc_sin(p)); }

#define ENV                                                                                          \
    vc_threads();                                                                                    \
    const uint64_t n = vc_u64("n");                                                                  \
    vc_assume(n <= 100000 && vc_small(n, 3));                                                        \
    const double k = vc_real("k");                                                                   \
    const auto g = vc_fun<double(uint64_t, uint64_t)>("g");                                          \
    vc_assume(vc_small(k > 1000. || k < -1000., 0));                                                 \
    const auto ev = [&](const Op& a, const Op& b) { return g(a.index1, b.index1); };

VC_PROP(one_operator)
{
    ENV
    const Line l = line(n, "x");
    const rs::FermiJump1D<double, Basis1> f(l, ev, k);
    const auto phase = [&](uint64_t i) { return k * l[i]; };
    vc_assert(vc_forall(n, [&](uint64_t i) { return is_phase(f.fourier_coefficient(i), phase(i)); }), "the Fourier coefficients are exp(i k_F r_i)");
    const Basis1 basis((lattices::PeriodicChain<double, uint64_t>(1)));
    const Values h = values(n, "h");
    const double r = f(basis, h);
    vc_assert(vc_near(r, jump(n, phase, [&](uint64_t i) { return h[i].real(); }, [&](uint64_t i) { return h[i].imag(); })), "the jump is |sum_i exp(i k_F r_i) h_i|^2");
    vc_assert(r >= 0, "the jump is not negative");
}
VC_PROP(one_operator_expectation)
{
    ENV
    const Line l = line(n, "x");
    rs::FermiJump1D<double, Basis1> f(l, ev, k);
    const uint64_t i = vc_u64("i"), j = vc_u64("j");
    vc_assert(f.expectation_value(Op{true, i, true}, Op{false, j, true}) == g(i, j), "the expectation value is the given one");
}
#define HNO(part)                                                                                                                          \
    [&](uint64_t i) {                                                                                                                      \
        return h[i].part() + vc_sum(n, [&](uint64_t j) {                                                                                   \
            return vc_sum(n, [&](uint64_t m) { return (2 * g(j, m) - (j == m ? 1. : 0.)) * h[n + n * n * i + n * j + m].part(); });          \
        });                                                                                                                                \
    }
VC_PROP(three_operator)
{
    ENV
    const Line l = line(n, "x");
    const Basis3 basis = basis3(n);
    rs::FermiJump1D<double, Basis3> f(basis, l, ev, k);
    const auto phase = [&](uint64_t i) { return k * l[i]; };
    vc_assert(f.fourier_coefficients().size() == n, "there is one Fourier coefficient per site");
    vc_assert(vc_forall(n, [&](uint64_t i) { return is_phase(f.fourier_coefficients()[i], phase(i)); }), "the Fourier coefficients are exp(i k_F r_i)");
    const Values h = values(n + n * n * n, "h");
    const double r = f(h);
    vc_assert(vc_near(r, jump(n, phase, HNO(real), HNO(imag))), "the jump is the squared norm of the normal-ordered Fourier sum");
    vc_assert(r >= 0, "the jump is not negative");
}
VC_PROP(plane)
{
    ENV
    const Plane l{vc_seq_n<double>("x", n), vc_seq_n<double>("y", n)};
    const double ky = vc_real("ky");
    const Basis3 basis = basis3(n);
    rs::FermiJump2D<double, Basis3> f(basis, l, ev, Plane::Vector(k, ky));
    const auto phase = [&](uint64_t i) { return k * l.x[i] + ky * l.y[i]; };
    vc_assert(f.fourier_coefficients().size() == n, "there is one Fourier coefficient per site");
    vc_assert(vc_forall(n, [&](uint64_t i) { return is_phase(f.fourier_coefficients()[i], phase(i)); }), "the Fourier coefficients are exp(i k_F r_i)");
    const Values h = values(n + n * n * n, "h");
    const double r = f(h);
    vc_assert(vc_near(r, jump(n, phase, HNO(real), HNO(imag))), "the jump is the squared norm of the normal-ordered Fourier sum");
    vc_assert(r >= 0, "the jump is not negative");
}
// coefficients of normal-ordered operators, half filling
template <typename Basis>
static void normal_ordered()
{
    ENV
    const Line l = line(n, "x");
    rs::FermiJump1D_NO<double, Basis> f(l, ev);
    const auto phase = [&](uint64_t i) { return vc_pi() / 2 * l[i]; };
    vc_assert(vc_forall(n, [&](uint64_t i) { return is_phase(f.fourier_coefficient(i), phase(i)); }), "the Fourier coefficients are exp(i k_F r_i)");
    const Values h = values(n, "h");
    const double r = f(h);
    vc_assert(vc_near(r, jump(n, phase, [&](uint64_t i) { return h[i].real(); }, [&](uint64_t i) { return h[i].imag(); })), "the jump is |sum_i exp(i k_F r_i) h_i|^2");
    vc_assert(r >= 0, "the jump is not negative");
    const uint64_t i = vc_u64("i"), j = vc_u64("j");
    vc_assert(f.expectation_value(Op{true, i, true}, Op{false, j, true}) == g(i, j), "the expectation value is the given one");
}
VC_PROP(normal_ordered_1) { normal_ordered<Basis1>(); }
VC_PROP(normal_ordered_3) { normal_ordered<Basis3>(); }
// evaluators of different sizes used one after the other do not disturb each other
VC_PROP(history)
{
    ENV
    const uint64_t n2 = vc_u64("n2");
    vc_assume(n2 <= 100000 && vc_small(n2, 3));
    const Line l = line(n, "x"), l2 = line(n2, "x2");
    const Basis3 basis = basis3(n), basis2 = basis3(n2);
    const rs::FermiJump1D<double, Basis3> f(basis, l, ev, k), f2(basis2, l2, ev, k);
    const Values h = values(n + n * n * n, "h"), h2 = values(n2 + n2 * n2 * n2, "h2");
    const double r = f(h);
    f2(h2);
    vc_assert(vc_near(f(h), r), "the jump does not depend on other evaluators");
    const Basis1 any((lattices::PeriodicChain<double, uint64_t>(1)));
    const rs::FermiJump1D<double, Basis1> e(l, ev, k), e2(l2, ev, k);
    const double s = e(any, h);
    e2(any, h2);
    vc_assert(vc_near(e(any, h), s), "the jump does not depend on other evaluators");
    const rs::FermiJump1D_NO<double, Basis3> d(l, ev), d2(l2, ev);
    const double t = d(h);
    d2(h2);
    vc_assert(vc_near(d(h), t), "the jump does not depend on other evaluators");
}
