// C18: real-space site occupation
//
// 1. The partial expectation values of products of operators at arbitrary sites are what Wick's
//    theorem gives for any two-point function.
// 2. operator() sums them over all pairs, with and without the inversion-symmetry shortcut: checked
//    for a basis of any size whose partial expectation values are an arbitrary function of the pair
//    (the partial expectation values are specialised for the operator type used there).
#include <cassert>
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/models/hubbard_real_space/basis.hpp"
#include "ieompp/models/hubbard_real_space/site_occupation.hpp"

#include "vc.hpp"

using namespace ieompp;
namespace rs = models::hubbard_real_space;
using Op = algebra::Operator<uint64_t, bool>;
using Mon = algebra::Monomial<Op>;
using Occ3 = rs::SiteOccupation<double, rs::Basis3Operator<Mon>>;
using Occ1 = rs::SiteOccupation<double, rs::Basis1Operator<Mon>>;

using Chain = lattices::PeriodicChain<double, uint64_t>;

// <c^+_i c_j>, for each spin
struct TwoPoint {
    std::function<double(bool, uint64_t, uint64_t)> g;
    double operator()(const Op& a, const Op& b) const
    {
        assert(a.creator && !b.creator && a.index2 == b.index2);
        const double r = g(a.index2, a.index1, b.index1);
        vc_assume(vc_small(r > 1000. || r < -1000., 0)); // concrete runs: keeps rounding errors small
        return r;
    }
};
struct Sites {
    uint64_t i, j, k;
    Mon product() const { return Mon{{{true, i, true}, {true, j, false}, {false, k, false}}}; }
    // the Hermitian conjugate
    Mon adjoint() const { return Mon{{{true, k, false}, {false, j, false}, {false, i, true}}}; }
};
static double delta(uint64_t i, uint64_t j) { return i == j ? 1. : 0.; }
static Occ3 occupation(const TwoPoint& t, const rs::Basis3Operator<Mon>& b) { return Occ3{t, std::cref(b), std::cref(b)}; }

#define ENV                                                                                                                                   \
    const TwoPoint t{vc_fun<double(bool, uint64_t, uint64_t)>("g")};                                                                          \
    const auto up = [&](uint64_t i, uint64_t j) { return t.g(true, i, j); };                                                                  \
    const auto down = [&](uint64_t i, uint64_t j) { return t.g(false, i, j); };                                                               \
    const Sites a{vc_u64("a.i"), vc_u64("a.j"), vc_u64("a.k")}, b{vc_u64("b.i"), vc_u64("b.j"), vc_u64("b.k")};                               \
    const Chain lattice(1);                                                                                                                   \
    const rs::Basis3Operator<Mon> basis(lattice);                                                                                             \
    const Occ3 o = occupation(t, basis);

VC_PROP(one_one)
{
    ENV
    const Mon x{{{true, a.i, true}}}, y{{{false, b.i, true}}};
    vc_assert(vc_near(o.expectation_value_1_1(x, y) / 2, up(a.i, b.i)), "<A_i A_j^+>");
    vc_assert(o.expectation_value(x, y) == o.expectation_value_1_1(x, y), "the sizes select the expectation value");
}
VC_PROP(one_operator_basis)
{
    ENV
    const Mon x{{{true, a.i, true}}}, y{{{false, b.i, true}}};
    const rs::Basis1Operator<Mon> basis1(lattice);
    const Occ1 o1{t, std::cref(basis1), std::cref(basis1)};
    vc_assert(vc_near(o1.expectation_value(x, y) / 2, up(a.i, b.i)), "<A_i A_j^+>");
}
VC_PROP(one_three)
{
    ENV
    const Mon x{{{true, a.i, true}}};
    // A_b^+ = (2 c^+_k c_j - delta_jk) c_i
    vc_assert(vc_near(o.expectation_value_1_3(x, b.adjoint()) / 2, up(a.i, b.i) * (2 * down(b.k, b.j) - delta(b.j, b.k))), "<A_i A_jkl^+>");
    vc_assert(o.expectation_value(x, b.adjoint()) == o.expectation_value_1_3(x, b.adjoint()), "the sizes select the expectation value");
}
VC_PROP(three_one)
{
    ENV
    const Mon y{{{false, b.i, true}}};
    vc_assert(vc_near(o.expectation_value_3_1(a.product(), y) / 2, up(a.i, b.i) * (2 * down(a.j, a.k) - delta(a.j, a.k))), "<A_ijk A_l^+>");
    vc_assert(o.expectation_value(a.product(), y) == o.expectation_value_3_1(a.product(), y), "the sizes select the expectation value");
}
VC_PROP(three_three)
{
    ENV
    // <c^+_aj c_ak c^+_bk c_bj> by Wick's theorem
    const double four = down(a.j, a.k) * down(b.k, b.j) + down(a.j, b.j) * (delta(a.k, b.k) - down(b.k, a.k));
    const double want = up(a.i, b.i) * (4 * four - 2 * delta(b.j, b.k) * down(a.j, a.k) - 2 * delta(a.j, a.k) * down(b.k, b.j) + delta(a.j, a.k) * delta(b.j, b.k));
    vc_assert(vc_near(o.expectation_value_3_3(a.product(), b.adjoint()) / 2, want), "<A_ijk A_lmn^+>");
    vc_assert(o.expectation_value(a.product(), b.adjoint()) == o.expectation_value_3_3(a.product(), b.adjoint()), "the sizes select the expectation value");
}
VC_PROP(symmetric)
{
    // for a symmetric two-point function the expectation values are symmetric, too
    ENV
    const Mon ai{{{true, a.i, true}}}, bi{{{true, b.i, true}}}, aic{{{false, a.i, true}}}, bic{{{false, b.i, true}}};
    const uint64_t s[] = {a.i, a.j, a.k, b.i, b.j, b.k};
    for(int i = 0; i < 6; ++i)
        for(int j = 0; j < i; ++j) vc_assume(up(s[i], s[j]) == up(s[j], s[i]) && down(s[i], s[j]) == down(s[j], s[i]));
    vc_assert(vc_near(o.expectation_value_1_1(ai, bic), o.expectation_value_1_1(bi, aic)), "<A_i A_j^+> is symmetric");
    vc_assert(vc_near(o.expectation_value_1_3(ai, b.adjoint()), o.expectation_value_3_1(b.product(), aic)), "<A_i A_jkl^+> is <A_jkl A_i^+>");
    vc_assert(vc_near(o.expectation_value_3_3(a.product(), b.adjoint()), o.expectation_value_3_3(b.product(), a.adjoint())), "<A_ijk A_lmn^+> is symmetric");
}

// ---- the sums
using OpS = algebra::Operator<uint32_t, bool>;
using MonS = algebra::Monomial<OpS>;
namespace ieompp { namespace models { namespace hubbard_real_space {
    template <>
    struct Basis3Operator<MonS> : std::vector<MonS> {
        using Monomial = MonS;
        using BasisIndex = std::vector<MonS>::size_type;
        BasisIndex N = 0, N_squared = 0;
        BasisIndex get_3op_index(BasisIndex i1, BasisIndex i2, BasisIndex i3) const { return N + N_squared * i1 + N * i2 + i3; }
    };
    using AnySum = SiteOccupation<double, Basis3Operator<MonS>>;
    template <>
    double AnySum::expectation_value_1_1(const MonS& a, const MonS& b) const
    {
        assert(a.size() == 1 && b.size() == 1);
        return expectation_value_function(a[0], b[0]);
    }
    template <>
    double AnySum::expectation_value_1_3(const MonS& a, const MonS& b) const
    {
        assert(a.size() == 1 && b.size() == 3);
        return expectation_value_function(a[0], b[0]);
    }
    template <>
    double AnySum::expectation_value_3_1(const MonS& a, const MonS& b) const
    {
        assert(a.size() == 3 && b.size() == 1);
        return expectation_value_function(a[0], b[0]);
    }
    template <>
    double AnySum::expectation_value_3_3(const MonS& a, const MonS& b) const
    {
        assert(a.size() == 3 && b.size() == 3);
        return expectation_value_function(a[0], b[0]);
    }
}}}
using AnyBasis = rs::Basis3Operator<MonS>;

// every operator carries the position of its product in the basis
static AnyBasis numbered(uint64_t n, uint64_t m)
{
    AnyBasis b;
    b.N = n;
    b.N_squared = n * n;
    for(uint64_t i = 0; i < n; ++i) b.push_back(MonS{{{true, uint32_t(i), true}}});
    for(uint64_t i = 0; i < m; ++i) b.push_back(MonS{{{true, uint32_t(n + i), true}, {true, uint32_t(n + i), false}, {false, uint32_t(n + i), false}}});
    return b;
}
// sum over all pairs of the n + m products
template <typename F>
static double all_pairs(uint64_t n, uint64_t m, F f)
{
    return vc_sum(n, [&](uint64_t i) { return vc_sum(n, [&](uint64_t j) { return f(i, j); }); })
           + vc_sum(n, [&](uint64_t i) { return vc_sum(m, [&](uint64_t j) { return f(i, n + j) + f(n + j, i); }); })
           + vc_sum(m, [&](uint64_t i) { return vc_sum(m, [&](uint64_t j) { return f(n + i, n + j); }); });
}
VC_PROP(full_sum)
{
    vc_threads();
    const uint64_t n = vc_u64("n"), m = vc_u64("m"), size = n + m;
    const auto v = vc_seq<std::complex<double>>("v");
    vc_assume(n <= 100000 && m <= 1000000000 && vc_small(n, 3) && vc_small(m, 4) && v.size() == size);
    const auto value = vc_fun<double(uint64_t, uint64_t)>("value");
    const AnyBasis basis = numbered(n, m);
    const rs::AnySum s{[&](const OpS& a, const OpS& b) { return value(a.index1, b.index1); }, std::cref(basis), std::cref(basis), false};
    const auto term = [&](uint64_t i, uint64_t j) { return value(i, j) * (v[i] * std::conj(v[j])) / 2.; };
    vc_assume(all_pairs(n, m, [&](uint64_t i, uint64_t j) { return term(i, j).imag(); }) == 0.);
    vc_assert(vc_near(s(v), all_pairs(n, m, [&](uint64_t i, uint64_t j) { return term(i, j).real(); })), "the result is the sum over all pairs");
}
VC_PROP(shortcut)
{
    // for symmetric expectation values the inversion symmetry gives the same sum
    vc_threads();
    const uint64_t n = vc_u64("n"), m = vc_u64("m"), size = n + m;
    const auto v = vc_seq<std::complex<double>>("v");
    vc_assume(n <= 100000 && m <= 1000000000 && vc_small(n, 3) && vc_small(m, 4) && v.size() == size);
    const auto half = vc_fun<double(uint64_t, uint64_t)>("value");
    // an arbitrary symmetric function
    const auto value = [&](uint64_t i, uint64_t j) { return i < j ? half(i, j) : half(j, i); };
    const AnyBasis basis = numbered(n, m);
    const rs::AnySum s{[&](const OpS& a, const OpS& b) { return value(a.index1, b.index1); }, std::cref(basis), std::cref(basis), true};
    const auto term = [&](uint64_t i, uint64_t j) { return value(i, j) * (v[i] * std::conj(v[j])) / 2.; };
    vc_assert(vc_near(s(v), all_pairs(n, m, [&](uint64_t i, uint64_t j) { return term(i, j).real(); })), "the result is the sum over all pairs");
}
VC_PROP(one_operator_sum)
{
    vc_threads();
    const uint64_t n = vc_u64("n");
    const auto v = vc_seq<std::complex<double>>("v");
    vc_assume(n >= 1 && n <= 1000000000 && vc_small(n, 6) && v.size() == n);
    const auto value = vc_fun<double(uint64_t, uint64_t)>("value");
    const Chain lattice(n);
    const rs::Basis1Operator<Mon> basis(lattice);
    const auto conjugate = basis.get_conjugate();
    const Occ1 s{[&](const Op& a, const Op& b) { return value(a.index1, b.index1); }, std::cref(basis), std::cref(conjugate)};
    const auto term = [&](uint64_t i, uint64_t j) { return value(i, j) * (v[i] * std::conj(v[j])); };
    vc_assume(vc_sum(n, [&](uint64_t i) { return vc_sum(n, [&](uint64_t j) { return term(i, j).imag(); }); }) == 0.);
    vc_assert(vc_near(s(v), vc_sum(n, [&](uint64_t i) { return vc_sum(n, [&](uint64_t j) { return term(i, j).real(); }); })),
              "the result is the sum over all pairs of sites");
}
