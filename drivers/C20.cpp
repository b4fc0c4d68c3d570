// C20: the real-space Liouvillian matrix
#include <array>
#include <cassert>
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/models/hubbard_real_space/basis.hpp"
#include "ieompp/models/hubbard_real_space/liouvillian.hpp"
#include "ieompp/models/hubbard_real_space/blaze_sparse.hpp"

#include "vc.hpp"
#include "recorder.hpp"

using namespace ieompp;
namespace rs = models::hubbard_real_space;
using Chain  = lattices::PeriodicChain<double, uint64_t>;
using Square = lattices::PeriodicSquareLattice<double, uint64_t>;
using Op     = algebra::Operator<uint64_t, bool>;
using Mon    = algebra::Monomial<Op>;
using Basis1 = rs::Basis1Operator<Mon>;
using Basis3 = rs::Basis3Operator<Mon>;

struct Hubbard {
    double J, U;
};

#include "real_space.hpp"

template <typename L>
static void kinetic(const L& l)
{
    const uint64_t n = l.size(), r = vc_u64("row"), c = vc_u64("column");
    vc_assume(r < n && c < n);
    const Basis1 b(l);
    const Hubbard h{vc_real("J"), vc_real("U")};
    Recorder<double> m(r, c);
    rs::init_kinetic_matrix(h, m, b, l);
    vc_assert(m.n == b.size() && m.m == b.size(), "the matrix is square with the size of the basis");
    vc_assert(m.row == b.size(), "every row is finalised");
    const bool hop = adjacent(l, r, c);
    vc_assert(m.value == (hop ? -h.J : 0.) && m.hits == (hop ? 1. : 0.), "the matrix holds exactly the hopping elements");
}
VC_PROP(kinetic_chain) { kinetic(any_chain(7)); }
VC_PROP(kinetic_two_neighbours) { kinetic(any_lattice<2>(7)); }
VC_PROP(kinetic_four_neighbours) { kinetic(any_lattice<4>(4)); }

// the Hubbard matrix elements
template <typename L>
static double element(const L& l, const Basis3& b, const Hubbard& h, uint64_t r, uint64_t c)
{
    const uint64_t n    = l.size();
    const bool diagonal = r == c;
    const bool single   = r < n && c < n && adjacent(l, r, c);
    const bool coupling = (r < n && c >= n && c == b.get_3op_index(r, r, r)) || (c < n && r >= n && r == b.get_3op_index(c, c, c));
    bool creator = false, annihilator = false;
    if(r >= n && c >= n) {
        const uint64_t r1 = b[r][0].index1, r2 = b[r][1].index1, r3 = b[r][2].index1;
        const uint64_t c1 = b[c][0].index1, c2 = b[c][1].index1, c3 = b[c][2].index1;
        creator     = (adjacent(l, r1, c1) && r2 == c2 && r3 == c3) || (r1 == c1 && adjacent(l, r2, c2) && r3 == c3);
        annihilator = r1 == c1 && r2 == c2 && adjacent(l, r3, c3);
    }
    return (diagonal || coupling ? h.U / 2. : 0.) + (single || creator ? -h.J : 0.) + (annihilator ? h.J : 0.);
}

template <typename L>
static void full(const L& l)
{
    const uint64_t n = l.size(), size = n + n * n * n, r = vc_u64("row"), c = vc_u64("column");
    vc_assume(r < size && c < size);
    const Basis3 b(l);
    const Hubbard h{vc_real("J"), vc_real("U")};
    Recorder<double> m(r, c);
    rs::init_matrix(h, m, b, l);
    vc_assert(m.n == b.size() && m.m == b.size(), "the matrix is square with the size of the basis");
    vc_assert(m.row == b.size(), "every row is finalised");
    vc_assert(m.value == element(l, b, h, r, c), "the matrix holds exactly the Hubbard matrix elements");
    vc_assert(m.hits <= 1., "no position is written twice");
}
VC_PROP(full_two_neighbours) { full(any_lattice<2>(3)); }
VC_PROP(full_four_neighbours) { full(any_lattice<4>(3)); }

// the matrix elements are symmetric
template <typename L>
static void symmetric(const L& l)
{
    const uint64_t n = l.size(), size = n + n * n * n, r = vc_u64("row"), c = vc_u64("column");
    vc_assume(r < size && c < size);
    vc_assume(vc_forall(n, [&](uint64_t i) { return vc_forall(n, [&](uint64_t j) { return adjacent(l, i, j) == adjacent(l, j, i); }); })); // C09, C10
    const Basis3 b(l);
    const Hubbard h{vc_real("J"), vc_real("U")};
    vc_assert(element(l, b, h, r, c) == element(l, b, h, c, r), "the matrix is symmetric");
}
VC_PROP(symmetric_two_neighbours) { symmetric(any_lattice<2>(3)); }
VC_PROP(symmetric_four_neighbours) { symmetric(any_lattice<4>(3)); }
// make_liouvillian: hopping J and interaction U, both 1 unless given
VC_PROP(made_liouvillian)
{
    const double J = vc_real("J"), U = vc_real("U");
    const auto a = rs::make_liouvillian(J, U);
    vc_assert(vc_same(a.J, J) && vc_same(a.U, U), "hopping and interaction as given");
    const auto b = rs::make_liouvillian(J);
    vc_assert(vc_same(b.J, J) && vc_same(b.U, 1.), "the interaction is 1 unless given");
    const auto c = rs::make_liouvillian<double>();
    vc_assert(vc_same(c.J, 1.) && vc_same(c.U, 1.), "both are 1 unless given");
}
