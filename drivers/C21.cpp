// C21: the normal-ordered real-space Liouvillian matrix
#include <array>
#include <cassert>
#include <limits>
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/models/hubbard_real_space/basis.hpp"
#include "ieompp/models/hubbard_real_space/liouvillian.hpp"
#include "ieompp/models/hubbard_real_space/blaze_sparse_no.hpp"

#include "vc.hpp"
#include "recorder.hpp"

using namespace ieompp;
namespace rs = models::hubbard_real_space;
using Chain  = lattices::PeriodicChain<double, uint64_t>;
using Square = lattices::PeriodicSquareLattice<double, uint64_t>;
using Op     = algebra::Operator<uint64_t, bool>;
using Mon    = algebra::Monomial<Op>;
using Basis1 = rs::Basis1Operator<Mon>;
using Basis3 = rs::Basis3Operator<Mon>;

struct Hubbard {
    double J, U;
};

#include "real_space.hpp"

static const double eps = std::numeric_limits<double>::epsilon();
static bool vanishes(double x) { return (x < 0. ? -x : x) < eps; }

#ifdef VC_SYMBOLIC
// the contract of make_columns_unique (proved in C23), for one arbitrary column
namespace ieompp
{
    namespace types
    {
        template <>
        TripletList<double, uint64_t> TripletList<double, uint64_t>::make_columns_unique() const
        {
            using List      = TripletList<double, uint64_t>;
            const List& l   = *this;
            const uint64_t c = vc_u64("column");
            vc_assert(vc_forall(l.size(), [&](uint64_t i) { return vc_forall(i, [&](uint64_t j) { return l[j].column <= l[i].column; }); }), "only ordered lists are merged");
            const std::vector<Triplet<double, uint64_t>> m = vc_fresh_seq<Triplet<double, uint64_t>>("merged");
            List r;
            r.assign(m.begin(), m.end());
            vc_assume(r.size() <= l.size());
            vc_assume(vc_forall(r.size(), [&](uint64_t i) { return vc_forall(i, [&](uint64_t j) { return r[j].column < r[i].column; }); }));
            vc_assume(vc_forall(r.size(), [&](uint64_t i) { return vc_exists(l.size(), [&](uint64_t j) { return r[i].column == l[j].column; }); }));
            const double given  = vc_sum(l.size(), [&](uint64_t i) { return l[i].column == c ? l[i].value : 0.; });
            const double merged = vc_sum(r.size(), [&](uint64_t i) { return r[i].column == c ? r[i].value : 0.; });
            vc_assume(merged == given || (merged == 0. && vanishes(given)));
            return r;
        }
    } // namespace types
} // namespace ieompp
#endif

template <typename L>
static void kinetic(const L& l)
{
    const uint64_t n = l.size(), r = vc_u64("row"), c = vc_u64("column");
    vc_assume(r < n && c < n);
    const Basis1 b(l);
    const Hubbard h{vc_real("J"), vc_real("U")};
    Recorder<double> m(r, c);
    rs::init_kinetic_matrix_no(h, m, b, l);
    vc_assert(m.n == b.size() && m.m == b.size(), "the matrix is square with the size of the basis");
    vc_assert(m.row == b.size(), "every row is finalised");
    const bool hop = adjacent(l, r, c);
    vc_assert(m.value == (hop ? -h.J : 0.) && m.hits == (hop ? 1. : 0.), "the matrix holds exactly the hopping elements");
}
VC_PROP(kinetic_chain) { kinetic(any_chain(7)); }
VC_PROP(kinetic_two_neighbours) { kinetic(any_lattice<2>(7)); }
VC_PROP(kinetic_four_neighbours) { kinetic(any_lattice<4>(4)); }

struct TwoPoint {
    std::function<double(uint64_t, uint64_t)> g;
    uint64_t n;
    double operator()(uint64_t a, uint64_t b) const
    {
        assert(a < n && b < n);
        return g(a, b);
    }
    double hole(uint64_t a, uint64_t b) const { return (a == b ? 1. : 0.) - (*this)(b, a); }
};

// Elements of the row of c+(i) and of :c+(i) c+(j) c(k):, from the commutator with the
// Hubbard Hamiltonian for a state with the same density on all sites
template <typename L>
static double element(const L& l, const Basis3& b, const Hubbard& h, const TwoPoint& f, uint64_t r, uint64_t c)
{
    const uint64_t n = l.size();
    const double J = h.J, U = h.U;
    if(r < n) {
        return (c < n && adjacent(l, r, c) ? -J : 0.) + (c == r ? U : 0.) + (c == b.get_3op_index(r, r, r) ? U * f(r, r) : 0.);
    }
    const uint64_t i = b[r][0].index1, j = b[r][1].index1, k = b[r][2].index1;
    if(c < n) {
        return (c == i ? U * f(j, i) * f.hole(k, i) : 0.) + (c == j ? U * f.hole(j, i) * f(j, k) : 0.) - (c == k ? U * f.hole(k, i) * f(j, k) : 0.);
    }
    const uint64_t x = b[c][0].index1, y = b[c][1].index1, z = b[c][2].index1;
    const double hopping = (y == j && z == k && adjacent(l, i, x) ? -J : 0.) + (x == i && z == k && adjacent(l, j, y) ? -J : 0.) + (x == i && y == j && adjacent(l, k, z) ? J : 0.);
    const double same    = c == r ? U * f(i, i) : 0.;
    const double creator = (x == i && y == i && z == k ? -U * f(j, i) : 0.) + (x == i && y == j && z == i ? U * f.hole(k, i) : 0.);
    const double density = (x == j && y == j && z == k ? U * f.hole(j, i) : 0.) - (x == k && y == j && z == k ? U * f.hole(k, i) : 0.);
    return hopping + same + creator + density;
}

template <typename L>
static void full(const L& l)
{
    const uint64_t n = l.size(), size = n + n * n * n, r = vc_u64("row"), c = vc_u64("column");
    vc_assume(r < size && c < size);
    const Basis3 b(l);
    const Hubbard h{vc_real("J"), vc_real("U")};
    const TwoPoint f{vc_fun<double(uint64_t, uint64_t)>("two_point"), n};
    Recorder<double> m(r, c);
    rs::init_matrix_no(h, m, b, l, f);
    vc_assert(m.n == b.size() && m.m == b.size(), "the matrix is square with the size of the basis");
    vc_assert(m.row == b.size(), "every row is finalised");
    const double e = element(l, b, h, f, r, c);
    vc_assert(vc_near(m.value, e) || (m.value == 0. && vanishes(e)), "the matrix holds exactly the matrix elements, equal columns added up");
}
VC_PROP(full_two_neighbours) { full(any_lattice<2>(3)); }
VC_PROP(full_four_neighbours) { full(any_lattice<4>(3)); }
