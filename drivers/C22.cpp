// C22: the momentum-space Liouvillian matrix
#include <cassert>
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/models/hubbard_momentum_space/basis.hpp"
#include "ieompp/models/hubbard_momentum_space/liouvillian.hpp"
#include "ieompp/models/hubbard_momentum_space/blaze_sparse.hpp"

#include "vc.hpp"
#include "recorder.hpp"

using namespace ieompp;
namespace ms = models::hubbard_momentum_space;
using Chain  = lattices::PeriodicChain<double, uint64_t>;
using Op     = algebra::Operator<uint64_t, bool>;
using Mon    = algebra::Monomial<Op>;
using Basis  = ms::Basis3Operator<Mon>;

// any dispersion
struct Energy {
    std::function<double(uint64_t)> e;
    uint64_t n;
    double operator()(uint64_t k) const
    {
        assert(k < n);
        return e(k);
    }
};

template <typename Lattice>
static void check(const Lattice& l, const Basis& b, uint64_t n)
{
    const uint64_t r = vc_u64("row"), c = vc_u64("column");
    vc_assume(r < n * n + 1 && c < n * n + 1);
    const double U = vc_real("U");
    const Energy e{vc_fun<double(uint64_t)>("energy"), n};
    const ms::Liouvillian<double, Energy> liouvillian{e, U};
    Recorder<double> m(r, c);
    ms::init_matrix(liouvillian, m, b, l);
    vc_assert(m.n == b.size() && m.m == b.size(), "the matrix is square with the size of the basis");
    vc_assert(m.row == b.size(), "every row is finalised");
    double expected = 0.;
    if(r == c) {
        expected = U / 2. + (r == 0 ? e(b[0][0].index1) : e(b[r][0].index1) + e(b[r][1].index1) - e(b[r][2].index1));
    } else if(r == 0 || c == 0) {
        expected = U / (2. * n);
    }
    vc_assert(vc_near(m.value, expected), "the matrix holds exactly the Hubbard matrix elements");
    vc_assert(m.hits <= 1, "no position is written twice");
    vc_assert(m.hits == 1 || (r != c && r != 0 && c != 0), "every element is written");
}
VC_PROP(chain)
{
    const uint64_t n = vc_u64("n"), q = vc_u64("q");
    vc_assume(0 < n && n <= 1000000 && q < n && vc_small(n, 5));
    const Chain l(n);
    const Basis b(q, l);
    check(l, b, n);
}
// any lattice: momenta are numbers, products of momenta are mapped to any site
struct Space {
    using Float       = double;
    using SiteIndex   = uint64_t;
    uint64_t n;
    std::function<double(uint64_t)> momentum;
    std::function<uint64_t(double)> site;
    uint64_t size() const { return n; }
    double operator[](uint64_t i) const { return momentum(i); }
    uint64_t operator()(double k) const { return site(k) % n; }
    iterators::IntegerIterator<uint64_t, true> begin() const { return iterators::IntegerIterator<uint64_t, true>(0); }
    iterators::IntegerIterator<uint64_t, true> end() const { return iterators::IntegerIterator<uint64_t, true>(n); }
};
VC_PROP(any_lattice)
{
    const uint64_t n = vc_u64("n"), q = vc_u64("q");
    vc_assume(0 < n && n <= 1000000 && q < n && vc_small(n, 4));
    const Space l{n, vc_fun<double(uint64_t)>("momentum"), vc_fun<uint64_t(double)>("site")};
    const Basis b(q, l);
    check(l, b, n);
}
// make_liouvillian: the dispersion of the hopping J and the interaction U, both 1 unless given
VC_PROP(made_liouvillian)
{
    const uint64_t n = vc_u64("n"), m = vc_u64("sites"), k = vc_u64("k");
    vc_assume(0 < n && n <= 1000000 && 0 < m && m <= 1000000 && k < n && vc_small(n, 30) && vc_small(m, 30));
    const double J = vc_real("J"), U = vc_real("U");
    const Chain space(n), lattice(m, 1.);
    const auto a = ms::make_liouvillian<double>(space, lattice, J, U);
    vc_assert(vc_same(a.U, U) && vc_near(a.dispersion(k), -2. * J * std::cos(space[k])), "hopping and interaction as given");
    const auto b = ms::make_liouvillian<double>(space, lattice);
    vc_assert(vc_same(b.U, 1.) && vc_near(b.dispersion(k), -2. * std::cos(space[k])), "hopping and interaction are 1 unless given");
    const auto c = ms::make_liouvillian<double>(space, lattice, J);
    vc_assert(vc_same(c.U, 1.) && vc_near(c.dispersion(k), -2. * J * std::cos(space[k])), "the interaction is 1 unless given");
}
