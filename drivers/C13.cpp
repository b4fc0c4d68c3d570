// C13: real-space operator bases: layout, index map, conjugate basis
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/models/hubbard_real_space/basis.hpp"

#include "vc.hpp"

using namespace ieompp;
using Chain = lattices::PeriodicChain<double, uint64_t>;
using Square = lattices::PeriodicSquareLattice<double, uint64_t>;
using Op = algebra::Operator<uint64_t, bool>;
using Mon = algebra::Monomial<Op>;
using Basis1 = models::hubbard_real_space::Basis1Operator<Mon>;
using Basis3 = models::hubbard_real_space::Basis3Operator<Mon>;

#define MAXN 1000000u

VC_REFLECT(Op, creator, index1, index2)

static bool is_op(const Op& o, bool creator, uint64_t site, bool up) { return o.creator == creator && o.index1 == site && o.index2 == up; }

template <typename L>
static void basis1(const L& l, uint64_t n, uint64_t i)
{
    const Basis1 b(l);
    vc_assert(b.size() == n && b.N == n, "the one-operator basis has one entry per site");
    vc_assert(b[i].size() == 1 && is_op(b[i][0], true, i, true), "the entries are the spin-up creators in site order");
}
VC_PROP(one_operator)
{
    const uint64_t n = vc_u64("n"), i = vc_u64("i");
    vc_assume(0 < n && n <= MAXN && i < n && vc_small(n, 200));
    basis1(Chain(n), n, i);
    basis1(Chain(n, 1.), n, i);
}
VC_PROP(one_operator_square)
{
    const uint64_t nx = vc_u64("nx"), ny = vc_u64("ny"), i = vc_u64("i");
    vc_assume(0 < nx && nx <= 1000 && 0 < ny && ny <= 1000 && i < nx * ny && vc_small(nx, 20) && vc_small(ny, 20));
    basis1(Square(nx, ny, 1., 1.), nx * ny, i);
}
template <typename L>
static void basis3(const L& l, uint64_t n, uint64_t i, uint64_t j, uint64_t k)
{
    const Basis3 b(l);
    vc_assert(b.size() == n + n * n * n && b.N == n, "the three-operator basis has N + N^3 entries");
    vc_assert(b[i].size() == 1 && is_op(b[i][0], true, i, true), "the first entries are the spin-up creators in site order");
    const uint64_t p = b.get_3op_index(i, j, k);
    vc_assert(p < b.size(), "the position is within the basis");
    vc_assert(b[p].size() == 3 && is_op(b[p][0], true, i, true) && is_op(b[p][1], true, j, false) && is_op(b[p][2], false, k, false), "the product for (i1,i2,i3) is stored at the returned position");
}
VC_PROP(three_operators)
{
    const uint64_t n = vc_u64("n"), i = vc_u64("i"), j = vc_u64("j"), k = vc_u64("k");
    vc_assume(0 < n && n <= MAXN && i < n && j < n && k < n && vc_small(n, 8));
    basis3(Chain(n), n, i, j, k);
    basis3(Chain(n, 1.), n, i, j, k);
}
VC_PROP(three_operators_square)
{
    const uint64_t nx = vc_u64("nx"), ny = vc_u64("ny"), i = vc_u64("i"), j = vc_u64("j"), k = vc_u64("k");
    vc_assume(0 < nx && nx <= 1000 && 0 < ny && ny <= 1000 && i < nx * ny && j < nx * ny && k < nx * ny && vc_small(nx, 3) && vc_small(ny, 3));
    basis3(Square(nx, ny, 1., 1.), nx * ny, i, j, k);
}
VC_PROP(positions)
{
    const uint64_t n = vc_u64("n"), i = vc_u64("i"), j = vc_u64("j"), k = vc_u64("k"), i2 = vc_u64("i2"), j2 = vc_u64("j2"), k2 = vc_u64("k2"), p = vc_u64("p");
    vc_assume(0 < n && n <= MAXN && i < n && j < n && k < n && i2 < n && j2 < n && k2 < n && n <= p && p < n + n * n * n && vc_small(n, 6));
    const Chain l(n);
    const Basis3 b(l);
    vc_assert((b.get_3op_index(i, j, k) == b.get_3op_index(i2, j2, k2)) == (i == i2 && j == j2 && k == k2), "positions are unique");
    vc_assert(b.get_3op_index(i, j, k) >= n, "positions come after the first N");
    const uint64_t r = p - n;
    vc_assert(b.get_3op_index(r / n / n, r / n % n, r % n) == p, "positions cover everything after the first N");
}
// the conjugate basis, for arbitrary contents
template <typename B>
static void conjugated(const B& c, const B& b)
{
    vc_assert(c.size() == b.size() && c.N == b.N, "the conjugate basis has the same size");
    vc_assert(vc_forall(b.size(), [&](uint64_t i) {
                  return c[i].size() == b[i].size() && vc_forall(b[i].size(), [&](uint64_t j) {
                             const Op& o = b[i][b[i].size() - 1 - j];
                             return is_op(c[i][j], !o.creator, o.index1, o.index2);
                         });
              }),
              "every entry is the Hermitian conjugate of the entry at the same position");
}
VC_PROP(conjugate1)
{
    const uint64_t n = vc_u64("n");
    vc_assume(0 < n && n <= MAXN && vc_small(n, 30));
    vc_threads();
    const Chain l(n);
    const Basis1 b(l), b0(b);
    const Basis1 c = b.get_conjugate();
    conjugated(c, b);
    vc_assert(vc_same(b, b0), "the original is unchanged");
}
VC_PROP(conjugate3)
{
    const uint64_t n = vc_u64("n");
    vc_assume(0 < n && n <= MAXN && vc_small(n, 6));
    vc_threads();
    const Chain l(n);
    const Basis3 b(l), b0(b);
    const Basis3 c = b.get_conjugate();
    conjugated(c, b);
    vc_assert(vc_same(b, b0), "the original is unchanged");
}
VC_PROP(traits)
{
    using namespace models::hubbard_real_space;
    vc_assert(IsOneOperatorBasis<Basis1>::value && !IsOneOperatorBasis<Basis3>::value && !IsOneOperatorBasis<Mon>::value, "one-operator bases");
    vc_assert(IsThreeOperatorBasis<Basis3>::value && !IsThreeOperatorBasis<Basis1>::value && !IsThreeOperatorBasis<Mon>::value, "three-operator bases");
}
