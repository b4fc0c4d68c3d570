// C14: momentum-space operator basis: layout, index map, momentum conservation, conjugate basis
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/models/hubbard_momentum_space/basis.hpp"

#include "vc.hpp"

using namespace ieompp;
using Chain = lattices::PeriodicChain<double, uint64_t>;
using Square = lattices::PeriodicSquareLattice<double, uint64_t>;
using Op = algebra::Operator<uint64_t, bool>;
using Mon = algebra::Monomial<Op>;
using Basis = models::hubbard_momentum_space::Basis3Operator<Mon>;

#define MAXN 1000000u

VC_REFLECT(Op, creator, index1, index2)

static bool is_op(const Op& o, bool creator, uint64_t site, bool up) { return o.creator == creator && o.index1 == site && o.index2 == up; }

VC_PROP(layout)
{
    const uint64_t n = vc_u64("n"), q = vc_u64("q"), i = vc_u64("i"), j = vc_u64("j");
    vc_assume(0 < n && n <= MAXN && q < n && i < n && j < n && vc_small(n, 40));
    const Chain l(n);
    const Basis b(q, l);
    vc_assert(b.size() == n * n + 1 && b.N == n, "the basis has N^2 + 1 entries");
    vc_assert(b[0].size() == 1 && is_op(b[0][0], true, q, true), "the first entry is the spin-up creator at the total momentum");
    const uint64_t p = b.get_3op_index(i, j);
    vc_assert(0 < p && p < b.size(), "the position is within the basis");
    vc_assert(b[p].size() == 3 && is_op(b[p][0], true, i, true) && is_op(b[p][1], true, j, false) && !b[p][2].creator && !b[p][2].index2,
              "the product for (k1,k2) is stored at the returned position");
    vc_assert(b[p][2].index1 < n && b[p][2].index1 == (i + j + (n - q)) % n, "momentum is conserved modulo a reciprocal lattice vector");
}
VC_PROP(momenta)
{
    // the index form of momentum conservation is the one of the momenta themselves
    const uint64_t n = vc_u64("n"), q = vc_u64("q"), i = vc_u64("i"), j = vc_u64("j");
    vc_assume(0 < n && n <= MAXN && q < n && i < n && j < n && vc_small(n, 40));
    const Chain l(n);
    const uint64_t k = (i + j + (n - q)) % n, m = (i + j + (n - q)) / n;
    vc_assert(vc_near(l[i] + l[j] - l[k] - l[q], (double(m) - 1.) * 2 * vc_pi()), "k1 + k2 - k3 is the total momentum up to a multiple of 2 pi");
}
VC_PROP(layout_square)
{
    const uint64_t nx = vc_u64("nx"), ny = vc_u64("ny"), q = vc_u64("q"), i = vc_u64("i"), j = vc_u64("j");
    vc_assume(0 < nx && nx <= 1000 && 0 < ny && ny <= 1000 && vc_small(nx, 5) && vc_small(ny, 5));
    const uint64_t n = nx * ny;
    vc_assume(q < n && i < n && j < n);
    const Square l(nx, ny);
    const Basis b(q, l);
    vc_assert(b.size() == n * n + 1 && b.N == n, "the basis has N^2 + 1 entries");
    vc_assert(b[0].size() == 1 && is_op(b[0][0], true, q, true), "the first entry is the spin-up creator at the total momentum");
    const uint64_t p = b.get_3op_index(i, j);
    vc_assert(0 < p && p < b.size(), "the position is within the basis");
    vc_assert(b[p].size() == 3 && is_op(b[p][0], true, i, true) && is_op(b[p][1], true, j, false) && !b[p][2].creator && !b[p][2].index2,
              "the product for (k1,k2) is stored at the returned position");
}
VC_PROP(momentum_square)
{
    const uint64_t nx = vc_u64("nx"), ny = vc_u64("ny");
    const uint64_t qx = vc_u64("qx"), qy = vc_u64("qy"), ix = vc_u64("ix"), iy = vc_u64("iy"), jx = vc_u64("jx"), jy = vc_u64("jy");
    vc_assume(0 < nx && nx <= 1000 && 0 < ny && ny <= 1000 && vc_small(nx, 5) && vc_small(ny, 5));
    vc_assume(qx < nx && qy < ny && ix < nx && iy < ny && jx < nx && jy < ny);
    const Square l(nx, ny);
    const Basis b(l.index(qx, qy), l);
    const Mon& m = b[b.get_3op_index(l.index(ix, iy), l.index(jx, jy))];
    vc_assert(m[2].index1 == l.index((ix + jx + (nx - qx)) % nx, (iy + jy + (ny - qy)) % ny), "momentum is conserved modulo a reciprocal lattice vector");
}
VC_PROP(positions)
{
    const uint64_t n = vc_u64("n"), i = vc_u64("i"), j = vc_u64("j"), i2 = vc_u64("i2"), j2 = vc_u64("j2"), p = vc_u64("p");
    vc_assume(0 < n && n <= MAXN && i < n && j < n && i2 < n && j2 < n && 1 <= p && p < n * n + 1 && vc_small(n, 20));
    const Chain l(n);
    const Basis b(0, l);
    vc_assert((b.get_3op_index(i, j) == b.get_3op_index(i2, j2)) == (i == i2 && j == j2), "positions are unique");
    vc_assert(b.get_3op_index((p - 1) / n, (p - 1) % n) == p, "positions cover everything after the first entry");
}
static void conjugated(const Basis& c, const Basis& b)
{
    vc_assert(c.size() == b.size() && c.N == b.N, "the conjugate basis has the same size");
    vc_assert(vc_forall(b.size(), [&](uint64_t i) {
                  return c[i].size() == b[i].size() && vc_forall(b[i].size(), [&](uint64_t j) {
                             const Op& o = b[i][b[i].size() - 1 - j];
                             return is_op(c[i][j], !o.creator, o.index1, o.index2);
                         });
              }),
              "every entry is the Hermitian conjugate of the entry at the same position");
}
VC_PROP(conjugate_copy)
{
    const uint64_t n = vc_u64("n"), q = vc_u64("q");
    vc_assume(0 < n && n <= MAXN && q < n && vc_small(n, 12));
    vc_threads();
    const Chain l(n);
    const Basis b(q, l), b0(b);
    const Basis c = b.get_conjugate();
    conjugated(c, b);
    vc_assert(vc_same(b, b0), "the original is unchanged");
}
VC_PROP(conjugate_in_place)
{
    const uint64_t n = vc_u64("n"), q = vc_u64("q");
    vc_assume(0 < n && n <= MAXN && q < n && vc_small(n, 12));
    vc_threads();
    const Chain l(n);
    const Basis b0(q, l);
    Basis b(b0);
    b.conjugate();
    conjugated(b, b0);
}
