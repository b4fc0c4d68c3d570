// C08: periodic chain: ring topology, distances, iteration, geometry
#include "ieompp/lattices/periodic_chain.hpp"

#include "vc.hpp"

using namespace ieompp;
using Chain = lattices::PeriodicChain<double, uint64_t>;
using ChainF = lattices::PeriodicChain<float, uint32_t>;

#define MAXN 1000000000000000000u

// the site d <= n steps after a on a ring of n sites
template <typename I>
I ahead(I a, I d, I n) { return d >= n - a ? d - (n - a) : a + d; }

template <typename Lattice>
void topology(const Lattice& l, typename Lattice::SiteIndex n, typename Lattice::SiteIndex a, typename Lattice::SiteIndex b, typename Lattice::SiteIndex c)
{
    using I = typename Lattice::SiteIndex;
    const I one = 1;
    const auto nb = l.neighbors(a);
    vc_assert(nb.size() == Lattice::coordination_number, "as many neighbours as the coordination number");
    vc_assert(nb[0] == ahead<I>(a, n - 1, n), "the first neighbour is the site before, around the ring");
    vc_assert(nb[1] == ahead<I>(a, one, n), "the second neighbour is the site after, around the ring");
    const auto un = l.unique_neighbors(a);
    vc_assert(un.size() == 1 && un[0] == ahead<I>(a, one, n), "the unique neighbour is the site after");
    vc_assert(l.neighboring(a, b) == (b == ahead<I>(a, one, n) || a == ahead<I>(b, one, n)), "neighbouring exactly when the sites differ by one around the ring");
    vc_assert(l.neighboring(a, b) == l.neighboring(b, a), "neighbouring is symmetric");

    const I d = l.lattice_distance(a, b);
    vc_assert(ahead<I>(a, d, n) == b || ahead<I>(b, d, n) == a, "the distance is the length of a path between the sites");
    vc_assert(c >= d || (ahead<I>(a, c, n) != b && ahead<I>(b, c, n) != a), "no shorter path joins the sites");
    vc_assert(d == l.lattice_distance(b, a), "the distance is symmetric");
    vc_assert((d == 0) == (a == b), "the distance is zero only for identical sites");
    vc_assert(d <= n / 2, "the distance is at most half the ring");
    vc_assert(l.lattice_distance(ahead<I>(a, c, n), ahead<I>(b, c, n)) == d, "the distance is translation invariant");
    vc_assert(l.lattice_distance(a, c) <= d + l.lattice_distance(b, c), "triangle inequality");
}

VC_PROP(ring)
{
    const uint64_t n = vc_u64("n"), a = vc_u64("a"), b = vc_u64("b"), c = vc_u64("c");
    const double dx = vc_real("dx");
    vc_assume(0 < n && n <= MAXN && a < n && b < n && c < n && 0 < dx);
    topology(Chain(n), n, a, b, c);
    topology(Chain(n, dx), n, a, b, c);
}
VC_PROP(ring_small_index)
{
    const uint32_t n = vc_any<uint32_t>("n"), a = vc_any<uint32_t>("a"), b = vc_any<uint32_t>("b"), c = vc_any<uint32_t>("c");
    vc_assume(0 < n && n <= 1000000000u && a < n && b < n && c < n);
    topology(ChainF(n), n, a, b, c);
}

// iterating visits 0, 1, ..., n-1
template <typename Lattice>
void visits(Lattice& l, uint64_t n)
{
    std::vector<uint64_t> v;
    for(auto i : l) v.push_back(i);
    vc_assert(v.size() == n && vc_forall(n, [&](uint64_t i) { return v[i] == i; }), "iteration visits every site once, in order");
}
VC_PROP(iteration)
{
    const uint64_t n = vc_u64("n");
    vc_assume(0 < n && n <= MAXN && vc_small(n, 5000));
    Chain l(n);
    const Chain c(n, 0.5);
    visits(l, n);
    visits(c, n);
    std::vector<uint64_t> v;
    for(auto it = c.cbegin(); it != c.cend(); ++it) v.push_back(*it);
    vc_assert(v.size() == n && vc_forall(n, [&](uint64_t i) { return v[i] == i; }), "constant iteration visits every site once, in order");
}

// every ordered pair (i, i+1 mod n) is listed once by the unique neighbours
VC_PROP(bonds)
{
    const uint64_t n = vc_u64("n"), i = vc_u64("i"), j = vc_u64("j");
    vc_assume(2 < n && n <= MAXN && i < n && j < n);
    const Chain l(n);
    vc_assert(!l.neighboring(i, j) || ((l.unique_neighbors(i)[0] == j) != (l.unique_neighbors(j)[0] == i)), "every bond is listed by exactly one of its ends");
    vc_assert(l.neighboring(i, l.unique_neighbors(i)[0]), "unique neighbours are neighbours");
    vc_assert(l.unique_neighbors(i)[0] != l.unique_neighbors(j)[0] || i == j, "no site is the unique neighbour of two");
}

template <typename Lattice>
void geometry(const Lattice& l, uint64_t n)
{
    vc_assert(l.size() == n && l.first() == 0 && l.last() == n - 1, "size, first and last site");
    vc_assert(vc_near(l.x_length(), double(n) * l.dx()), "the length is the number of sites times the spacing");
    vc_assert(l.lattice_vectors().size() == 1 && vc_near(l.lattice_vectors()[0], l.dx()), "the lattice vector is the spacing");
    vc_assert(l.dx() > 0, "the spacing is positive");
}
VC_PROP(geometry_momentum)
{
    const uint64_t n = vc_u64("n");
    vc_assume(0 < n && n <= MAXN);
    const Chain l(n);
    geometry(l, n);
    vc_assert(vc_near(l.x_min(), -vc_pi()) && vc_near(l.x_max(), vc_pi()) && vc_near(l.x_length(), 2 * vc_pi()), "the zone reaches from -pi to pi");
}
VC_PROP(geometry_real)
{
    const uint64_t n = vc_u64("n");
    const double dx = vc_real("dx");
    vc_assume(0 < n && n <= MAXN && 0 < dx);
    const Chain l(n, dx);
    geometry(l, n);
    vc_assert(vc_near(l.dx(), dx), "the spacing is the given one");
    vc_assert(vc_near(l.x_min(), 0.) && vc_near(l.x_max(), dx * double(n - 1)), "the chain reaches from zero to the last site");
}
