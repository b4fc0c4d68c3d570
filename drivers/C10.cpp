// C10: periodic square lattice: index bijection, neighbours, distances, iteration
#include "ieompp/lattices/periodic_square_lattice.hpp"

#include "vc.hpp"

using namespace ieompp;
using Lattice = lattices::PeriodicSquareLattice<double, uint64_t>;

#define MAXN 1000000000u

// the coordinate d <= n steps after a on a ring of n
static uint64_t ahead(uint64_t a, uint64_t d, uint64_t n) { return d >= n - a ? d - (n - a) : a + d; }
static uint64_t ring(uint64_t a, uint64_t b, uint64_t n)
{
    const uint64_t d = a < b ? b - a : a - b;
    return d < n - d ? d : n - d;
}

struct Size {
    uint64_t x, y;
};
static Size size()
{
    Size s{vc_u64("nx"), vc_u64("ny")};
    vc_assume(0 < s.x && s.x <= MAXN && 0 < s.y && s.y <= MAXN);
    return s;
}
static Size site(const char* x, const char* y, const Size& n)
{
    Size s{vc_u64(x), vc_u64(y)};
    vc_assume(s.x < n.x && s.y < n.y);
    return s;
}

VC_PROP(index_bijection)
{
    const Size n = size(), a = site("ax", "ay", n), b = site("bx", "by", n);
    const uint64_t i = vc_u64("i");
    vc_assume(i < n.x * n.y);
    const Lattice l(n.x, n.y);
    const uint64_t ia = l.index(a.x, a.y);
    vc_assert(ia < n.x * n.y, "the index of a site is below the number of sites");
    vc_assert(l.x_index(ia) == a.x && l.y_index(ia) == a.y, "the coordinates of an index are those it was made from");
    vc_assert(l.x_index(i) < n.x && l.y_index(i) < n.y, "every index has coordinates on the lattice");
    vc_assert(l.index(l.x_index(i), l.y_index(i)) == i, "every index is the index of its coordinates");
    vc_assert((ia == l.index(b.x, b.y)) == (a.x == b.x && a.y == b.y), "different sites have different indices");
}
template <typename L>
static void neighbours(const L& l, const Size& n, const Size& a)
{
    const uint64_t i = l.index(a.x, a.y);
    const auto nb = l.neighbors(i);
    vc_assert(nb.size() == L::coordination_number, "as many neighbours as the coordination number");
    vc_assert(nb[0] == l.index(ahead(a.x, n.x - 1, n.x), a.y), "first neighbour: one step back in x");
    vc_assert(nb[1] == l.index(a.x, ahead(a.y, n.y - 1, n.y)), "second neighbour: one step back in y");
    vc_assert(nb[2] == l.index(ahead(a.x, 1, n.x), a.y), "third neighbour: one step ahead in x");
    vc_assert(nb[3] == l.index(a.x, ahead(a.y, 1, n.y)), "fourth neighbour: one step ahead in y");
    const auto un = l.unique_neighbors(i);
    vc_assert(un.size() == 2 && un[0] == nb[2] && un[1] == nb[3], "the unique neighbours are the two in positive direction");
}
VC_PROP(neighbours)
{
    const Size n = size(), a = site("ax", "ay", n);
    const double dx = vc_real("dx"), dy = vc_real("dy");
    vc_assume(0 < dx && 0 < dy);
    neighbours(Lattice(n.x, n.y), n, a);
    neighbours(Lattice(n.x, n.y, dx, dy), n, a);
}
VC_PROP(neighbouring)
{
    const Size n = size(), a = site("ax", "ay", n), b = site("bx", "by", n);
    const Lattice l(n.x, n.y);
    const uint64_t i = l.index(a.x, a.y), j = l.index(b.x, b.y);
    const bool nx = a.y == b.y && (b.x == ahead(a.x, 1, n.x) || a.x == ahead(b.x, 1, n.x));
    const bool ny = a.x == b.x && (b.y == ahead(a.y, 1, n.y) || a.y == ahead(b.y, 1, n.y));
    // (a single site in one direction is its own neighbour there)
    vc_assert(l.neighboring(i, j) == (nx || ny), "neighbouring exactly for sites one step apart in one direction");
    vc_assert(l.neighboring(i, j) == l.neighboring(j, i), "neighbouring is symmetric");
}
VC_PROP(distances)
{
    const Size n = size(), a = site("ax", "ay", n), b = site("bx", "by", n), c = site("cx", "cy", n);
    const Lattice l(n.x, n.y);
    const uint64_t i = l.index(a.x, a.y), j = l.index(b.x, b.y);
    const uint64_t dx = l.lattice_distance_x(i, j), dy = l.lattice_distance_y(i, j);
    vc_assert(dx == ring(a.x, b.x, n.x), "the x distance is the ring distance in x");
    vc_assert(dy == ring(a.y, b.y, n.y), "the y distance is the ring distance in y");
    vc_assert(dx == l.lattice_distance_x(j, i) && dy == l.lattice_distance_y(j, i), "the distances are symmetric");
    vc_assert(dx <= n.x / 2 && dy <= n.y / 2, "the distances are at most half the extent");
    vc_assert((dx == 0 && dy == 0) == (i == j), "both distances are zero only for identical sites");
}
VC_PROP(translations)
{
    const Size n = size(), a = site("ax", "ay", n), b = site("bx", "by", n), c = site("cx", "cy", n);
    const Lattice l(n.x, n.y);
    const uint64_t i = l.index(a.x, a.y), j = l.index(b.x, b.y);
    const uint64_t k = l.index(ahead(a.x, c.x, n.x), ahead(a.y, c.y, n.y)), m = l.index(ahead(b.x, c.x, n.x), ahead(b.y, c.y, n.y));
    vc_assert(l.lattice_distance_x(k, m) == l.lattice_distance_x(i, j), "the x distance is translation invariant");
    vc_assert(l.lattice_distance_y(k, m) == l.lattice_distance_y(i, j), "the y distance is translation invariant");
}

template <typename L>
static void visits(L& l, uint64_t n)
{
    std::vector<uint64_t> v;
    for(auto i : l) v.push_back(i);
    vc_assert(v.size() == n && vc_forall(n, [&](uint64_t i) { return v[i] == i; }), "iteration visits every site once, in order");
}
VC_PROP(iteration)
{
    const Size n = size();
    vc_assume(vc_small(n.x, 50) && vc_small(n.y, 50));
    Lattice l(n.x, n.y);
    const Lattice c(n.x, n.y, 0.5, 0.25);
    visits(l, n.x * n.y);
    visits(c, n.x * n.y);
    std::vector<uint64_t> v;
    for(auto it = c.cbegin(); it != c.cend(); ++it) v.push_back(*it);
    vc_assert(v.size() == n.x * n.y && vc_forall(v.size(), [&](uint64_t i) { return v[i] == i; }), "constant iteration visits every site once, in order");
}
template <typename L>
static void geometry(const L& l, const Size& n)
{
    vc_assert(l.size() == n.x * n.y && l.size_x() == n.x && l.size_y() == n.y, "the sizes are the given ones");
    vc_assert(l.first() == 0 && l.last() == n.x * n.y - 1, "first and last site");
    vc_assert(vc_near(l.x_length(), double(n.x) * l.dx()) && vc_near(l.y_length(), double(n.y) * l.dy()), "the lengths are the number of sites times the spacing");
    const auto& v = l.lattice_vectors();
    vc_assert(v.size() == 2 && vc_near(v[0][0], l.dx()) && v[0][1] == 0 && v[1][0] == 0 && vc_near(v[1][1], l.dy()), "the lattice vectors are one step in x and one step in y");
}
VC_PROP(geometry_momentum)
{
    const Size n = size();
    const Lattice l(n.x, n.y);
    geometry(l, n);
    vc_assert(vc_near(l.x_min(), -vc_pi()) && vc_near(l.x_max(), vc_pi()) && vc_near(l.x_length(), 2 * vc_pi()), "the zone reaches from -pi to pi in x");
    vc_assert(vc_near(l.y_min(), -vc_pi()) && vc_near(l.y_max(), vc_pi()) && vc_near(l.y_length(), 2 * vc_pi()), "the zone reaches from -pi to pi in y");
}
VC_PROP(geometry_real)
{
    const Size n = size();
    const double dx = vc_real("dx"), dy = vc_real("dy");
    vc_assume(0 < dx && 0 < dy);
    const Lattice l(n.x, n.y, dx, dy);
    geometry(l, n);
    vc_assert(vc_near(l.dx(), dx) && vc_near(l.dy(), dy), "the spacings are the given ones");
    vc_assert(vc_near(l.x_min(), 0.) && vc_near(l.x_max(), dx * double(n.x - 1)), "the lattice reaches from zero to the last site in x");
    vc_assert(vc_near(l.y_min(), 0.) && vc_near(l.y_max(), dy * double(n.y - 1)), "the lattice reaches from zero to the last site in y");
}
