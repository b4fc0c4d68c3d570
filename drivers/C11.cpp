// C11: periodic square lattice: positions and site lookup
#include "ieompp/lattices/periodic_square_lattice.hpp"

#include "vc.hpp"

using namespace ieompp;
using Lattice = lattices::PeriodicSquareLattice<double, uint64_t>;
using Vec = Lattice::Vector;

#define MAXN 1000000000u

// Every coordinate is min + (i + e) d + m L for a coordinate i on the lattice, a whole number m of
// lattice lengths L and an offset e of at most half a spacing.
struct Place {
    uint64_t n, i;
    int64_t m;
    double e;
};
static Place place(const char* n, const char* i, const char* m, const char* e)
{
    Place p{vc_u64(n), vc_u64(i), vc_i64(m), vc_real(e)};
    vc_assume(0 < p.n && p.n <= MAXN && p.i < p.n && -1000000 < p.m && p.m < 1000000 && -0.5 < p.e && p.e < 0.5);
    vc_assume(vc_small(p.n, 20) && vc_small(p.m < 0 ? -p.m : p.m, 50));
    return p;
}
static double at(double min, double d, const Place& p) { return min + (double(p.i) + p.e) * d + double(p.m) * double(p.n) * d; }
static Vec at(const Lattice& l, const Place& x, const Place& y) { return Vec(at(l.x_min(), l.dx(), x), at(l.y_min(), l.dy(), y)); }

VC_PROP(positions)
{
    const uint64_t nx = vc_u64("nx"), ny = vc_u64("ny"), ix = vc_u64("ix"), iy = vc_u64("iy");
    const double dx = vc_real("dx"), dy = vc_real("dy");
    vc_assume(0 < nx && nx <= MAXN && ix < nx && 0 < ny && ny <= MAXN && iy < ny && 0 < dx && 0 < dy);
    const Lattice k(nx, ny), x(nx, ny, dx, dy);
    const uint64_t i = k.index(ix, iy);
    const Vec vk = k[i], vx = x[i];
    vc_assert(vc_near(vk[0], k.x_min() + double(ix) * k.dx()) && vc_near(vk[1], k.y_min() + double(iy) * k.dy()), "position in the momentum zone");
    vc_assert(vc_near(vx[0], x.x_min() + double(ix) * x.dx()) && vc_near(vx[1], x.y_min() + double(iy) * x.dy()), "position on the lattice");
    vc_assert(vc_near(vk[0], -vc_pi() + double(ix) * 2 * vc_pi() / double(nx)) && vc_near(vk[1], -vc_pi() + double(iy) * 2 * vc_pi() / double(ny)), "momenta are equidistant from -pi on");
    vc_assert(vc_near(vx[0], double(ix) * dx) && vc_near(vx[1], double(iy) * dy), "sites are equidistant from zero on");
    vc_assert(k(vk) == i, "looking up the position of a momentum gives the momentum");
    vc_assert(x(vx) == i, "looking up the position of a site gives the site");
}
VC_PROP(lookup_momentum)
{
    const Place x = place("nx", "ix", "mx", "ex"), y = place("ny", "iy", "my", "ey");
    const Lattice l(x.n, y.n);
    vc_assert(l(at(l, x, y)) == l.index(x.i, y.i), "a position is mapped to the site half a spacing around it, periodically");
}
VC_PROP(lookup_real)
{
    const Place x = place("nx", "ix", "mx", "ex"), y = place("ny", "iy", "my", "ey");
    const double dx = vc_real("dx"), dy = vc_real("dy");
    vc_assume(0 < dx && 0 < dy);
    const Lattice l(x.n, y.n, dx, dy);
    vc_assert(l(at(l, x, y)) == l.index(x.i, y.i), "a position is mapped to the site half a spacing around it, periodically");
}
VC_PROP(any_position)
{
    const uint64_t nx = vc_u64("nx"), ny = vc_u64("ny");
    const double vx = vc_real("vx"), vy = vc_real("vy"), dx = vc_real("dx"), dy = vc_real("dy");
    vc_assume(0 < nx && nx <= MAXN && 0 < ny && ny <= MAXN && 0 < dx && 0 < dy && vc_small(nx, 60) && vc_small(ny, 60));
    vc_assume(vc_small(dx < 0.01 || dy < 0.01 ? 1 : 0, 0));
    const Lattice l(nx, ny, dx, dy), k(nx, ny);
    vc_assert(l(Vec(vx, vy)) < nx * ny && k(Vec(vx, vy)) < nx * ny, "every position is mapped to a valid site");
}
VC_PROP(search_momentum)
{
    const Place x = place("nx", "ix", "mx", "ex"), y = place("ny", "iy", "my", "ey");
    const Lattice l(x.n, y.n);
    vc_assert(l.closest(at(l, x, y)) == l.index(x.i, y.i), "the search finds the site half a spacing around the position");
}
VC_PROP(search_real)
{
    const Place x = place("nx", "ix", "mx", "ex"), y = place("ny", "iy", "my", "ey");
    const double dx = vc_real("dx"), dy = vc_real("dy");
    vc_assume(0 < dx && 0 < dy);
    const Lattice l(x.n, y.n, dx, dy);
    vc_assert(l.closest(at(l, x, y)) == l.index(x.i, y.i), "the search finds the site half a spacing around the position");
}
