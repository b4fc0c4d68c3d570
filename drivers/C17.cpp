// C17: real-space expectation values
#include <cassert>
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/models/hubbard_real_space/expectation_value.hpp"

#include "vc.hpp"

using namespace ieompp;
using Chain = lattices::PeriodicChain<double, uint64_t>;
using Square = lattices::PeriodicSquareLattice<double, uint64_t>;
using Value1D = models::hubbard_real_space::ExpectationValue1DHalfFilled<double, Chain>;
using Value2D = models::hubbard_real_space::ExpectationValue2DHalfFilled<double, Square>;

#define MAXN 1000000u

static uint64_t ring(uint64_t n, uint64_t a, uint64_t b)
{
    const uint64_t d = a < b ? b - a : a - b;
    return d < n - d ? d : n - d;
}
static uint64_t moved(uint64_t n, uint64_t a, uint64_t t) { return a + t < n ? a + t : a + t - n; }
static double formula(double filling, double kf, double dx, uint64_t d)
{
    return d == 0 ? filling : vc_sin(kf * (double(d) * dx)) / (vc_pi() * (double(d) * dx));
}
static double formula(uint64_t x, uint64_t y)
{
    const uint64_t s = x + y, d = x < y ? y - x : x - y;
    if(s == 0) return 0.5;
    if(d == 0) return vc_sin(vc_pi() / 2 * double(s)) / (vc_pi() * double(s));
    return 2. / (vc_pi() * vc_pi()) * (vc_sin(vc_pi() / 2 * double(s)) / double(s)) * (vc_sin(vc_pi() / 2 * double(d)) / double(d));
}

VC_PROP(chain)
{
    vc_threads();
    const uint64_t n = vc_u64("n"), a = vc_u64("a"), b = vc_u64("b");
    const double dx = vc_real("dx"), filling = vc_real("filling"), kf = vc_real("kf");
    vc_assume(0 < n && n <= MAXN && a < n && b < n && 0 < dx && 0 <= filling && filling <= 1 && vc_small(n, 40));
    const Chain l(n, dx);
    const Value1D v(l, filling, kf);
    vc_assert(vc_near(v(a, b), formula(filling, kf, dx, ring(n, a, b))), "the value is the formula of the ring distance");
    vc_assert(v(a, b) == v(b, a), "the value is symmetric");
    vc_assert(v.lattice_distance(a, b) == ring(n, a, b), "the distance is the ring distance");
}
VC_PROP(chain_translation)
{
    vc_threads();
    const uint64_t n = vc_u64("n"), a = vc_u64("a"), b = vc_u64("b"), t = vc_u64("t");
    const double dx = vc_real("dx"), filling = vc_real("filling"), kf = vc_real("kf");
    vc_assume(0 < n && n <= MAXN && a < n && b < n && t < n && 0 < dx && 0 <= filling && filling <= 1 && vc_small(n, 40));
    const Chain l(n, dx);
    const Value1D v(l, filling, kf);
    vc_assert(v(moved(n, a, t), moved(n, b, t)) == v(a, b), "the value is translation invariant");
}
VC_PROP(chain_momentum_lattice)
{
    vc_threads();
    const uint64_t n = vc_u64("n"), a = vc_u64("a"), b = vc_u64("b");
    const double filling = vc_real("filling"), kf = vc_real("kf");
    vc_assume(0 < n && n <= MAXN && a < n && b < n && 0 <= filling && filling <= 1 && vc_small(n, 40));
    const Chain l(n);
    const Value1D v(l, filling, kf);
    vc_assert(vc_near(v(a, b), formula(filling, kf, l.dx(), ring(n, a, b))), "the value is the formula of the ring distance");
}
// the table against any distances a lattice of this size can have (C10: they are the ring distances)
struct Distances : Square {
    uint64_t x, y;
    Distances(uint64_t nx, uint64_t ny, uint64_t dist_x, uint64_t dist_y) : Square(nx, ny, 1., 1.), x(dist_x), y(dist_y) {}
    uint64_t lattice_distance_x(const uint64_t&, const uint64_t&) const { return x; }
    uint64_t lattice_distance_y(const uint64_t&, const uint64_t&) const { return y; }
};
VC_PROP(square_distances)
{
    vc_threads();
    const uint64_t nx = vc_u64("nx"), ny = vc_u64("ny"), a = vc_u64("a"), b = vc_u64("b");
    vc_assume(0 < nx && nx <= 1000 && 0 < ny && ny <= 1000 && vc_small(nx, 12) && vc_small(ny, 12));
    const Distances l(nx, ny, vc_u64("x"), vc_u64("y"));
    vc_assume(a < nx * ny && b < nx * ny && l.x <= nx / 2 && l.y <= ny / 2);
    const models::hubbard_real_space::ExpectationValue2DHalfFilled<double, Distances> v(l);
    vc_assert(vc_near(v(a, b), formula(l.x, l.y)), "the value is the formula of the distances");
}
VC_PROP(square)
{
    vc_threads();
    const uint64_t nx = vc_u64("nx"), ny = vc_u64("ny"), ax = vc_u64("ax"), ay = vc_u64("ay"), bx = vc_u64("bx"), by = vc_u64("by");
    vc_assume(0 < nx && nx <= 1000 && 0 < ny && ny <= 1000 && ax < nx && bx < nx && ay < ny && by < ny && vc_small(nx, 12) && vc_small(ny, 12));
    const Square l(nx, ny, 1., 1.);
    const Value2D v(l);
    const uint64_t a = l.index(ax, ay), b = l.index(bx, by);
    vc_assert(vc_near(v(a, b), formula(ring(nx, ax, bx), ring(ny, ay, by))), "the value is the formula of the distances");
}
VC_PROP(square_symmetric)
{
    vc_threads();
    const uint64_t nx = vc_u64("nx"), ny = vc_u64("ny"), ax = vc_u64("ax"), ay = vc_u64("ay"), bx = vc_u64("bx"), by = vc_u64("by");
    vc_assume(0 < nx && nx <= 1000 && 0 < ny && ny <= 1000 && ax < nx && bx < nx && ay < ny && by < ny && vc_small(nx, 12) && vc_small(ny, 12));
    const Square l(nx, ny, 1., 1.);
    const Value2D v(l);
    vc_assert(v(l.index(ax, ay), l.index(bx, by)) == v(l.index(bx, by), l.index(ax, ay)), "the value is symmetric");
}
VC_PROP(square_translation)
{
    vc_threads();
    const uint64_t nx = vc_u64("nx"), ny = vc_u64("ny"), ax = vc_u64("ax"), ay = vc_u64("ay"), bx = vc_u64("bx"), by = vc_u64("by"), tx = vc_u64("tx"), ty = vc_u64("ty");
    vc_assume(0 < nx && nx <= 1000 && 0 < ny && ny <= 1000 && ax < nx && bx < nx && tx < nx && ay < ny && by < ny && ty < ny && vc_small(nx, 12) && vc_small(ny, 12));
    const Square l(nx, ny, 1., 1.);
    const Value2D v(l);
    vc_assert(v(l.index(moved(nx, ax, tx), moved(ny, ay, ty)), l.index(moved(nx, bx, tx), moved(ny, by, ty))) == v(l.index(ax, ay), l.index(bx, by)), "the value is translation invariant");
}
