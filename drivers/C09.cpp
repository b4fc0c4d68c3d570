// C09: periodic chain: positions and site lookup
#include "ieompp/lattices/periodic_chain.hpp"

#include "vc.hpp"

using namespace ieompp;
using Chain = lattices::PeriodicChain<double, uint64_t>;

#define MAXN 1000000000u

// Every position is x_min + (i + e) dx + m L for a site i, a whole number m of chain lengths L
// and an offset e of at most half a spacing.
struct Place {
    uint64_t n, i;
    int64_t m;
    double e;
};
static Place place()
{
    Place p{vc_u64("n"), vc_u64("i"), vc_i64("m"), vc_real("e")};
    vc_assume(0 < p.n && p.n <= MAXN && p.i < p.n && -1000000 < p.m && p.m < 1000000 && -0.5 < p.e && p.e < 0.5);
    vc_assume(vc_small(p.n, 60) && vc_small(p.m < 0 ? -p.m : p.m, 50));
    return p;
}
static double at(const Chain& l, const Place& p) { return l.x_min() + (double(p.i) + p.e) * l.dx() + double(p.m) * double(p.n) * l.dx(); }

VC_PROP(positions)
{
    const uint64_t n = vc_u64("n"), i = vc_u64("i");
    const double dx = vc_real("dx");
    vc_assume(0 < n && n <= MAXN && i < n && 0 < dx);
    const Chain k(n), x(n, dx);
    vc_assert(vc_near(k[i], k.x_min() + double(i) * k.dx()), "position in the momentum zone");
    vc_assert(vc_near(x[i], x.x_min() + double(i) * x.dx()), "position on the chain");
    vc_assert(vc_near(k[i], -vc_pi() + double(i) * 2 * vc_pi() / double(n)), "momenta are equidistant from -pi on");
    vc_assert(vc_near(x[i], double(i) * dx), "sites are equidistant from zero on");
    vc_assert(k(k[i]) == i, "looking up the position of a momentum gives the momentum");
    vc_assert(x(x[i]) == i, "looking up the position of a site gives the site");
}
VC_PROP(lookup_momentum)
{
    const Place p = place();
    const Chain l(p.n);
    vc_assert(l(at(l, p)) == p.i, "a position is mapped to the site half a spacing around it, periodically");
}
VC_PROP(lookup_real)
{
    const Place p = place();
    const double dx = vc_real("dx");
    vc_assume(0 < dx);
    const Chain l(p.n, dx);
    vc_assert(l(at(l, p)) == p.i, "a position is mapped to the site half a spacing around it, periodically");
}
VC_PROP(any_position)
{
    const uint64_t n = vc_u64("n");
    const double v = vc_real("v"), dx = vc_real("dx");
    vc_assume(0 < n && n <= MAXN && 0 < dx && vc_small(n, 60) && (vc_small(0, 0) ? true : true));
    vc_assume(vc_small(dx < 0.01 ? 1 : 0, 0));
    const Chain l(n, dx), k(n);
    vc_assert(l(v) < n && k(v) < n, "every position is mapped to a valid site");
}
VC_PROP(search_momentum)
{
    const Place p = place();
    const Chain l(p.n);
    vc_assert(l.closest(at(l, p)) == p.i, "the search finds the site half a spacing around the position");
}
VC_PROP(search_real)
{
    const Place p = place();
    const double dx = vc_real("dx");
    vc_assume(0 < dx);
    const Chain l(p.n, dx);
    vc_assert(l.closest(at(l, p)) == p.i, "the search finds the site half a spacing around the position");
}
