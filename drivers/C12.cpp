// C12: tight-binding dispersion
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/models/hubbard/dispersion.hpp"

#include "vc.hpp"

using namespace ieompp;
using Chain = lattices::PeriodicChain<double, uint64_t>;
using Square = lattices::PeriodicSquareLattice<double, uint64_t>;
using Disp = models::hubbard::Dispersion<double>;

#define MAXN 1000000000u

// momenta and lattice vectors of any number and value, in one and in two dimensions
struct AnyZone {
    using Float = double;
    using SiteIndex = uint64_t;
    std::vector<double> k;
    uint64_t size() const { return k.size(); }
    double operator[](uint64_t i) const { return k[i]; }
};
struct AnyLattice {
    std::vector<double> v;
    const std::vector<double>& lattice_vectors() const { return v; }
};
using V2 = blaze::StaticVector<double, 2ul, blaze::columnVector>;
struct AnyZone2 {
    using Float = double;
    using SiteIndex = uint64_t;
    std::vector<V2> k;
    uint64_t size() const { return k.size(); }
    V2 operator[](uint64_t i) const { return k[i]; }
};
struct AnyLattice2 {
    std::vector<V2> v;
    const std::vector<V2>& lattice_vectors() const { return v; }
};
VC_REFLECT_GEN(V2, V2(draw<double>(n + "._v[0]"), draw<double>(n + "._v[1]")))

VC_PROP(any_lattice)
{
    const AnyZone z{vc_seq<double>("k")};
    const AnyLattice l{vc_seq<double>("v")};
    const double J = vc_real("J");
    const uint64_t i = vc_u64("i");
    vc_assume(i < z.size());
    vc_threads();
    const Disp d(z, l, J);
    const double e = d(i);
    vc_assert(vc_near(e, -2. * J * vc_sum(l.v.size(), [&](uint64_t j) { return vc_cos(z.k[i] * l.v[j]); })), "the dispersion is -2J times the sum of the cosines over the lattice vectors");
    const double b = 2. * (J < 0 ? -J : J) * double(l.v.size());
    vc_assert(e <= b + 1e-9 * b && -b - 1e-9 * b <= e, "the dispersion is within 2|J| times the number of lattice vectors");
}
VC_PROP(any_lattice_made)
{
    const AnyZone z{vc_seq<double>("k")};
    const AnyLattice l{vc_seq<double>("v")};
    const double J = vc_real("J");
    const uint64_t i = vc_u64("i");
    vc_assume(i < z.size());
    vc_threads();
    const auto d = models::hubbard::make_dispersion(z, l, J);
    vc_assert(vc_near(d(i), -2. * J * vc_sum(l.v.size(), [&](uint64_t j) { return vc_cos(z.k[i] * l.v[j]); })), "make_dispersion makes the dispersion");
    const auto d1 = models::hubbard::make_dispersion(z, l);
    vc_assert(vc_near(d1(i), -2. * vc_sum(l.v.size(), [&](uint64_t j) { return vc_cos(z.k[i] * l.v[j]); })), "the hopping is one unless given");
}
VC_PROP(any_plane_lattice)
{
    const AnyZone2 z{vc_seq<V2>("k")};
    const AnyLattice2 l{vc_seq<V2>("v")};
    const double J = vc_real("J");
    const uint64_t i = vc_u64("i");
    vc_assume(i < z.size());
    vc_threads();
    const Disp d(z, l, J);
    vc_assert(vc_near(d(i), -2. * J * vc_sum(l.v.size(), [&](uint64_t j) { return vc_cos(z.k[i][0] * l.v[j][0] + z.k[i][1] * l.v[j][1]); })), "the dispersion is -2J times the sum of the cosines over the lattice vectors");
}
VC_PROP(chain)
{
    const uint64_t n = vc_u64("n"), i = vc_u64("i");
    const double J = vc_real("J"), dx = vc_real("dx");
    vc_assume(0 < n && n <= MAXN && i < n && 0 < dx && vc_small(n, 200));
    vc_threads();
    const Chain zone(n), l(n, dx);
    const Disp d(zone, l, J);
    const double e = d(i);
    vc_assert(vc_near(e, -2. * J * vc_cos(zone[i] * dx)), "the dispersion of a chain is -2J cos(k dx)");
    const double b = 2. * (J < 0 ? -J : J);
    vc_assert(e <= b + 1e-9 * b && -b - 1e-9 * b <= e, "the dispersion of a chain is within 2|J|");
}
VC_PROP(square)
{
    const uint64_t nx = vc_u64("nx"), ny = vc_u64("ny"), ix = vc_u64("ix"), iy = vc_u64("iy");
    const double J = vc_real("J"), dx = vc_real("dx"), dy = vc_real("dy");
    vc_assume(0 < nx && nx <= MAXN && ix < nx && 0 < ny && ny <= MAXN && iy < ny && 0 < dx && 0 < dy && vc_small(nx, 20) && vc_small(ny, 20));
    vc_threads();
    const Square zone(nx, ny), l(nx, ny, dx, dy);
    const Disp d(zone, l, J);
    const uint64_t i = zone.index(ix, iy);
    const double e = d(i);
    vc_assert(vc_near(e, -2. * J * (vc_cos((zone.x_min() + double(ix) * zone.dx()) * dx) + vc_cos((zone.y_min() + double(iy) * zone.dy()) * dy))), "the dispersion of a square lattice is -2J (cos(kx dx) + cos(ky dy))");
    const double b = 4. * (J < 0 ? -J : J);
    vc_assert(e <= b + 1e-9 * b && -b - 1e-9 * b <= e, "the dispersion of a square lattice is within 4|J|");
}
VC_PROP(fermi_momentum)
{
    const double f = vc_real("f");
    vc_assert(vc_near(models::hubbard::calculate_fermi_momentum_1d(f), f * vc_pi()), "the Fermi momentum is the filling factor times pi");
}
