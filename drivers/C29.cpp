// C29: powers of -i in the exact kinetic reference program
//
// The program itself is part of this driver; only its main function is renamed.
#include <cassert>
#include <cstdint>
#define main kinetic_theory_main
#include "../src/hubbard/hubbard_real_1d_kinetic_theory.cpp"
#undef main

#include "vc.hpp"

VC_PROP(powers)
{
    const uint64_t p = vc_u64("p");
    const complex<double> z = minus_i_power(p);
    const double re[] = {1., 0., -1., 0.}, im[] = {0., -1., 0., 1.};
    vc_assert(z.real() == re[p % 4] && z.imag() == im[p % 4], "the phase is (-i)^p");
}
VC_PROP(homomorphism)
{
    const uint64_t p = vc_u64("p"), q = vc_u64("q");
    vc_assume(p <= UINT64_MAX - q);
    vc_assert(minus_i_power(0) == complex<double>(1., 0.) && minus_i_power(1) == complex<double>(0., -1.), "(-i)^0 = 1 and (-i)^1 = -i");
    vc_assert(minus_i_power(p + q) == minus_i_power(p) * minus_i_power(q), "(-i)^(p+q) = (-i)^p (-i)^q");
}
