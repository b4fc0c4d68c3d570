// C25: numeric helpers
#include <complex>
#include <cmath>
#include <limits>
#include <type_traits>
#include <cstdlib>
#include "ieompp/types/number/complex.hpp"
#include "ieompp/types/number/is_equal.hpp"
#include "ieompp/types/number/is_zero.hpp"
#include "ieompp/types/dot_product.hpp"

#include "vc.hpp"

using namespace ieompp;
using C = std::complex<double>;
using types::IsEqual;
using types::IsZero;

static const double eps = std::numeric_limits<double>::epsilon();
static double mag(double x) { return x < 0. ? -x : x; }
// reals whose sums and products are exact enough in a concrete run
static double real(const char* n)
{
    const double x = vc_real(n);
    vc_assume(vc_small(mag(x) > 1e6, 0));
    return x;
}
static C cplx(const char* n)
{
    const C x = vc_cplx(n);
    vc_assume(vc_small(mag(x.real()) > 1e6 || mag(x.imag()) > 1e6, 0));
    return x;
}

VC_PROP(conjugates)
{
    const C z = cplx("z");
    const C c = types::conjugate(z);
    vc_assert(c.real() == z.real() && c.imag() == -z.imag(), "conjugation negates the imaginary part only");
    vc_assert(types::conjugate(c) == z, "conjugation is an involution");
    const double x = vc_real("x");
    vc_assert(types::conjugate(x) == x, "reals are their own conjugates");
    const int64_t i = vc_i64("i");
    vc_assert(types::conjugate(i) == i, "integers are their own conjugates");
    const std::complex<float> f(vc_any<float>("fr"), vc_any<float>("fi"));
    vc_assert(types::conjugate(f).real() == f.real() && types::conjugate(f).imag() == -f.imag(), "conjugation of single precision numbers");
}
VC_PROP(products)
{
    const C a = cplx("a"), b = cplx("b");
    const C p = types::multiply_with_conjugate(a, b);
    vc_assert(vc_near(p, C(a.real() * b.real() + a.imag() * b.imag(), a.imag() * b.real() - a.real() * b.imag())), "multiply_with_conjugate is a * conj(b)");
    vc_assert(vc_near(p, a * types::conjugate(b)), "multiply_with_conjugate is the product with the conjugate");
    const double s = types::add_conjugate_products(a, b);
    vc_assert(vc_near(s, 2 * (a.real() * b.real() + a.imag() * b.imag())), "add_conjugate_products is a * conj(b) + conj(a) * b");
    vc_assert(vc_near(C(s, 0.), a * types::conjugate(b) + types::conjugate(a) * b), "add_conjugate_products is the sum of both products");
    vc_assert(vc_near(s, types::add_conjugate_products(b, a)), "add_conjugate_products is symmetric");
}
VC_PROP(equal_integers)
{
    const uint64_t a = vc_u64("a"), b = vc_u64("b");
    vc_assert(IsEqual(a, b) == (a == b) && IsZero(a) == (a == 0), "unsigned integers are compared exactly");
    const int64_t c = vc_i64("c"), d = vc_i64("d");
    vc_assert(IsEqual(c, d) == (c == d) && IsZero(c) == (c == 0), "integers are compared exactly");
    const int32_t e = vc_any<int32_t>("e"), f = vc_any<int32_t>("f");
    vc_assert(IsEqual(e, f) == (e == f) && IsZero(e) == (e == 0), "integers are compared exactly");
    const bool g = vc_bool("g"), h = vc_bool("h");
    vc_assert(IsEqual(g, h) == (g == h) && IsZero(g) == !g, "flags are compared exactly");
}
VC_PROP(equal_reals)
{
    const double a = real("a"), b = real("b"), t = real("t");
    vc_assert(IsEqual(a, b) == (mag(a - b) < eps), "reals are equal up to machine epsilon");
    vc_assert(IsEqual(a, b, t) == (mag(a - b) < t + eps), "reals are equal up to the tolerance and machine epsilon");
    vc_assert(IsZero(a) == IsEqual(a, 0.) && IsZero(a, t) == IsEqual(a, 0., t), "the zero test is comparison with zero");
    vc_assert(IsZero(a) == (mag(a) < eps) && IsZero(a, t) == (mag(a) < t + eps), "zero up to the tolerance");
    vc_assert(IsEqual(a, b) == IsEqual(b, a) && IsEqual(a, b, t) == IsEqual(b, a, t), "comparison is symmetric");
    vc_assert(IsZero(a) == IsZero(-a), "the zero test ignores the sign");
    vc_assert(IsEqual(a, a) && IsZero(0.), "a number equals itself");
}
VC_PROP(close_reals)
{
    // differences around machine epsilon
    const double a = vc_u64("a") % 5 == 0 ? 0. : 1., b = a + eps * double(vc_u64("n") % 8) / 2. - eps;
    vc_assert(IsEqual(a, b) == (mag(a - b) < eps), "reals are equal up to machine epsilon");
    vc_assert(IsEqual(b, a) == (mag(a - b) < eps), "reals are equal up to machine epsilon");
    vc_assert(IsZero(a - b) == (mag(a - b) < eps), "zero up to machine epsilon");
}
VC_PROP(equal_floats)
{
    const float a = vc_any<float>("a"), b = vc_any<float>("b"), t = vc_any<float>("t");
    const float e = std::numeric_limits<float>::epsilon();
    vc_assume(vc_small(a > 1e3f || a < -1e3f || b > 1e3f || b < -1e3f || t > 1e3f || t < -1e3f, 0));
    const float d = a < b ? b - a : a - b, m = a < 0 ? -a : a;
    vc_assert(IsEqual(a, b) == (d < e) && IsEqual(a, b, t) == (d < t + e), "single precision numbers are equal up to their machine epsilon");
    vc_assert(IsZero(a) == (m < e) && IsZero(a, t) == (m < t + e), "single precision numbers are zero up to their machine epsilon");
}
VC_PROP(equal_complex)
{
    const C a = cplx("a"), b = cplx("b");
    const double t = real("t");
    const double x = mag(a.real() - b.real()), y = mag(a.imag() - b.imag());
    vc_assert(IsEqual(a, b) == (x < eps && y < eps), "complex numbers are equal if both components are");
    vc_assert(IsEqual(a, b, t) == (x < t + eps && y < t + eps), "complex numbers are equal if both components are");
    vc_assert(IsZero(a) == IsEqual(a, C(0., 0.)) && IsZero(a, t) == IsEqual(a, C(0., 0.), t), "the zero test is comparison with zero");
    vc_assert(IsZero(a) == (mag(a.real()) < eps && mag(a.imag()) < eps), "zero if both components are");
    vc_assert(IsZero(a, t) == (mag(a.real()) < t + eps && mag(a.imag()) < t + eps), "zero if both components are");
    vc_assert(IsEqual(a, b) == IsEqual(b, a) && IsEqual(a, b, t) == IsEqual(b, a, t), "comparison is symmetric");
}
VC_PROP(dot)
{
    const double a = vc_real("a"), b = vc_real("b");
    vc_assert(vc_near(types::dot_product(a, b), a * b), "the product of numbers");
    const uint64_t m = vc_u64("m"), n = vc_u64("n");
    vc_assert(types::dot_product(m, n) == m * n, "the product of numbers");
}
