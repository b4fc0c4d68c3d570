// C26: matrix predicates and function matrices
#include <cassert>
#include <cmath>
#include <complex>
#include <limits>
#include <type_traits>
#include "ieompp/types/number.hpp"
#include "ieompp/types/function_matrix.hpp"
#include "ieompp/types/matrix_check.hpp"
#include "ieompp/types/blaze/traits.hpp"

#include "vc.hpp"

using namespace ieompp;
using C = std::complex<double>;
using types::FunctionMatrix;

static const double eps = std::numeric_limits<double>::epsilon();
static double mag(double x) { return x < 0. ? -x : x; }
static bool equal(double a, double b) { return mag(a - b) < eps; }
static bool equal(const C& a, const C& b) { return equal(a.real(), b.real()) && equal(a.imag(), b.imag()); }
static double conj_of(double a) { return a; }
static C conj_of(const C& a) { return C(a.real(), -a.imag()); }

// a stored matrix: any table of entries with the interface the traits describe
template <typename T>
struct Table {
    uint64_t n, m;
    std::function<T(uint64_t, uint64_t)> entry;
    uint64_t rows() const { return n; }
    uint64_t cols() const { return m; }
    T operator()(uint64_t i, uint64_t j) const { return entry(i, j); }
};
namespace ieompp
{
    namespace types
    {
        template <typename T>
        struct IsMatrix<Table<T>> {
            static constexpr bool value = true;
        };
        template <typename T>
        struct IndexType<Table<T>> {
            using Type = uint64_t;
        };
        template <typename T>
        struct ScalarType<Table<T>> {
            using Type = T;
        };
        template <typename T>
        struct MatrixDimensionInfo<Table<T>> {
            static uint64_t rows(const Table<T>& m) { return m.n; }
            static uint64_t columns(const Table<T>& m) { return m.m; }
        };
    } // namespace types
} // namespace ieompp

template <typename T>
static Table<T> table(const char* n, const char* m, const char* f)
{
    Table<T> t;
    t.n     = vc_u64(n);
    t.m     = vc_u64(m);
    t.entry = vc_fun<T(uint64_t, uint64_t)>(f);
    vc_assume(vc_small(t.n, 4) && vc_small(t.m, 4));
    return t;
}

// the predicates, written out over all pairs of indices
template <typename F>
static bool all_entries(uint64_t n, uint64_t m, F f)
{
    return vc_forall(n, [&](uint64_t i) { return vc_forall(m, [&](uint64_t j) { return f(i, j); }); });
}
template <typename T>
static bool symmetric(const Table<T>& t)
{
    return t.n == t.m && all_entries(t.n, t.n, [&](uint64_t i, uint64_t j) { return equal(t.entry(i, j), t.entry(j, i)); });
}
template <typename T>
static bool hermitian(const Table<T>& t)
{
    return t.n == t.m && all_entries(t.n, t.n, [&](uint64_t i, uint64_t j) { return equal(t.entry(i, j), conj_of(t.entry(j, i))); });
}
template <typename T>
static bool zero(const Table<T>& t)
{
    return all_entries(t.n, t.m, [&](uint64_t i, uint64_t j) { return equal(t.entry(i, j), T(0)); });
}
template <typename T>
static bool same_matrix(const Table<T>& a, const Table<T>& b)
{
    return a.n == b.n && a.m == b.m && all_entries(a.n, a.m, [&](uint64_t i, uint64_t j) { return equal(a.entry(i, j), b.entry(i, j)); });
}

template <typename T>
static void stored()
{
    const Table<T> t = table<T>("n", "m", "entry");
    vc_assert(types::is_quadratic(t) == (t.n == t.m), "a stored matrix is quadratic exactly when it is square");
    vc_assert(types::is_symmetric(t) == symmetric(t), "a stored matrix is symmetric exactly when M(i,j) = M(j,i)");
    vc_assert(types::is_hermitian(t) == hermitian(t), "a stored matrix is Hermitian exactly when M(i,j) = conj(M(j,i))");
    vc_assert(types::IsZero(t) == zero(t), "a stored matrix is zero exactly when all entries vanish");
}
VC_PROP(stored_real) { stored<double>(); }
VC_PROP(stored_complex) { stored<C>(); }

template <typename T>
static void function()
{
    const Table<T> t = table<T>("n", "m", "entry");
    const FunctionMatrix<T, uint64_t> f(t.n, t.m, t.entry);
    vc_assert(f.rows() == t.n && f.cols() == t.m, "a function matrix has the given shape");
    const uint64_t i = vc_u64("i"), j = vc_u64("j");
    vc_assert(f(i, j) == t.entry(i, j), "a function matrix evaluates its function at the requested entry");
    vc_assert(types::is_quadratic(f) == (t.n == t.m), "a function matrix is quadratic exactly when it is square");
    vc_assert(types::is_symmetric(f) == symmetric(t), "a function matrix is symmetric exactly when M(i,j) = M(j,i)");
    vc_assert(types::is_hermitian(f) == hermitian(t), "a function matrix is Hermitian exactly when M(i,j) = conj(M(j,i))");
}
VC_PROP(function_real) { function<double>(); }
VC_PROP(function_complex) { function<C>(); }

template <typename T>
static void comparison()
{
    const Table<T> a = table<T>("an", "am", "a"), b = table<T>("bn", "bm", "b");
    const FunctionMatrix<T, uint64_t> f(a.n, a.m, a.entry), g(b.n, b.m, b.entry);
    vc_assert((f == g) == same_matrix(a, b), "function matrices are equal exactly when shape and entries agree");
    vc_assert((f != g) == !same_matrix(a, b), "function matrices are unequal exactly when they are not equal");
    vc_assert((f == b) == same_matrix(a, b), "a function matrix equals a stored matrix exactly when shape and entries agree");
    vc_assert((f != b) == !same_matrix(a, b), "a function matrix differs from a stored matrix exactly when they are not equal");
}
VC_PROP(comparison_real) { comparison<double>(); }
VC_PROP(comparison_complex) { comparison<C>(); }
