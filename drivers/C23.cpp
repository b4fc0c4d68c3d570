// C23: sorting and merging of triplet lists
#include <cassert>
#include <cmath>
#include <complex>
#include <limits>
#include <type_traits>
#include "ieompp/types/number.hpp"
#include "ieompp/types/triplet.hpp"

#include "vc.hpp"

using namespace ieompp;
using C = std::complex<double>;
template <typename T>
using Triplet = types::Triplet<T, uint64_t>;
template <typename T>
using List = types::TripletList<T, uint64_t>;

static const double eps = std::numeric_limits<double>::epsilon();
static double mag(double x) { return x < 0. ? -x : x; }
static bool vanishes(double x) { return mag(x) < eps; }
static bool vanishes(const C& x) { return vanishes(x.real()) && vanishes(x.imag()); }

#ifndef VC_SYMBOLIC
namespace ieompp
{
    namespace types
    {
        template <typename S, typename I>
        bool operator==(const Triplet<S, I>& a, const Triplet<S, I>& b)
        {
            return a.row == b.row && a.column == b.column && a.value == b.value;
        }
    } // namespace types
} // namespace ieompp
#endif
using TR = types::Triplet<double, uint64_t>;
using TC = types::Triplet<C, uint64_t>;
VC_REFLECT_GEN(TR, TR(vc_any<uint64_t>((n + ".row").c_str()), vc_any<uint64_t>((n + ".column").c_str()), vc_any<double>((n + ".value").c_str())))
VC_REFLECT_GEN(TC, TC(vc_any<uint64_t>((n + ".row").c_str()), vc_any<uint64_t>((n + ".column").c_str()), vc_any<C>((n + ".value").c_str())))

template <typename T>
static List<T> list(const std::vector<Triplet<T>>& v)
{
    List<T> l;
    l.assign(v.begin(), v.end());
    return l;
}

template <typename T>
static void sort()
{
    const std::vector<Triplet<T>> v = vc_seq<Triplet<T>>("list");
    vc_assume(vc_forall(v.size(), [&](uint64_t i) { return vc_small(v[i].column, 4); }));
    List<T> l = list(v);
    l.sort();
    vc_assert(vc_forall(l.size(), [&](uint64_t i) { return i == 0 || l[i - 1].column <= l[i].column; }), "sorting orders by column");
    vc_assert(vc_is_perm(v, l), "sorting keeps the triplets");
}
VC_PROP(sort_real) { sort<double>(); }
VC_PROP(sort_complex) { sort<C>(); }

template <typename V>
static bool ordered(const V& v)
{
    return vc_forall(v.size(), [&](uint64_t i) { return vc_forall(i, [&](uint64_t j) { return v[j].column <= v[i].column; }); });
}
template <typename T>
static void merge()
{
    const std::vector<Triplet<T>> v = vc_seq<Triplet<T>>("list");
    const uint64_t c                = vc_u64("c");
    const uint64_t n                = v.size();
    vc_assume(vc_small(c, 4) && vc_forall(n, [&](uint64_t i) { return vc_small(v[i].column, 4); }));
    vc_assume(ordered(v));
    const List<T> l = list(v);
    const List<T> r = l.make_columns_unique();
    vc_assert(vc_forall(r.size(), [&](uint64_t i) { return i == 0 || r[i - 1].column < r[i].column; }), "merged columns are strictly increasing");
    const T given  = vc_sum(n, [&](uint64_t i) { return v[i].column == c ? v[i].value : T(0); });
    const T merged = vc_sum(r.size(), [&](uint64_t i) { return r[i].column == c ? r[i].value : T(0); });
    const bool has = vc_exists(r.size(), [&](uint64_t i) { return r[i].column == c; });
    const bool had = vc_exists(n, [&](uint64_t i) { return v[i].column == c; });
    vc_assert(!has || had, "merging adds no column");
    vc_assert(!has || vc_near(merged, given), "a merged value is the sum of the values given for its column");
    vc_assert(has || vanishes(given), "only columns whose values add up to zero are dropped");
    vc_assert(!l.empty() || r.empty(), "merging the empty list gives the empty list");
    vc_assert(r.has_unique_columns(), "the merged list has unique columns");
}
VC_PROP(merge_real) { merge<double>(); }
VC_PROP(merge_complex) { merge<C>(); }

VC_PROP(rows)
{
    const std::vector<TR> v = vc_seq<TR>("list");
    const uint64_t row      = vc_u64("row");
    vc_assume(vc_forall(v.size(), [&](uint64_t i) { return v[i].row == row; }));
    vc_assume(ordered(v));
    const List<double> r = list(v).make_columns_unique();
    vc_assert(vc_forall(r.size(), [&](uint64_t i) { return r[i].row == row; }), "merging keeps the row");
}

template <typename T>
static void unique()
{
    const std::vector<Triplet<T>> v = vc_seq<Triplet<T>>("list");
    vc_assume(vc_forall(v.size(), [&](uint64_t i) { return vc_small(v[i].column, 4); }));
    const List<T> l = list(v);
    vc_assert(l.has_unique_columns() == vc_forall(v.size(), [&](uint64_t i) { return i == 0 || v[i - 1].column != v[i].column; }), "columns are unique exactly when no two neighbouring triplets share one");
}
VC_PROP(unique_real) { unique<double>(); }
VC_PROP(unique_complex) { unique<C>(); }
