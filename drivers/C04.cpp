// C04: anticommutator of two operators
#include "ieompp/algebra/anticommutator.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/algebra/term.hpp"
#include "ieompp/symbolic/prefactor.hpp"

#include "vc.hpp"

using namespace ieompp;
using algebra::Kronecker;
using Pre = symbolic::Prefactor<double>;
using N1 = algebra::Operator<uint64_t>;
using N2 = algebra::Operator<uint64_t, bool>;
using N3 = algebra::Operator<uint64_t, bool, int64_t>;
using S1 = algebra::Operator<std::string>;
using S2 = algebra::Operator<std::string, bool>;
using R2 = algebra::Operator<uint64_t, std::string>;
using SS = algebra::Operator<std::string, std::string>;
using S3 = algebra::Operator<std::string, bool, std::string>;
using S4 = algebra::Operator<std::string, std::string, bool, std::string>;

VC_REFLECT(Kronecker, a, b)

// the deltas expected after those of `before`: (x,y) for every pair that differs, in order
template <typename Op>
void deltas(const Op& op1, const Op& op2, const std::vector<std::string>& x, const std::vector<std::string>& y)
{
    const std::vector<Kronecker> before = vc_seq<Kronecker>("before");
    const double value = vc_real("value");
    Pre p{value, before};
    const Op c1 = op1, c2 = op2;
    algebra::anticommutator<algebra::Term<Pre, Op>>(op1, op2, p);
    std::vector<Kronecker> want(before);
    for(uint64_t i = 0; i < x.size(); ++i)
        if(!vc_same(x[i], y[i])) want.push_back(Kronecker{x[i], y[i]});
    vc_assert(vc_same(p.kroneckers, want), "exactly one delta per differing symbolic position, in index order");
    vc_assert(vc_same(p.value, value), "the number is unchanged");
    vc_assert(op1 == c1 && op2 == c2, "the operators are unchanged");
}

template <typename Op>
Op mk(bool c, const typename algebra::IndexType<0, Op>::Type& i)
{
    return c ? Op::make_creator(i) : Op::make_annihilator(i);
}
template <typename Op, typename I, typename J>
Op mk(bool c, const I& i, const J& j)
{
    return c ? Op::make_creator(i, j) : Op::make_annihilator(i, j);
}

VC_PROP(numeric_1)
{
    const bool ca = vc_bool("ca"), cb = vc_bool("cb");
    const uint64_t i = vc_u64("i"), j = vc_u64("j");
    const N1 a = mk<N1>(ca, i), b = mk<N1>(cb, j);
    vc_assert(!algebra::IsSymbolicOperator<N1>::value, "not symbolic");
    vc_assert(algebra::anticommutates(a, b) == (ca == cb || i != j), "vanishes exactly for equal kinds or different indices");
    deltas(a, b, {}, {});
}
VC_PROP(numeric_2)
{
    const bool ca = vc_bool("ca"), cb = vc_bool("cb"), s = vc_bool("s"), t = vc_bool("t");
    const uint64_t i = vc_u64("i"), j = vc_u64("j");
    const N2 a = mk<N2>(ca, i, s), b = mk<N2>(cb, j, t);
    vc_assert(!algebra::IsSymbolicOperator<N2>::value, "not symbolic");
    vc_assert(algebra::anticommutates(a, b) == (ca == cb || i != j || s != t), "vanishes exactly for equal kinds or different indices");
    deltas(a, b, {}, {});
}
VC_PROP(numeric_3)
{
    const bool ca = vc_bool("ca"), cb = vc_bool("cb"), s = vc_bool("s"), t = vc_bool("t");
    const uint64_t i = vc_u64("i"), j = vc_u64("j");
    const int64_t p = vc_i64("p"), q = vc_i64("q");
    const N3 a = ca ? N3::make_creator(i, s, p) : N3::make_annihilator(i, s, p);
    const N3 b = cb ? N3::make_creator(j, t, q) : N3::make_annihilator(j, t, q);
    vc_assert(algebra::anticommutates(a, b) == (ca == cb || i != j || s != t || p != q), "vanishes exactly for equal kinds or different indices");
    deltas(a, b, {}, {});
}
VC_PROP(symbolic_1)
{
    const bool ca = vc_bool("ca"), cb = vc_bool("cb");
    const std::string x = vc_name("x"), y = vc_name("y");
    const S1 a = mk<S1>(ca, x), b = mk<S1>(cb, y);
    vc_assert(algebra::IsSymbolicOperator<S1>::value, "symbolic");
    vc_assert(algebra::anticommutates(a, b) == (ca == cb), "vanishes exactly for equal kinds");
    deltas(a, b, {x}, {y});
}
VC_PROP(symbolic_2)
{
    const bool ca = vc_bool("ca"), cb = vc_bool("cb"), s = vc_bool("s"), t = vc_bool("t");
    const std::string x = vc_name("x"), y = vc_name("y");
    const S2 a = mk<S2>(ca, x, s), b = mk<S2>(cb, y, t);
    vc_assert(algebra::IsSymbolicOperator<S2>::value, "symbolic");
    vc_assert(algebra::anticommutates(a, b) == (ca == cb || s != t), "vanishes exactly for equal kinds or different flags");
    deltas(a, b, {x}, {y});
}
VC_PROP(symbolic_2_reversed)
{
    const bool ca = vc_bool("ca"), cb = vc_bool("cb");
    const std::string x = vc_name("x"), y = vc_name("y");
    const uint64_t i = vc_u64("i"), j = vc_u64("j");
    const R2 a = mk<R2>(ca, i, x), b = mk<R2>(cb, j, y);
    vc_assert(algebra::IsSymbolicOperator<R2>::value, "symbolic");
    vc_assert(algebra::anticommutates(a, b) == (ca == cb || i != j), "vanishes exactly for equal kinds or different numbers");
    deltas(a, b, {x}, {y});
}
VC_PROP(symbolic_both)
{
    const bool ca = vc_bool("ca"), cb = vc_bool("cb");
    const std::string x = vc_name("x"), y = vc_name("y"), u = vc_name("u"), v = vc_name("v");
    const SS a = mk<SS>(ca, x, u), b = mk<SS>(cb, y, v);
    vc_assert(algebra::anticommutates(a, b) == (ca == cb), "vanishes exactly for equal kinds");
    deltas(a, b, {x, u}, {y, v});
}
VC_PROP(symbolic_3)
{
    const bool ca = vc_bool("ca"), cb = vc_bool("cb"), s = vc_bool("s"), t = vc_bool("t");
    const std::string x = vc_name("x"), y = vc_name("y"), u = vc_name("u"), v = vc_name("v");
    const S3 a = ca ? S3::make_creator(x, s, u) : S3::make_annihilator(x, s, u);
    const S3 b = cb ? S3::make_creator(y, t, v) : S3::make_annihilator(y, t, v);
    vc_assert(algebra::anticommutates(a, b) == (ca == cb || s != t), "vanishes exactly for equal kinds or different flags");
    deltas(a, b, {x, u}, {y, v});
}
VC_PROP(symbolic_4)
{
    const bool ca = vc_bool("ca"), cb = vc_bool("cb"), s = vc_bool("s"), t = vc_bool("t");
    const std::string x = vc_name("x"), y = vc_name("y"), u = vc_name("u"), v = vc_name("v"), p = vc_name("p"), q = vc_name("q");
    const S4 a = ca ? S4::make_creator(x, u, s, p) : S4::make_annihilator(x, u, s, p);
    const S4 b = cb ? S4::make_creator(y, v, t, q) : S4::make_annihilator(y, v, t, q);
    vc_assert(algebra::anticommutates(a, b) == (ca == cb || s != t), "vanishes exactly for equal kinds or different flags");
    deltas(a, b, {x, u, p}, {y, v, q});
}
VC_PROP(symbolic_position)
{
    vc_assert(algebra::IsSymbolicIndex<0, S3>::value && !algebra::IsSymbolicIndex<1, S3>::value && algebra::IsSymbolicIndex<2, S3>::value, "symbolic positions");
    const std::string x = vc_name("x"), y = vc_name("y");
    const Kronecker k = algebra::make_kronecker(x, y);
    vc_assert(vc_same(k.a, x) && vc_same(k.b, y), "make_kronecker");
}
