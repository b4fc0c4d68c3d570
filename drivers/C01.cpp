// C01: ladder operators - equality, conjugation and index access
#include "ieompp/algebra/operator.hpp"

#include "vc.hpp"

using namespace ieompp;
using algebra::get_index;
using algebra::get_indices;
using Op1 = algebra::Operator<uint64_t>;
using Op1s = algebra::Operator<std::string>;
using Op2 = algebra::Operator<uint64_t, bool>;
using Op2s = algebra::Operator<std::string, bool>;
using Op3 = algebra::Operator<uint64_t, bool, std::string>;
using Op4 = algebra::Operator<std::string, int64_t, bool, uint64_t>;

// contract of ==, !=, same_indices, conjugate, get_conjugate, is_conjugate for
// two arbitrary operators a, b; `idx` = "all indices agree" as computed from the
// values the operators were built from
template <typename Op>
void algebra_contract(const Op& a, const Op& b, bool ca, bool cb, bool idx)
{
    vc_assert(a.creator == ca && b.creator == cb, "the factory sets the kind");
    vc_assert((a == b) == (ca == cb && idx), "equal exactly when kind and all indices agree");
    vc_assert((a != b) == !(ca == cb && idx), "unequal is the exact opposite of equal");
    vc_assert(a.same_indices(b) == idx, "same_indices exactly when all indices agree");
    vc_assert(a.is_conjugate(b) == (ca != cb && idx), "is_conjugate exactly for the conjugate");
    const Op c = a.get_conjugate();
    vc_assert(c.creator == !ca, "conjugation flips the kind");
    vc_assert(vc_same(c.index_tuple(), a.index_tuple()), "conjugation keeps the indices");
    vc_assert(vc_same(c.get_conjugate(), a), "conjugating twice gives the operator back");
    vc_assert(a.is_conjugate(c) && c.is_conjugate(a), "an operator's conjugate is its conjugate");
    Op d = a;
    d.conjugate();
    vc_assert(vc_same(d, c), "in-place and copying conjugation agree");
    d.conjugate();
    vc_assert(vc_same(d, a), "conjugating twice in place gives the operator back");
    vc_assert(a.creator == ca, "conjugating a copy leaves the original alone");
}

template <typename Op, typename I>
void one_index(const I& i, const I& j, bool ca, bool cb)
{
    const Op a = ca ? Op::make_creator(i) : Op::make_annihilator(i);
    const Op b = cb ? Op::make_creator(I(j)) : Op::make_annihilator(I(j));
    algebra_contract(a, b, ca, cb, vc_same(i, j));
    vc_assert(vc_same(get_index<0>(a), i) && vc_same(get_index<0>(b), j), "get_index returns the index");
    vc_assert(vc_same(std::get<0>(get_indices(a)), i), "get_indices returns the index");
    vc_assert(vc_same(std::get<0>(b.index_tuple()), j), "index_tuple returns the index");
    vc_assert(vc_same(I(get_index<0>(Op(a))), i), "get_index of a temporary");
    Op m             = a;
    get_index<0>(m) = j;
    vc_assert(m.creator == ca && vc_same(std::get<0>(m.index_tuple()), j), "get_index refers to the index itself");
    const auto f = algebra::make_creator(I(i));
    const auto g = algebra::make_annihilator(I(j));
    vc_assert(f.creator && vc_same(get_index<0>(f), i), "make_creator");
    vc_assert(!g.creator && vc_same(get_index<0>(g), j), "make_annihilator");
}

VC_PROP(one_index_number)
{
    one_index<Op1, uint64_t>(vc_u64("i"), vc_u64("j"), vc_bool("ca"), vc_bool("cb"));
}
VC_PROP(one_index_name)
{
    one_index<Op1s, std::string>(vc_name("i"), vc_name("j"), vc_bool("ca"), vc_bool("cb"));
}

template <typename Op, typename I, typename J>
void two_indices(const I& i, const J& s, const I& j, const J& t, bool ca, bool cb)
{
    const Op a = ca ? Op::make_creator(i, s) : Op::make_annihilator(i, s);
    const Op b = cb ? Op::make_creator(I(j), J(t)) : Op::make_annihilator(I(j), J(t));
    algebra_contract(a, b, ca, cb, vc_same(i, j) && vc_same(s, t));
    vc_assert(vc_same(get_index<0>(a), i) && vc_same(get_index<1>(a), s), "get_index returns the indices in order");
    vc_assert(vc_same(std::get<0>(get_indices(b)), j) && vc_same(std::get<1>(get_indices(b)), t), "get_indices returns the indices in order");
    vc_assert(vc_same(std::get<0>(a.index_tuple()), i) && vc_same(std::get<1>(a.index_tuple()), s), "index_tuple returns the indices in order");
    vc_assert(vc_same(I(get_index<0>(Op(a))), i) && vc_same(J(get_index<1>(Op(a))), s), "get_index of a temporary");
    Op m            = a;
    get_index<0>(m) = j;
    vc_assert(m.creator == ca && vc_same(get_index<0>(m), j) && vc_same(get_index<1>(m), s), "get_index<0> refers to the first index");
    get_index<1>(m) = t;
    vc_assert(m.creator == ca && vc_same(get_index<0>(m), j) && vc_same(get_index<1>(m), t), "get_index<1> refers to the second index");
    const auto f = algebra::make_creator(I(i), J(s));
    const auto g = algebra::make_annihilator(I(j), J(t));
    vc_assert(f.creator && vc_same(get_index<0>(f), i) && vc_same(get_index<1>(f), s), "make_creator");
    vc_assert(!g.creator && vc_same(get_index<0>(g), j) && vc_same(get_index<1>(g), t), "make_annihilator");
}

VC_PROP(two_indices_number)
{
    two_indices<Op2, uint64_t, bool>(vc_u64("i"), vc_bool("s"), vc_u64("j"), vc_bool("t"), vc_bool("ca"), vc_bool("cb"));
}
VC_PROP(two_indices_name)
{
    two_indices<Op2s, std::string, bool>(vc_name("i"), vc_bool("s"), vc_name("j"), vc_bool("t"), vc_bool("ca"), vc_bool("cb"));
}

VC_PROP(three_indices)
{
    const uint64_t i = vc_u64("i"), j = vc_u64("j");
    const bool s = vc_bool("s"), t = vc_bool("t"), ca = vc_bool("ca"), cb = vc_bool("cb");
    const std::string x = vc_name("x"), y = vc_name("y");
    const Op3 a = ca ? Op3::make_creator(i, s, x) : Op3::make_annihilator(i, s, x);
    const Op3 b = cb ? Op3::make_creator(uint64_t(j), bool(t), std::string(y)) : Op3::make_annihilator(uint64_t(j), bool(t), std::string(y));
    algebra_contract(a, b, ca, cb, i == j && s == t && vc_same(x, y));
    vc_assert(get_index<0>(a) == i && get_index<1>(a) == s && vc_same(get_index<2>(a), x), "get_index returns the indices in order");
    const auto v = get_indices(b);
    vc_assert(std::get<0>(v) == j && std::get<1>(v) == t && vc_same(std::get<2>(v), y), "get_indices returns the indices in order");
    const auto w = a.index_tuple();
    vc_assert(std::get<0>(w) == i && std::get<1>(w) == s && vc_same(std::get<2>(w), x), "index_tuple returns the indices in order");
    vc_assert(uint64_t(get_index<0>(Op3(a))) == i && bool(get_index<1>(Op3(a))) == s && vc_same(std::string(get_index<2>(Op3(a))), x), "get_index of a temporary");
    Op3 m           = a;
    get_index<2>(m) = y;
    get_index<0>(m) = j;
    vc_assert(m.creator == ca && get_index<0>(m) == j && get_index<1>(m) == s && vc_same(get_index<2>(m), y), "get_index refers to the index itself");
    const auto f = algebra::make_creator(uint64_t(i), bool(s), std::string(x));
    const auto g = algebra::make_annihilator(uint64_t(j), bool(t), std::string(y));
    vc_assert(f.creator && get_index<0>(f) == i && get_index<1>(f) == s && vc_same(get_index<2>(f), x), "make_creator");
    vc_assert(!g.creator && get_index<0>(g) == j && get_index<1>(g) == t && vc_same(get_index<2>(g), y), "make_annihilator");
}

VC_PROP(four_indices)
{
    const std::string x = vc_name("x"), y = vc_name("y");
    const int64_t p = vc_i64("p"), q = vc_i64("q");
    const bool s = vc_bool("s"), t = vc_bool("t"), ca = vc_bool("ca"), cb = vc_bool("cb");
    const uint64_t i = vc_u64("i"), j = vc_u64("j");
    const Op4 a = ca ? Op4::make_creator(x, p, s, i) : Op4::make_annihilator(x, p, s, i);
    const Op4 b = cb ? Op4::make_creator(y, q, t, j) : Op4::make_annihilator(y, q, t, j);
    algebra_contract(a, b, ca, cb, vc_same(x, y) && p == q && s == t && i == j);
    vc_assert(vc_same(get_index<0>(a), x) && get_index<1>(a) == p && get_index<2>(a) == s && get_index<3>(a) == i, "get_index returns the indices in order");
    const auto w = b.index_tuple();
    vc_assert(vc_same(std::get<0>(w), y) && std::get<1>(w) == q && std::get<2>(w) == t && std::get<3>(w) == j, "index_tuple returns the indices in order");
}

VC_PROP(index_types)
{
    vc_assert(Op1::number_of_indices == 1 && Op2::number_of_indices == 2 && Op3::number_of_indices == 3 && Op4::number_of_indices == 4, "number of indices");
    vc_assert(std::is_same<algebra::IndexType<0, Op2>::Type, uint64_t>::value && std::is_same<algebra::IndexType<1, Op2>::Type, bool>::value, "index types");
    vc_assert(algebra::HasIndexOfType<Op2, bool>::value && algebra::HasIndexOfType<Op4, uint64_t>::value && algebra::HasIndexOfType<Op1, uint64_t>::value, "index types present");
    vc_assert(algebra::IsOperator<Op3>::value && !algebra::IsOperator<uint64_t>::value, "operator trait");
}
