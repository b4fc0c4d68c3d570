// C02: operator and term orderings
#include "ieompp/algebra/operator.hpp"
#include "ieompp/algebra/operator/order.hpp"
#include "ieompp/algebra/term.hpp"
#include "ieompp/algebra/term/order.hpp"

#include "vc.hpp"

using namespace ieompp;
using Op1 = algebra::Operator<uint64_t>;
using Op1s = algebra::Operator<std::string>;
using Op2 = algebra::Operator<uint64_t, bool>;
using Op2s = algebra::Operator<std::string, bool>;
using Op3 = algebra::Operator<uint64_t, bool, std::string>;
using Op4 = algebra::Operator<std::string, int64_t, bool, uint64_t>;
using TermN = algebra::Term<double, Op2>;
using TermS = algebra::Term<std::complex<double>, Op2s>;

VC_REFLECT(Op2, creator, index1, index2)
VC_REFLECT(Op2s, creator, index1, index2)

// the ordering as the property defines it, on indices 1..4
template <typename A>
bool lex(const A& a, const A& b)
{
    return a < b;
}
template <typename A, typename... R>
bool lex(const A& a, const A& b, const R&... r)
{
    return a < b || (vc_same(a, b) && lex(r...));
}
bool kinds(bool ca, bool cb, bool less)
{
    return (ca && !cb) || (ca == cb && less);
}

template <typename Op>
void order_laws(const Op& a, const Op& b, const Op& c)
{
    const algebra::OperatorSmaller<Op> s{};
    const algebra::OperatorGreater<Op> g{};
    vc_assert(!s(a, a), "irreflexive");
    vc_assert(!(s(a, b) && s(b, a)), "asymmetric");
    vc_assert(!(s(a, b) && s(b, c)) || s(a, c), "transitive");
    vc_assert(s(a, b) || s(b, a) || a == b, "total");
    vc_assert(!(a == b) || (!s(a, b) && !s(b, a)), "consistent with equality");
    vc_assert(g(a, b) == s(b, a), "greater mirrors smaller");
    vc_assert(!(a.creator && !b.creator) || s(a, b), "creators come first");
}

VC_PROP(one_number)
{
    const bool ca = vc_bool("ca"), cb = vc_bool("cb"), cc = vc_bool("cc");
    const uint64_t i = vc_u64("i"), j = vc_u64("j"), k = vc_u64("k");
    const Op1 a{ca, i}, b{cb, j}, c{cc, k};
    vc_assert(algebra::OperatorSmaller<Op1>()(a, b) == kinds(ca, cb, lex(i, j)), "creators first, then by index");
    order_laws(a, b, c);
}
VC_PROP(one_name)
{
    const bool ca = vc_bool("ca"), cb = vc_bool("cb"), cc = vc_bool("cc");
    const std::string i = vc_name("i"), j = vc_name("j"), k = vc_name("k");
    const Op1s a{ca, i}, b{cb, j}, c{cc, k};
    vc_assert(algebra::OperatorSmaller<Op1s>()(a, b) == kinds(ca, cb, lex(i, j)), "creators first, then by index");
    order_laws(a, b, c);
}
VC_PROP(two_number)
{
    const bool ca = vc_bool("ca"), cb = vc_bool("cb"), cc = vc_bool("cc"), s = vc_bool("s"), t = vc_bool("t"), u = vc_bool("u");
    const uint64_t i = vc_u64("i"), j = vc_u64("j"), k = vc_u64("k");
    const Op2 a{ca, i, s}, b{cb, j, t}, c{cc, k, u};
    vc_assert(algebra::OperatorSmaller<Op2>()(a, b) == kinds(ca, cb, lex(i, j, s, t)), "creators first, then lexicographically by index");
    order_laws(a, b, c);
}
VC_PROP(two_name)
{
    const bool ca = vc_bool("ca"), cb = vc_bool("cb"), cc = vc_bool("cc"), s = vc_bool("s"), t = vc_bool("t"), u = vc_bool("u");
    const std::string i = vc_name("i"), j = vc_name("j"), k = vc_name("k");
    const Op2s a{ca, i, s}, b{cb, j, t}, c{cc, k, u};
    vc_assert(algebra::OperatorSmaller<Op2s>()(a, b) == kinds(ca, cb, lex(i, j, s, t)), "creators first, then lexicographically by index");
    order_laws(a, b, c);
}
VC_PROP(three)
{
    const bool ca = vc_bool("ca"), cb = vc_bool("cb"), cc = vc_bool("cc"), s = vc_bool("s"), t = vc_bool("t"), u = vc_bool("u");
    const uint64_t i = vc_u64("i"), j = vc_u64("j"), k = vc_u64("k");
    const std::string x = vc_name("x"), y = vc_name("y"), z = vc_name("z");
    const Op3 a = ca ? Op3::make_creator(i, s, x) : Op3::make_annihilator(i, s, x);
    const Op3 b = cb ? Op3::make_creator(j, t, y) : Op3::make_annihilator(j, t, y);
    const Op3 c = cc ? Op3::make_creator(k, u, z) : Op3::make_annihilator(k, u, z);
    vc_assert(algebra::OperatorSmaller<Op3>()(a, b) == kinds(ca, cb, lex(i, j, s, t, x, y)), "creators first, then lexicographically by index");
    order_laws(a, b, c);
}
VC_PROP(four)
{
    const bool ca = vc_bool("ca"), cb = vc_bool("cb"), cc = vc_bool("cc"), s = vc_bool("s"), t = vc_bool("t"), u = vc_bool("u");
    const uint64_t i = vc_u64("i"), j = vc_u64("j"), k = vc_u64("k");
    const int64_t p = vc_i64("p"), q = vc_i64("q"), r = vc_i64("r");
    const std::string x = vc_name("x"), y = vc_name("y"), z = vc_name("z");
    const Op4 a = ca ? Op4::make_creator(x, p, s, i) : Op4::make_annihilator(x, p, s, i);
    const Op4 b = cb ? Op4::make_creator(y, q, t, j) : Op4::make_annihilator(y, q, t, j);
    const Op4 c = cc ? Op4::make_creator(z, r, u, k) : Op4::make_annihilator(z, r, u, k);
    vc_assert(algebra::OperatorSmaller<Op4>()(a, b) == kinds(ca, cb, lex(x, y, p, q, s, t, i, j)), "creators first, then lexicographically by index");
    order_laws(a, b, c);
}

// terms: by number of operators, then lexicographically by operator
template <typename Term>
bool term_less(const Term& a, const Term& b)
{
    const auto &x = a.operators, &y = b.operators;
    const algebra::OperatorSmaller<typename Term::Operator> s{};
    return x.size() < y.size()
           || (x.size() == y.size() && vc_exists(x.size(), [&](uint64_t i) {
                   return s(x[i], y[i]) && vc_forall(i, [&](uint64_t j) { return vc_same(x[j], y[j]); });
               }));
}

template <typename Term>
void term_spec(const Term& a, const Term& b)
{
    vc_assert(algebra::TermSmaller<Term>()(a, b) == term_less(a, b), "terms: by number of operators, then lexicographically");
    vc_assert(algebra::TermGreater<Term>()(a, b) == term_less(b, a), "greater mirrors smaller");
}
template <typename Term>
void term_laws(const Term& a, const Term& b)
{
    const algebra::TermSmaller<Term> s{};
    vc_assert(!s(a, a), "irreflexive");
    vc_assert(!(s(a, b) && s(b, a)), "asymmetric");
    vc_assert(s(a, b) || s(b, a) || vc_same(a.operators, b.operators), "total up to the operators");
    vc_assert(!vc_same(a.operators, b.operators) || (!s(a, b) && !s(b, a)), "ignores the prefactor");
}
template <typename Term>
void term_transitive(const Term& a, const Term& b, const Term& c)
{
    const algebra::TermSmaller<Term> s{};
    const algebra::TermGreater<Term> g{};
    vc_assert(!(s(a, b) && s(b, c)) || s(a, c), "transitive");
    vc_assert(!(g(a, b) && g(b, c)) || g(a, c), "greater is transitive");
}

VC_PROP(terms_number)
{
    const TermN a{vc_real("x"), vc_seq<Op2>("a")}, b{vc_real("y"), vc_seq<Op2>("b")};
    term_spec(a, b);
}
VC_PROP(terms_name)
{
    const TermS a{vc_cplx("x"), vc_seq<Op2s>("a")}, b{vc_cplx("y"), vc_seq<Op2s>("b")};
    term_spec(a, b);
}
VC_PROP(terms_laws_number)
{
    const TermN a{vc_real("x"), vc_seq<Op2>("a")}, b{vc_real("y"), vc_seq<Op2>("b")};
    term_laws(a, b);
}
VC_PROP(terms_laws_name)
{
    const TermS a{vc_cplx("x"), vc_seq<Op2s>("a")}, b{vc_cplx("y"), vc_seq<Op2s>("b")};
    term_laws(a, b);
}
VC_PROP(terms_transitive)
{
    const TermN a{vc_real("x"), vc_seq<Op2>("a")}, b{vc_real("y"), vc_seq<Op2>("b")}, c{vc_real("z"), vc_seq<Op2>("c")};
    term_transitive(a, b, c);
}
