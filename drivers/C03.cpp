// C03: products and Hermitian conjugates of monomials and terms
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/algebra/term.hpp"
#include "ieompp/symbolic/prefactor.hpp"

#include "vc.hpp"

using namespace ieompp;
using Op = algebra::Operator<uint64_t, bool>;
using Ops = algebra::Operator<std::string, bool>;
using Op1 = algebra::Operator<uint64_t>;
using Mon = algebra::Monomial<Op>;
using Mons = algebra::Monomial<Ops>;
using Mon1 = algebra::Monomial<Op1>;
using TermR = algebra::Term<double, Op>;
using TermC = algebra::Term<std::complex<double>, Ops>;

VC_REFLECT(Op, creator, index1, index2)
VC_REFLECT(Ops, creator, index1, index2)
VC_REFLECT(Op1, creator, index)
VC_REFLECT(algebra::Kronecker, a, b)

// x is y reversed with every operator conjugated (operators given by the fields)
template <typename O>
bool conj_of(const O& a, const O& b)
{
    return a.creator == !b.creator && vc_same(a.index_tuple(), b.index_tuple());
}
template <typename A, typename B>
bool is_adjoint(const A& x, const B& y)
{
    return x.size() == y.size() && vc_forall(x.size(), [&](uint64_t i) { return conj_of(x[i], y[y.size() - 1 - i]); });
}
// z is x followed by y
template <typename A, typename B, typename C>
bool is_concat(const A& z, const B& x, const C& y)
{
    return z.size() == x.size() + y.size() && vc_forall(x.size(), [&](uint64_t i) { return vc_same(z[i], x[i]); })
           && vc_forall(y.size(), [&](uint64_t i) { return vc_same(z[x.size() + i], y[i]); });
}

template <typename M, typename O>
void products(const std::vector<O>& x, const std::vector<O>& y)
{
    const M a(x.begin(), x.end()), b(y.begin(), y.end());
    const M p = a * b;
    vc_assert(is_concat(p, x, y), "the product concatenates the sequences");
    vc_assert(vc_same(a, M(x.begin(), x.end())) && vc_same(b, M(y.begin(), y.end())), "the operands are unchanged");
    M q(x.begin(), x.end());
    M& r = (q *= b);
    vc_assert(vc_same(q, p) && &r == &q, "in-place and copying product agree");
    vc_assert(vc_same(b, M(y.begin(), y.end())), "the right operand is unchanged");
    M s(x.begin(), x.end());
    s *= s;
    vc_assert(is_concat(s, x, x), "a monomial multiplied in place with itself is its square");
}
template <typename M, typename O>
void adjoints(const std::vector<O>& x, const std::vector<O>& y)
{
    const M a(x.begin(), x.end()), b(y.begin(), y.end());
    const M c = a.get_conjugate();
    vc_assert(is_adjoint(c, x), "conjugation reverses the sequence and conjugates every operator");
    vc_assert(vc_same(a, M(x.begin(), x.end())), "copying conjugation leaves the original alone");
    M d(x.begin(), x.end());
    d.conjugate();
    vc_assert(vc_same(d, c), "in-place and copying conjugation agree");
    d.conjugate();
    vc_assert(vc_same(d, a), "conjugation is an involution");
    vc_assert(vc_same(c.get_conjugate(), a), "copying conjugation is an involution");
    vc_assert(vc_same((a * b).get_conjugate(), b.get_conjugate() * a.get_conjugate()), "conjugation reverses products");
}
template <typename M, typename O>
void comparisons(const std::vector<O>& x, const std::vector<O>& y)
{
    const M a(x.begin(), x.end()), b(y.begin(), y.end());
    const bool same = x.size() == y.size() && vc_forall(x.size(), [&](uint64_t i) { return vc_same(x[i], y[i]); });
    vc_assert((a == b) == same, "equal exactly when the sequences are equal");
    vc_assert((a != b) == !same, "unequal is the exact opposite of equal");
    vc_assert(a.is_conjugate(b) == is_adjoint(x, y), "is_conjugate exactly for the conjugate");
    vc_assert(a.is_conjugate(a.get_conjugate()), "a monomial's conjugate is its conjugate");
}

VC_PROP(products_number) { products<Mon>(vc_seq<Op>("a"), vc_seq<Op>("b")); }
VC_PROP(products_name) { products<Mons>(vc_seq<Ops>("a"), vc_seq<Ops>("b")); }
VC_PROP(adjoints_number) { adjoints<Mon>(vc_seq<Op>("a"), vc_seq<Op>("b")); }
VC_PROP(adjoints_name) { adjoints<Mons>(vc_seq<Ops>("a"), vc_seq<Ops>("b")); }
VC_PROP(adjoints_one) { adjoints<Mon1>(vc_seq<Op1>("a"), vc_seq<Op1>("b")); }
VC_PROP(comparisons_number) { comparisons<Mon>(vc_seq<Op>("a"), vc_seq<Op>("b")); }
VC_PROP(comparisons_name) { comparisons<Mons>(vc_seq<Ops>("a"), vc_seq<Ops>("b")); }
VC_PROP(comparisons_one) { comparisons<Mon1>(vc_seq<Op1>("a"), vc_seq<Op1>("b")); }

template <typename T>
std::complex<T> cc(const std::complex<T>& z) { return std::complex<T>(z.real(), -z.imag()); }
inline double cc(double z) { return z; }

template <typename T>
void terms(const T& a, const T& b)
{
    const auto x = a.operators;
    const auto y = b.operators;
    const auto u = a.prefactor;
    const auto v = b.prefactor;
    const T p = a * b;
    vc_assert(vc_near(p.prefactor, u * v) && is_concat(p.operators, x, y), "the product multiplies prefactors and concatenates operators");
    vc_assert(vc_same(a.operators, x) && vc_same(b.operators, y) && vc_same(a.prefactor, u) && vc_same(b.prefactor, v), "the operands are unchanged");
    T q(a);
    T& r = (q *= b);
    vc_assert(vc_near(q.prefactor, u * v) && vc_same(q.operators, p.operators) && &r == &q, "in-place and copying product agree");
    vc_assert(vc_same(b.operators, y) && vc_same(b.prefactor, v), "the right operand is unchanged");
    T s(a);
    s *= s;
    vc_assert(vc_near(s.prefactor, u * u) && is_concat(s.operators, x, x), "a term multiplied in place with itself is its square");
    const T c = a.get_conjugate();
    vc_assert(vc_same(c.prefactor, cc(u)) && is_adjoint(c.operators, x), "conjugation reverses, conjugates and complex-conjugates");
    vc_assert(vc_same(a.operators, x) && vc_same(a.prefactor, u), "copying conjugation leaves the original alone");
    T d(a);
    d.conjugate();
    vc_assert(vc_same(d.operators, c.operators) && vc_same(d.prefactor, c.prefactor), "in-place and copying conjugation agree");
    d.conjugate();
    vc_assert(vc_same(d.operators, x) && vc_same(d.prefactor, u), "conjugation is an involution");
    const T e = p.get_conjugate();
    const T f = b.get_conjugate() * a.get_conjugate();
    vc_assert(vc_same(e.operators, f.operators) && vc_near(e.prefactor, f.prefactor), "conjugation reverses products");
    const bool same = x.size() == y.size() && vc_forall(x.size(), [&](uint64_t i) { return vc_same(x[i], y[i]); });
    vc_assert(a.have_same_operators(b) == same, "have_same_operators exactly when the sequences are equal");
}
VC_PROP(terms_real)
{
    const TermR a{vc_real("x"), vc_seq<Op>("a")}, b{vc_real("y"), vc_seq<Op>("b")};
    terms(a, b);
}
VC_PROP(terms_complex)
{
    const TermC a{vc_cplx("x"), vc_seq<Ops>("a")}, b{vc_cplx("y"), vc_seq<Ops>("b")};
    terms(a, b);
}
// terms with symbolic prefactors: the values multiply and the Kronecker deltas concatenate
using Pre = symbolic::Prefactor<double>;
using TermS = algebra::Term<Pre, Ops>;
template <typename X, typename Y, typename Z>
bool joined(const X& z, const Y& x, const Z& y)
{
    return z.size() == x.size() + y.size() && vc_forall(x.size(), [&](uint64_t i) { return vc_same(z[i], x[i]); })
           && vc_forall(y.size(), [&](uint64_t i) { return vc_same(z[x.size() + i], y[i]); });
}
VC_PROP(symbolic_terms)
{
    const TermS a{Pre{vc_real("x"), vc_seq<algebra::Kronecker>("k")}, vc_seq<Ops>("a")};
    const TermS b{Pre{vc_real("y"), vc_seq<algebra::Kronecker>("l")}, vc_seq<Ops>("b")};
    const auto k = a.prefactor.kroneckers;
    const auto l = b.prefactor.kroneckers;
    const auto x = a.operators;
    const auto y = b.operators;
    const double u = a.prefactor.value, v = b.prefactor.value;
    const TermS p = a * b;
    vc_assert(vc_near(p.prefactor.value, u * v) && joined(p.prefactor.kroneckers, k, l) && is_concat(p.operators, x, y), "the product multiplies symbolic prefactors");
    TermS q(a);
    q *= b;
    vc_assert(vc_near(q.prefactor.value, u * v) && joined(q.prefactor.kroneckers, k, l) && is_concat(q.operators, x, y), "in-place product of symbolic terms");
    vc_assert(vc_same(b.prefactor.value, v) && vc_same(b.prefactor.kroneckers, l) && vc_same(b.operators, y), "the right operand is unchanged");
    TermS s(a);
    s *= s;
    vc_assert(vc_near(s.prefactor.value, u * u) && joined(s.prefactor.kroneckers, k, k) && is_concat(s.operators, x, x), "square of a symbolic term");
    Pre r(a.prefactor);
    r *= r;
    vc_assert(vc_near(r.value, u * u) && joined(r.kroneckers, k, k), "square of a symbolic prefactor");
    Pre t(a.prefactor);
    t *= t.kroneckers;
    vc_assert(vc_same(t.value, u) && joined(t.kroneckers, k, k), "appending the deltas of a prefactor to itself");
    t = a.prefactor;
    t *= l;
    vc_assert(vc_same(t.value, u) && joined(t.kroneckers, k, l), "multiplying deltas appends them in order");
    const algebra::Kronecker d{vc_any<std::string>("i"), vc_any<std::string>("j")};
    t = a.prefactor;
    t *= d;
    vc_assert(vc_same(t.value, u) && t.kroneckers.size() == k.size() + 1 && vc_same(t.kroneckers.back(), d)
                  && vc_forall(k.size(), [&](uint64_t i) { return vc_same(t.kroneckers[i], k[i]); }), "multiplying one delta appends it");
    t = a.prefactor;
    t *= v;
    vc_assert(vc_near(t.value, u * v) && vc_same(t.kroneckers, k), "multiplying a number scales the value");
    const Pre w = a.prefactor * b.prefactor;
    vc_assert(vc_near(w.value, u * v) && joined(w.kroneckers, k, l), "copying product of symbolic prefactors");
}
VC_PROP(factories)
{
    const Op x = vc_any<Op>("x"), y = vc_any<Op>("y");
    const double r = vc_real("r");
    const auto t = algebra::make_term(double(r), {x, y});
    vc_assert(vc_same(t.prefactor, r) && t.operators.size() == 2 && vc_same(t.operators[0], x) && vc_same(t.operators[1], y), "make_term");
    const Mon m{x, y};
    vc_assert(m.size() == 2 && vc_same(m[0], x) && vc_same(m[1], y), "monomial of a list");
}
