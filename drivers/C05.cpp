// C05: commutator expansion.  The contract states the appended terms exactly; that their
// sum is a*b - b*a is the lemma lemmas/Commutator.lean over these very terms.
#include "ieompp/algebra/operator.hpp"
#include "ieompp/algebra/term.hpp"
#include "ieompp/symbolic/prefactor.hpp"
#include "ieompp/algebra/commutator.hpp"

#include "vc.hpp"

#include <list>

using namespace ieompp;
using algebra::Kronecker;
using Pre = symbolic::Prefactor<double>;
using N2 = algebra::Operator<uint64_t, bool>;
using S2 = algebra::Operator<std::string, bool>;
using SS = algebra::Operator<std::string, std::string>;
using TermN = algebra::Term<double, N2>;
using TermC = algebra::Term<std::complex<double>, N2>;
using TermS = algebra::Term<Pre, S2>;
using TermSS = algebra::Term<Pre, SS>;

VC_REFLECT(Kronecker, a, b)
VC_REFLECT(N2, creator, index1, index2)
VC_REFLECT(S2, creator, index1, index2)
VC_REFLECT(SS, creator, index1, index2)
VC_REFLECT(Pre, value, kroneckers)
VC_REFLECT(TermN, prefactor, operators)
VC_REFLECT(TermC, prefactor, operators)
VC_REFLECT(TermS, prefactor, operators)
VC_REFLECT(TermSS, prefactor, operators)

// {x,y} is zero whatever the names stand for
bool vanishes(const N2& x, const N2& y) { return x.creator == y.creator || x.index1 != y.index1 || x.index2 != y.index2; }
bool vanishes(const S2& x, const S2& y) { return x.creator == y.creator || x.index2 != y.index2; }
bool vanishes(const SS& x, const SS& y) { return x.creator == y.creator; }

// sign * p * q * {x,y}
double pref(double p, double q, int sign, const N2&, const N2&) { return p * q * sign; }
std::complex<double> pref(const std::complex<double>& p, const std::complex<double>& q, int sign, const N2&, const N2&)
{
    return std::complex<double>((p.real() * q.real() - p.imag() * q.imag()) * sign, (p.real() * q.imag() + p.imag() * q.real()) * sign);
}
Pre times(const Pre& p, const Pre& q, int sign)
{
    Pre r{p.value * q.value * sign, {}};
    for(uint64_t i = 0; i < p.kroneckers.size(); ++i) r.kroneckers.push_back(p.kroneckers[i]);
    for(uint64_t i = 0; i < q.kroneckers.size(); ++i) r.kroneckers.push_back(q.kroneckers[i]);
    return r;
}
Pre pref(const Pre& p, const Pre& q, int sign, const S2& x, const S2& y)
{
    Pre r = times(p, q, sign);
    if(!vc_same(x.index1, y.index1)) r.kroneckers.push_back(Kronecker{x.index1, y.index1});
    return r;
}
Pre pref(const Pre& p, const Pre& q, int sign, const SS& x, const SS& y)
{
    Pre r = times(p, q, sign);
    if(!vc_same(x.index1, y.index1)) r.kroneckers.push_back(Kronecker{x.index1, y.index1});
    if(!vc_same(x.index2, y.index2)) r.kroneckers.push_back(Kronecker{x.index2, y.index2});
    return r;
}

// a_1 .. a_n b_1 .. b_m - b_1 .. b_m a_1 .. a_n, for n*m even, is the sum over all pairs (k,l) of
// (-1)^(m(n-k)+l-1) {a_k,b_l} a_1..a_{k-1} b_1..b_{l-1} b_{l+1}..b_m a_{k+1}..a_n
template <typename C, typename Term>
void expansion(const Term& a, const Term& b, C& want)
{
    const auto &x = a.operators, &y = b.operators;
    const uint64_t n = x.size(), m = y.size();
    for(uint64_t k = 0; k < n; ++k)
        for(uint64_t l = 0; l < m; ++l)
            if(!vanishes(x[k], y[l])) {
                Term t{pref(a.prefactor, b.prefactor, (m * (n - 1 - k) + l) % 2 == 0 ? 1 : -1, x[k], y[l]), {}};
                for(uint64_t i = 0; i < k; ++i) t.operators.push_back(x[i]);
                for(uint64_t i = 0; i < l; ++i) t.operators.push_back(y[i]);
                for(uint64_t i = l + 1; i < m; ++i) t.operators.push_back(y[i]);
                for(uint64_t i = k + 1; i < n; ++i) t.operators.push_back(x[i]);
                want.push_back(t);
            }
}

template <typename C, typename Term>
void contract(const Term& a, const Term& b, const std::vector<Term>& before)
{
    vc_assume(a.operators.size() < 1000000000 && b.operators.size() < 1000000000);
    vc_assume(a.operators.size() * b.operators.size() % 2 == 0);
    const Term a0(a), b0(b);
    C c(before.begin(), before.end()), want(before.begin(), before.end());
    algebra::commutate(a, b, c);
    expansion(a0, b0, want);
    vc_assert(vc_same(c, want), "appends exactly the terms of the commutator expansion");
    vc_assert(vc_same(a, a0) && vc_same(b, b0), "the operands are unchanged");
}

VC_PROP(numeric) { contract<std::vector<TermN>>(vc_any<TermN>("a"), vc_any<TermN>("b"), vc_seq<TermN>("before")); }
VC_PROP(numeric_list) { contract<std::list<TermN>>(vc_any<TermN>("a"), vc_any<TermN>("b"), vc_seq<TermN>("before")); }
VC_PROP(numeric_complex) { contract<std::vector<TermC>>(vc_any<TermC>("a"), vc_any<TermC>("b"), vc_seq<TermC>("before")); }
VC_PROP(symbolic) { contract<std::vector<TermS>>(vc_any<TermS>("a"), vc_any<TermS>("b"), vc_seq<TermS>("before")); }
VC_PROP(symbolic_both) { contract<std::vector<TermSS>>(vc_any<TermSS>("a"), vc_any<TermSS>("b"), vc_seq<TermSS>("before")); }
