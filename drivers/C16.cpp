// C16: non-vanishing expectation values of the momentum-space basis
//
// The constructor is checked against any deterministic behaviour of the operators on the excited
// Fermi sea (ExcitedFermiSea is specialised for the operator type used here: states are numbers,
// operators are an arbitrary function of them; C15 is about what they really do) and any basis of
// the shape C14 establishes.
#include <cassert>
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/models/hubbard_momentum_space/basis.hpp"
#include "ieompp/models/hubbard_momentum_space/excited_fermi_sea.hpp"

#include "vc.hpp"

using namespace ieompp;
using Op = algebra::Operator<uint64_t, bool>;
using Mon = algebra::Monomial<Op>;

struct AnyDispersion {
    using Float = double;
    std::function<uint64_t(uint64_t, bool, uint64_t, bool, double)> step;
    std::function<bool(uint64_t)> initial;
    double operator()(uint64_t) const { return 0.; }
};
namespace ieompp { namespace models { namespace hubbard_momentum_space {
    template <>
    struct Basis3Operator<Mon> : std::vector<Mon> {
        using Monomial = Mon;
        using BasisIndex = std::vector<Mon>::size_type;
        std::size_t N = 0;
        BasisIndex get_3op_index(BasisIndex i1, BasisIndex i2) const { return 1 + i1 * N + i2; }
    };
    template <>
    struct ExcitedFermiSea<Mon> {
        using Monomial = Mon;
        using Operator = Op;
        using Indices = Op::Indices;
        bool vanishes = false;
        bool initial = true;
        uint64_t id = 0;
        bool apply_operator(const Op& o, const AnyDispersion& d, double ef = 0.)
        {
            id = d.step(id, o.creator, o.index1, o.index2, ef);
            initial = d.initial(id);
            return vanishes;
        }
        bool apply_monomial(const Mon& m, const AnyDispersion& d, double ef = 0.)
        {
            if(m.size() == 3) {
                apply_operator(m[2], d, ef);
                apply_operator(m[1], d, ef);
            }
            return apply_operator(m[0], d, ef);
        }
        bool is_initial_fermi_sea() const { return initial; }
    };
}}}
#include "ieompp/models/hubbard_momentum_space/non_vanishing_expectation_values.hpp"
#include "ieompp/models/hubbard_momentum_space/particle_number.hpp"

using Basis = models::hubbard_momentum_space::Basis3Operator<Mon>;
using Values = models::hubbard_momentum_space::NonVanishingExpectationValues<uint64_t, double>;
using Value = Values::Contribution;

VC_REFLECT(Value, left_index, right_index, value)

// lists with arbitrary contents come from a dispersion that carries them
struct ListDispersion {
    using Float = double;
    std::vector<Value> list;
};
namespace ieompp { namespace models { namespace hubbard_momentum_space {
    template <>
    template <>
    NonVanishingExpectationValues<uint64_t, double>::NonVanishingExpectationValues(const Basis3Operator<Mon>&, const Basis3Operator<Mon>&, const ListDispersion& d, const double&)
    {
        for(const auto& c : d.list) this->push_back(c);
    }
}}}
static Values given(const std::vector<Value>& list) { return Values(Basis(), Basis(), ListDispersion{list}, 0.); }

struct Env {
    AnyDispersion d;
    double ef;
    uint64_t q;
    std::function<uint64_t(uint64_t)> k1, k2, k3;
    uint64_t step(uint64_t s, bool creator, uint64_t k, bool up) const { return d.step(s, creator, k, up, ef); }
    // the state A_i^+ |s> and A_i |s>, with A_0 = c^+_q,up and A_i = c^+_k1,up c^+_k2,down c_k3,down
    uint64_t adjoint(uint64_t i, uint64_t s) const
    {
        if(i == 0) return step(s, false, q, true);
        return step(step(step(s, false, k1(i), true), false, k2(i), false), true, k3(i), false);
    }
    uint64_t plain(uint64_t i, uint64_t s) const
    {
        if(i == 0) return step(s, true, q, true);
        return step(step(step(s, false, k3(i), false), true, k2(i), false), true, k1(i), true);
    }
    bool contracted(uint64_t i) const { return i != 0 && k2(i) == k3(i); }
    double weight(uint64_t i) const { return i == 0 ? 1. : 2.; }
    // the partial products leading back to the Fermi sea
    bool full_full(uint64_t i, uint64_t j) const { return d.initial(plain(i, adjoint(j, 0))); }
    bool one_full(uint64_t i, uint64_t j) const { return contracted(i) && d.initial(step(adjoint(j, 0), true, q, true)); }
    bool full_one(uint64_t i, uint64_t j) const { return contracted(j) && d.initial(plain(i, step(0, false, q, true))); }
    bool one_one(uint64_t i, uint64_t j) const { return contracted(i) && contracted(j) && d.initial(step(step(0, false, q, true), true, q, true)); }
    bool contributes(uint64_t i, uint64_t j) const { return full_full(i, j) || one_full(i, j) || full_one(i, j) || one_one(i, j); }
    double value(uint64_t i, uint64_t j) const
    {
        return (full_full(i, j) ? weight(i) * weight(j) : 0.) + (one_full(i, j) ? weight(j) : 0.) + (full_one(i, j) ? weight(i) : 0.) + (one_one(i, j) ? 1. : 0.);
    }
};
static Env env()
{
    return Env{AnyDispersion{vc_fun<uint64_t(uint64_t, bool, uint64_t, bool, double)>("step"), vc_fun<bool(uint64_t)>("initial")},
               vc_real("ef"), vc_u64("q"), vc_fun<uint64_t(uint64_t)>("k1"), vc_fun<uint64_t(uint64_t)>("k2"), vc_fun<uint64_t(uint64_t)>("k3")};
}
static Basis basis(const Env& e, uint64_t n)
{
    Basis b;
    b.push_back(Mon{{{true, e.q, true}}});
    for(uint64_t i = 1; i <= n; ++i) b.push_back(Mon{{{true, e.k1(i), true}, {true, e.k2(i), false}, {false, e.k3(i), false}}});
    return b;
}
static Basis conjugate(const Env& e, uint64_t n)
{
    Basis b;
    b.push_back(Mon{{{false, e.q, true}}});
    for(uint64_t i = 1; i <= n; ++i) b.push_back(Mon{{{true, e.k3(i), false}, {false, e.k2(i), false}, {false, e.k1(i), true}}});
    return b;
}
VC_PROP(contributions)
{
    const Env e = env();
    const uint64_t n = vc_u64("n");
    vc_assume(n < 1000000 && vc_small(n, 4));
    vc_assume(vc_forall(n, [&](uint64_t i) { return e.k2(i + 1) != e.k3(i + 1) || e.k1(i + 1) == e.q; }));
    const Basis b = basis(e, n), c = conjugate(e, n);
    const Values v(b, c, e.d, e.ef);
    // the list has the same contributions as the definition: the sum of any function over it is the same
    const auto f = vc_fun<double(uint64_t, uint64_t, double)>("f");
    const auto term = [&](uint64_t i, uint64_t j) { return e.contributes(i, j) ? f(i, j, e.value(i, j)) : 0.; };
    const double sum = vc_sum_seq(v, [&](const Value& x) { return f(x.left_index, x.right_index, x.value); });
    const double want = term(0, 0) + vc_sum(n, [&](uint64_t i) { return term(i + 1, 0); }) + vc_sum(n, [&](uint64_t i) { return term(0, i + 1); })
                        + vc_sum(n, [&](uint64_t i) { return vc_sum(n, [&](uint64_t j) { return term(i + 1, j + 1); }); });
    vc_assert(vc_near(sum, want), "a pair contributes exactly once and with the weights of its partial products that lead back to the Fermi sea");
}
VC_PROP(sort)
{
    const auto list = vc_seq<Value>("list");
    Values v = given(list);
    v.sort();
    const std::vector<Value> w(v.begin(), v.end());
    vc_assert(vc_is_perm(w, list), "sorting keeps the collection");
    vc_assert(vc_forall(w.size(), [&](uint64_t i) {
                  return vc_forall(i, [&](uint64_t j) { return w[j].left_index < w[i].left_index || (w[j].left_index == w[i].left_index && w[j].right_index <= w[i].right_index); });
              }),
              "contributions are ordered by left, then right index");
}
using Number = models::hubbard_momentum_space::ParticleNumber<double, Basis>;
VC_PROP(particle_number)
{
    const auto list = vc_seq<Value>("list");
    const auto h = vc_seq<std::complex<double>>("h");
    vc_assume(vc_forall(list.size(), [&](uint64_t i) { return list[i].left_index < h.size() && list[i].right_index < h.size(); }));
    const auto term = [&](const Value& c) { return h[c.left_index] * std::conj(h[c.right_index]) * c.value; };
    // the contributions of a hermitian observable
    vc_assume(vc_sum_seq(list, [&](const Value& c) { return term(c).imag(); }) == 0.);
    const Number number(Basis(), Basis(), ListDispersion{list}, 0.);
    vc_assert(vc_near(number(h), vc_sum_seq(list, [&](const Value& c) { return term(c).real(); })), "the particle number is the weighted sum over the contributions");
}
VC_PROP(particle_number_pairs)
{
    // a list that is symmetric by construction: every contribution is followed by its mirror image
    const auto half = vc_seq<Value>("list");
    const auto h = vc_seq<std::complex<double>>("h");
    vc_assume(vc_forall(half.size(), [&](uint64_t i) { return half[i].left_index < h.size() && half[i].right_index < h.size(); }));
    std::vector<Value> list;
    for(const auto& c : half) {
        list.push_back(c);
        list.push_back(Value{c.right_index, c.left_index, c.value});
    }
    const Number number(Basis(), Basis(), ListDispersion{list}, 0.);
    vc_assert(vc_near(number(h), vc_sum_seq(half, [&](const Value& c) { return 2. * (h[c.left_index] * std::conj(h[c.right_index]) * c.value).real(); })),
              "the particle number is the weighted sum over the contributions");
}
