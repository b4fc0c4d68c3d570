// C07: collecting terms into a unique, sorted list
#include "ieompp/algebra/operator.hpp"
#include "ieompp/algebra/term.hpp"
#include "ieompp/algebra/term/checks.hpp"
#include "ieompp/algebra/term/list.hpp"
#include "ieompp/algebra/term/order.hpp"

#include "vc.hpp"

using namespace ieompp;
using Op = algebra::Operator<uint64_t, bool>;
using OpB = algebra::Operator<bool, std::string>;
using TermN = algebra::Term<double, Op>;
using TermB = algebra::Term<double, OpB>;

// A term type given only by what the collecting needs: a prefactor, a sequence of operators
// represented by its position in a strict total order (C02: TermSmaller is one, and "neither
// smaller" is equality of the operators), and the test for equal operators (C03).
struct AnyTerm {
    using Operator = Op;
    using Prefactor = double;
    using Container = std::string;
    double prefactor;
    std::string operators;
    bool have_same_operators(const AnyTerm& rhs) const { return operators == rhs.operators; }
};
namespace ieompp
{
    namespace algebra
    {
        template <>
        struct TermSmaller<AnyTerm> {
            bool operator()(const AnyTerm& a, const AnyTerm& b) const { return a.operators < b.operators; }
        };
    } // namespace algebra
} // namespace ieompp

VC_REFLECT(AnyTerm, prefactor, operators)
VC_REFLECT(Op, creator, index1, index2)
VC_REFLECT(OpB, creator, index1, index2)
VC_REFLECT(TermN, prefactor, operators)

template <typename Term, typename In, typename Out>
void collect(const In& in, const std::vector<Term>& old)
{
    const algebra::TermSmaller<Term> less{};
    const In in0(in);
    Out res(old.begin(), old.end());
    algebra::copy_as_unique_terms(in, res);
    const std::vector<Term> r(res.begin(), res.end());
    const std::vector<Term> x(in0.begin(), in0.end());
    const uint64_t k = old.size(), n = x.size();
    vc_assert(vc_same(in, in0), "the input is unchanged");
    vc_assert(r.size() >= k && vc_forall(k, [&](uint64_t i) { return vc_same(r[i], old[i]); }), "earlier contents are kept");
    const uint64_t m = r.size() - k;
    vc_assert(vc_forall(m, [&](uint64_t i) { return vc_forall(i, [&](uint64_t j) { return less(r[k + j], r[k + i]); }); }), "the new terms are sorted and no sequence occurs twice");
    vc_assert(vc_forall(n, [&](uint64_t i) { return vc_exists(m, [&](uint64_t j) { return vc_same(r[k + j].operators, x[i].operators); }); }), "every sequence of the input occurs");
    vc_assert(vc_forall(m, [&](uint64_t j) { return vc_exists(n, [&](uint64_t i) { return vc_same(r[k + j].operators, x[i].operators); }); }), "only sequences of the input occur");
    vc_assert(vc_forall(m, [&](uint64_t j) {
                  return vc_near(r[k + j].prefactor, vc_sum(n, [&](uint64_t i) { return vc_same(x[i].operators, r[k + j].operators) ? x[i].prefactor : 0.; }));
              }),
              "prefactors are the sums over the equal terms");
}

VC_PROP(collect_any_term) { collect<AnyTerm, std::vector<AnyTerm>, std::vector<AnyTerm>>(vc_seq<AnyTerm>("in"), vc_seq<AnyTerm>("old")); }
VC_PROP(collect_real_terms) { collect<TermN, std::vector<TermN>, std::vector<TermN>>(vc_seq<TermN>("in"), vc_seq<TermN>("old")); }
VC_PROP(collect_list)
{
    const std::vector<AnyTerm> v = vc_seq<AnyTerm>("in");
    collect<AnyTerm, std::list<AnyTerm>, std::list<AnyTerm>>(std::list<AnyTerm>(v.begin(), v.end()), vc_seq<AnyTerm>("old"));
}

VC_PROP(counts)
{
    const TermN t{vc_real("p"), vc_seq<Op>("ops")};
    vc_assume(t.operators.size() < 1000000000);
    const int want = vc_sum(t.operators.size(), [&](uint64_t i) { return t.operators[i].creator ? 1 : -1; });
    vc_assert(algebra::total_creations(t) == want, "creators minus annihilators");
    const int spin = vc_sum(t.operators.size(), [&](uint64_t i) { return (t.operators[i].creator ? 1 : -1) * (t.operators[i].index2 ? 1 : -1); });
    vc_assert(algebra::total_spin<1>(t) == spin, "spin of the creators minus that of the annihilators");
}
VC_PROP(spin_first_index)
{
    const TermB t{vc_real("p"), vc_seq<OpB>("ops")};
    vc_assume(t.operators.size() < 1000000000);
    const int spin = vc_sum(t.operators.size(), [&](uint64_t i) { return (t.operators[i].creator ? 1 : -1) * (t.operators[i].index1 ? 1 : -1); });
    vc_assert(algebra::total_spin<0>(t) == spin, "spin of the creators minus that of the annihilators");
}
