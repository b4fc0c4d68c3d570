// C28: printed tuples, operators, monomials, terms and prefactors show every element once, in order
#include <cassert>
#include <sstream>
#include <tuple>
#include "ieompp/algebra/kronecker.hpp"
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/algebra/term.hpp"
#include "ieompp/string.hpp"
#include "ieompp/symbolic/prefactor.hpp"
#include "ieompp/symbolic/index.hpp"
#include "ieompp/tuple.hpp"
#include "ieompp/types/function_matrix.hpp"

#include "vc.hpp"

using namespace ieompp;
using Op1       = algebra::Operator<uint64_t>;
using Op2       = algebra::Operator<uint64_t, bool>;
using Op3       = algebra::Operator<uint64_t, uint64_t, bool>;
using Kronecker = algebra::Kronecker;
struct Item {
    uint64_t id;
};
inline std::ostream& operator<<(std::ostream& strm, const Item& i) { return strm << i.id; }
VC_REFLECT(Op1, creator, index)
VC_REFLECT(Op2, creator, index1, index2)
VC_REFLECT_GEN(Op3, (Op3{vc_bool((n + ".creator").c_str()), std::make_tuple(vc_u64((n + ".indices.0").c_str()), vc_u64((n + ".indices.1").c_str()), vc_bool((n + ".indices.2").c_str()))}))
VC_REFLECT(Kronecker, a, b)
VC_REFLECT(Item, id)

// ---------------------------------------------------------------- tuples
VC_PROP(tuple_one)
{
    const std::tuple<uint64_t> t(vc_u64("a"));
    const std::string delimiter = vc_name("delimiter"), left = vc_name("left"), right = vc_name("right");
    std::ostringstream out, expected;
    print_tuple(out, t, delimiter, left, right);
    expected << left << std::get<0>(t) << right;
    vc_assert(vc_same(out, expected), "the element, enclosed in the delimiters");
}
VC_PROP(tuple_three)
{
    const std::tuple<uint64_t, std::string, double> t(vc_u64("a"), vc_name("b"), vc_real("c"));
    const std::string delimiter = vc_name("delimiter"), left = vc_name("left"), right = vc_name("right");
    std::ostringstream out, expected;
    print_tuple(out, t, delimiter, left, right);
    expected << left << std::get<0>(t) << delimiter << std::get<1>(t) << delimiter << std::get<2>(t) << right;
    vc_assert(vc_same(out, expected), "every element once, in order, separated and enclosed");
}
VC_PROP(tuple_default)
{
    const std::tuple<uint64_t, double> t(vc_u64("a"), vc_real("b"));
    std::ostringstream out, expected;
    print_tuple(out, t);
    expected << "(" << std::get<0>(t) << "," << std::get<1>(t) << ")";
    vc_assert(vc_same(out, expected), "comma and parentheses are the default");
}

// ---------------------------------------------------------------- operators
static const char* spin(bool up) { return up ? u8"↑" : u8"↓"; }
static const char* kind(bool creator) { return creator ? "c^†_{" : "c_{"; }

VC_PROP(operator_one_index)
{
    const Op1 o = vc_any<Op1>("o");
    std::ostringstream out, expected;
    out << o;
    expected << kind(o.creator) << o.index << "}";
    vc_assert(vc_same(out, expected), "kind and index");
}
VC_PROP(operator_index_and_spin)
{
    const Op2 o = vc_any<Op2>("o");
    std::ostringstream out, expected;
    out << o;
    expected << kind(o.creator) << o.index1 << "," << spin(o.index2) << "}";
    vc_assert(vc_same(out, expected), "kind and both indices");
}
VC_PROP(operator_three_indices)
{
    const Op3 o = vc_any<Op3>("o");
    std::ostringstream out, expected;
    out << o;
    expected << kind(o.creator) << std::get<0>(o.indices) << "," << std::get<1>(o.indices) << "," << spin(std::get<2>(o.indices)) << "}";
    vc_assert(vc_same(out, expected), "kind and all three indices");
}
VC_PROP(kronecker)
{
    const Kronecker k{vc_name("a"), vc_name("b")};
    std::ostringstream out, expected;
    out << k;
    expected << u8"δ_{" << k.a << "," << k.b << "}";
    vc_assert(vc_same(out, expected), "both indices");
}

// ---------------------------------------------------------------- products, for any kind of factors
template <typename T>
static void write(std::ostream& strm, const std::vector<T>& v)
{
    for(uint64_t i = 0; i < v.size(); ++i) {
        if(i > 0) {
            strm << " ";
        }
        strm << v[i];
    }
}
template <typename T>
static void monomial()
{
    algebra::Monomial<T> m;
    const std::vector<T> v = vc_seq<T>("m");
    m.assign(v.begin(), v.end());
    vc_assume(!m.empty());
    std::ostringstream out, expected;
    out << m;
    write<T>(expected, m);
    vc_assert(vc_same(out, expected), "every operator once, in order");
}
VC_PROP(monomial_of_anything) { monomial<Item>(); }
VC_PROP(monomial_of_operators) { monomial<Op2>(); }
template <typename T>
static void term()
{
    const algebra::Term<double, T> t{vc_real("prefactor"), vc_seq<T>("m")};
    vc_assume(!t.operators.empty());
    std::ostringstream out, expected;
    out << t;
    expected << t.prefactor << u8" ⋅ ";
    write<T>(expected, t.operators);
    vc_assert(vc_same(out, expected), "prefactor and every operator once, in order");
}
VC_PROP(term_of_anything) { term<Item>(); }
VC_PROP(term_of_operators) { term<Op2>(); }
template <typename T, typename Value>
static void prefactor(const Value& v)
{
    const symbolic::Prefactor<Value, T> p{v, vc_seq<T>("m")};
    std::ostringstream out, expected;
    out << p;
    if(p.kroneckers.empty()) {
        expected << v;
    } else if(v == Value(-1)) {
        expected << "-";
    } else if(!(v == Value(1))) {
        expected << v << u8" ⋅ ";
    }
    write<T>(expected, p.kroneckers);
    vc_assert(vc_same(out, expected), "the value unless it is one, and every delta once, in order");
}
VC_PROP(prefactor_real) { prefactor<Item>(vc_real("value")); }
VC_PROP(prefactor_signed) { prefactor<Item>(vc_i64("value")); }
VC_PROP(prefactor_of_deltas) { prefactor<Kronecker>(vc_real("value")); }
VC_PROP(compose)
{
    const std::string s = vc_name("s");
    const uint64_t n    = vc_u64("n");
    const double x      = vc_real("x");
    std::ostringstream out, expected;
    out << ieompp::compose(s, n, "/", x);
    expected << s << n << "/" << x;
    vc_assert(vc_same(out, expected), "all arguments in order");
}

// ---------------------------------------------------------------- symbolic indices, function matrices
VC_PROP(symbolic_index)
{
    const int i = static_cast<int>(vc_i64("i") % 1000000);
    const std::string name = vc_name("name");
    std::ostringstream out, expected;
    out << symbolic::SpaceIndex(i) << symbolic::MomentumIndex(i) << symbolic::SpinIndex(i) << symbolic::SpaceIndex(name) << symbolic::SpinIndex(name) << symbolic::SpaceIndex() << symbolic::MomentumIndex() << symbolic::SpinIndex();
    expected << "r_" << std::to_string(i) << "k_" << std::to_string(i) << u8"σ_" << std::to_string(i) << name << name << "r" << "k" << u8"σ";
    vc_assert(vc_same(out, expected), "an index shows its letter and number or its name");
}
VC_PROP(function_matrix)
{
    const uint64_t n = vc_u64("n"), m = vc_u64("m");
    vc_assume(n < (1ul << 20) && m < (1ul << 20));
    const auto f = vc_fun<double(uint64_t, uint64_t)>("f");
    const types::FunctionMatrix<double, uint64_t> a(n, m, f);
    std::ostringstream out, expected;
    out << a;
    expected << std::fixed << std::setprecision(1) << std::showpos;
    for(uint64_t i = 0; i < n; ++i) {
        for(uint64_t j = 0; j < m; ++j) expected << f(i, j) << ' ';
        expected << '\n';
    }
    vc_assert(vc_same(out, expected), "every entry once, row by row");
}
