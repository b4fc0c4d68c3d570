// C06: symbolic prefactors and Kronecker deltas
#include "ieompp/symbolic/prefactor.hpp"

#include "vc.hpp"

using namespace ieompp;
using algebra::Kronecker;
using Pre = symbolic::Prefactor<double>;
using PreC = symbolic::Prefactor<std::complex<double>>;
using Ks = std::vector<Kronecker>;

VC_REFLECT(Kronecker, a, b)

// z is x followed by y
bool is_concat(const Ks& z, const Ks& x, const Ks& y)
{
    return z.size() == x.size() + y.size() && vc_forall(x.size(), [&](uint64_t i) { return vc_same(z[i], x[i]); })
           && vc_forall(y.size(), [&](uint64_t i) { return vc_same(z[x.size() + i], y[i]); });
}

VC_PROP(kronecker)
{
    const std::string x = vc_name("x"), y = vc_name("y"), u = vc_name("u"), v = vc_name("v");
    const Kronecker k = algebra::make_kronecker(x, y), l{u, v};
    vc_assert(vc_same(k.a, x) && vc_same(k.b, y), "a delta carries its two names");
    const bool same = (vc_same(x, u) && vc_same(y, v)) || (vc_same(x, v) && vc_same(y, u));
    vc_assert((k == l) == same, "equal exactly when the names agree in either order");
    vc_assert((k != l) == !same, "unequal is the exact opposite of equal");
    vc_assert(k == algebra::make_kronecker(y, x), "symmetric in its names");
    Kronecker o(k);
    o.order();
    vc_assert(o == k, "ordering keeps the delta");
    vc_assert(!(o.b < o.a), "ordering puts the smaller name first");
}

VC_PROP(times_number)
{
    const double v = vc_real("v"), f = vc_real("f");
    const Ks k = vc_seq<Kronecker>("k");
    Pre p{v, k};
    Pre& r = (p *= f);
    vc_assert(&r == &p && vc_near(p.value, v * f) && vc_same(p.kroneckers, k), "a number scales only the value");
    Pre q{v, k};
    const int s = -1;
    q *= s;
    vc_assert(vc_near(q.value, -v) && vc_same(q.kroneckers, k), "an integer scales only the value");
    const std::complex<double> c = vc_cplx("c"), g = vc_cplx("g");
    PreC z{c, k};
    z *= g;
    vc_assert(vc_near(z.value, std::complex<double>(c.real() * g.real() - c.imag() * g.imag(), c.real() * g.imag() + c.imag() * g.real())) && vc_same(z.kroneckers, k), "a complex number scales only the value");
}

VC_PROP(times_delta)
{
    const double v = vc_real("v");
    const Ks k = vc_seq<Kronecker>("k"), l = vc_seq<Kronecker>("l");
    const Kronecker d = vc_any<Kronecker>("d");
    Pre p{v, k};
    Pre& r = (p *= d);
    vc_assert(&r == &p && vc_same(p.value, v) && is_concat(p.kroneckers, k, Ks{d}), "one delta is appended");
    Pre q{v, k};
    Pre& s = (q *= l);
    vc_assert(&s == &q && vc_same(q.value, v) && is_concat(q.kroneckers, k, l), "several deltas are appended in order");
    Pre t{v, k};
    t *= t.kroneckers;
    vc_assert(vc_same(t.value, v) && is_concat(t.kroneckers, k, k), "its own deltas are appended once more");
}

VC_PROP(times_prefactor)
{
    const double v = vc_real("v"), w = vc_real("w");
    const Ks k = vc_seq<Kronecker>("k"), l = vc_seq<Kronecker>("l");
    const Pre a{v, k}, b{w, l};
    const Pre c = a * b;
    vc_assert(vc_near(c.value, v * w) && is_concat(c.kroneckers, k, l), "the product multiplies the values and appends the deltas");
    vc_assert(vc_same(a.value, v) && vc_same(a.kroneckers, k) && vc_same(b.value, w) && vc_same(b.kroneckers, l), "the operands are unchanged");
    Pre d{v, k};
    Pre& r = (d *= b);
    vc_assert(&r == &d && vc_near(d.value, v * w) && vc_same(d.kroneckers, c.kroneckers), "in-place and copying product agree");
    Pre t{v, k};
    t *= t;
    vc_assert(vc_near(t.value, v * v) && is_concat(t.kroneckers, k, k), "a prefactor multiplied in place with itself is its square");
    const Kronecker x = vc_any<Kronecker>("x"), y = vc_any<Kronecker>("y");
    const Pre m = symbolic::make_prefactor(v, {x, y});
    vc_assert(vc_same(m.value, v) && m.kroneckers.size() == 2 && vc_same(m.kroneckers[0], x) && vc_same(m.kroneckers[1], y), "make_prefactor");
    vc_assert(symbolic::make_prefactor(v).kroneckers.empty(), "make_prefactor without deltas");
}

// the smaller name first
Kronecker ordered(const Kronecker& k) { return k.b < k.a ? Kronecker{k.b, k.a} : k; }
bool not_after(const Kronecker& x, const Kronecker& y) { return x.a < y.a || (vc_same(x.a, y.a) && !(y.b < x.b)); }

VC_PROP(ordering)
{
    const double v = vc_real("v");
    const Ks k = vc_seq<Kronecker>("k");
    Pre p{v, k};
    p.order_kroneckers();
    const Ks& r = p.kroneckers;
    Ks n;
    for(uint64_t i = 0; i < k.size(); ++i) n.push_back(ordered(k[i]));
    vc_assert(vc_same(p.value, v) && r.size() == k.size(), "the value and the number of deltas are kept");
    vc_assert(vc_is_perm(r, n), "the deltas are the same, each with the smaller name first");
    vc_assert(vc_forall(r.size(), [&](uint64_t i) { return vc_forall(i, [&](uint64_t j) { return not_after(r[j], r[i]); }); }), "sorted by first, then second name");
}

// a sorted arrangement is unique: two sorted sequences agreeing up to position i, one of which has
// a smaller delta at i than all remaining ones of the other, cannot be rearrangements of each other;
// here: two deltas neither of which comes after the other are identical
VC_PROP(canonical)
{
    const Kronecker x = vc_any<Kronecker>("x"), y = vc_any<Kronecker>("y"), z = vc_any<Kronecker>("z");
    vc_assert(!(not_after(x, y) && not_after(y, x)) || vc_same(x, y), "the order of deltas is antisymmetric");
    vc_assert(!(not_after(x, y) && not_after(y, z)) || not_after(x, z), "the order of deltas is transitive");
    vc_assert(not_after(x, y) || not_after(y, x), "the order of deltas is total");
    vc_assert(vc_same(ordered(x), ordered(Kronecker{x.b, x.a})), "a delta and its mirror image have one ordered form");
}
