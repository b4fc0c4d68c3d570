// C15: the excited Fermi sea obeys the Pauli principle for every operation history
//
// The state of the tracker is related to occupation numbers: a mode is occupied if it is
// initially occupied and not in the list of annihilated ones, or in the list of created ones.
// The Fermi sea is a valid state, and every operation on any valid state gives a valid state
// with the occupation numbers of the operation; the histories follow by induction.
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/models/hubbard_momentum_space/excited_fermi_sea.hpp"

#include "vc.hpp"

using namespace ieompp;
using Op = algebra::Operator<uint64_t, bool>;
using Mon = algebra::Monomial<Op>;
using Mode = Op::Indices;
using Sea = models::hubbard_momentum_space::ExcitedFermiSea<Mon>;

VC_REFLECT(Op, creator, index1, index2)
VC_REFLECT_GEN(Mode, Mode(draw<uint64_t>(n + ".#0"), draw<bool>(n + ".#1")))
#ifndef VC_SYMBOLIC
namespace vc {
    template <>
    struct Gen<Mon> {
        static Mon make(const std::string& n)
        {
            Mon m;
            for(auto& o : draw<std::vector<Op>>(n)) m.push_back(o);
            return m;
        }
    };
}
#endif

struct AnyDispersion {
    using Float = double;
    std::function<double(uint64_t)> e;
    double operator()(uint64_t k) const { return e(k); }
};

struct Env {
    AnyDispersion e;
    double ef;
    bool initially(const Mode& m) const { return e.e(std::get<0>(m)) < ef; }
};
static Env env() { return Env{AnyDispersion{vc_fun<double(uint64_t)>("e")}, vc_real("ef")}; }

static Mode elem(const std::list<Mode>& l, uint64_t i) { return *std::next(l.begin(), i); }
static bool same_mode(const Mode& a, const Mode& b) { return std::get<0>(a) == std::get<0>(b) && std::get<1>(a) == std::get<1>(b); }
static bool has(const std::list<Mode>& l, const Mode& m)
{
    return vc_exists(l.size(), [&](uint64_t i) { return same_mode(elem(l, i), m); });
}
static bool unique(const std::list<Mode>& l)
{
    return vc_forall(l.size(), [&](uint64_t i) { return vc_forall(i, [&](uint64_t j) { return !same_mode(elem(l, i), elem(l, j)); }); });
}
static bool valid(const Sea& s, const Env& v)
{
    return unique(s.created_particles) && unique(s.annihilated_particles)
           && vc_forall(s.created_particles.size(), [&](uint64_t i) { return !v.initially(elem(s.created_particles, i)); })
           && vc_forall(s.annihilated_particles.size(), [&](uint64_t i) { return v.initially(elem(s.annihilated_particles, i)); });
}
static bool occupied(const Sea& s, const Env& v, const Mode& m) { return v.initially(m) ? !has(s.annihilated_particles, m) : has(s.created_particles, m); }

// an arbitrary valid state
static Sea state(const Env& v)
{
    const auto c = vc_seq<Mode>("created"), a = vc_seq<Mode>("annihilated");
    Sea s;
    s.created_particles = std::list<Mode>(c.begin(), c.end());
    s.annihilated_particles = std::list<Mode>(a.begin(), a.end());
    vc_assume(valid(s, v));
    return s;
}
static Mode mode(const char* k, const char* up) { return Mode(vc_u64(k), vc_bool(up)); }

VC_PROP(fermi_sea)
{
    const Env v = env();
    const Mode m = mode("k", "up");
    const Sea s;
    vc_assert(!s.vanishes && valid(s, v) && s.is_initial_fermi_sea(), "the initial state is the Fermi sea");
    vc_assert(occupied(s, v, m) == v.initially(m), "its occupation numbers are the initial ones");
    vc_assert(Sea::is_initially_occupied(m, v.e, v.ef) == v.initially(m), "modes below the Fermi energy are occupied");
}
// the state after creating (or annihilating) m in a state with occupation `was` of m
static void stepped(const Sea& s, const Sea& s0, const Env& v, bool create, const Mode& m, const Mode& x)
{
    const bool was = occupied(s0, v, m);
    vc_assert(s.vanishes == (was == create), "the state vanishes exactly if the operation is forbidden");
    if(s.vanishes) return;
    vc_assert(unique(s.created_particles), "no created particle is listed twice");
    vc_assert(unique(s.annihilated_particles), "no annihilated particle is listed twice");
    vc_assert(vc_forall(s.created_particles.size(), [&](uint64_t i) { return !v.initially(elem(s.created_particles, i)); }), "created particles are not initially occupied");
    vc_assert(vc_forall(s.annihilated_particles.size(), [&](uint64_t i) { return v.initially(elem(s.annihilated_particles, i)); }), "annihilated particles are initially occupied");
    vc_assert(occupied(s, v, m) == create, "the operation flips the occupation of the mode");
    vc_assume(!same_mode(x, m));
    vc_assert(occupied(s, v, x) == occupied(s0, v, x), "no other occupation changes");
}
VC_PROP(create)
{
    const Env v = env();
    const Sea s0 = state(v);
    const Mode m = mode("k", "up"), x = mode("kx", "upx");
    Sea s(s0);
    const bool r = s.create_particle(m, v.e, v.ef);
    vc_assert(r == !s.vanishes, "the return value tells whether the operation was possible");
    stepped(s, s0, v, true, m, x);
}
VC_PROP(annihilate)
{
    const Env v = env();
    const Sea s0 = state(v);
    const Mode m = mode("k", "up"), x = mode("kx", "upx");
    Sea s(s0);
    const bool r = s.annihilate_particle(m, v.e, v.ef);
    vc_assert(r == !s.vanishes, "the return value tells whether the operation was possible");
    stepped(s, s0, v, false, m, x);
}
// every case of operator, initial occupation and occupation on its own
static void applied(bool create, bool init, bool was)
{
    const Env v = env();
    const Sea s0 = state(v);
    const Mode m = mode("k", "up"), x = mode("kx", "upx");
    vc_assume(v.initially(m) == init && (init ? !has(s0.annihilated_particles, m) : has(s0.created_particles, m)) == was);
    Sea s(s0);
    const bool r = s.apply_operator(Op{create, std::get<0>(m), std::get<1>(m)}, v.e, v.ef);
    vc_assert(r == s.vanishes, "the return value tells whether the state vanishes");
    stepped(s, s0, v, create, m, x);
}
VC_PROP(apply_cin_full) { applied(true, true, true); }
VC_PROP(apply_cin_empty) { applied(true, true, false); }
VC_PROP(apply_cout_full) { applied(true, false, true); }
VC_PROP(apply_cout_empty) { applied(true, false, false); }
VC_PROP(apply_ain_full) { applied(false, true, true); }
VC_PROP(apply_ain_empty) { applied(false, true, false); }
VC_PROP(apply_aout_full) { applied(false, false, true); }
VC_PROP(apply_aout_empty) { applied(false, false, false); }
VC_PROP(vanished)
{
    // a vanished state stays vanished
    const Env v = env();
    Sea s = state(v);
    s.vanishes = true;
    const int op = vc_u64("op") % 4;
    const Mode m = mode("k", "up");
    if(op == 0)
        s.create_particle(m, v.e, v.ef);
    else if(op == 1)
        s.annihilate_particle(m, v.e, v.ef);
    else if(op == 2)
        s.apply_operator(Op{vc_bool("creator"), std::get<0>(m), std::get<1>(m)}, v.e, v.ef);
    else
        s.apply_monomial(vc_any<Mon>("mon"), v.e, v.ef);
    vc_assert(s.vanishes && !s.is_initial_fermi_sea(), "a vanished state stays vanished");
}
VC_PROP(initial)
{
    const Env v = env();
    const Sea s = state(v);
    const Mode m = mode("k", "up");
    const bool same = s.is_initial_fermi_sea();
    if(same) vc_assert(occupied(s, v, m) == v.initially(m), "the initial Fermi sea has the initial occupations");
    if(!same)
        vc_assert(vc_exists(s.created_particles.size(), [&](uint64_t i) { return occupied(s, v, elem(s.created_particles, i)) != v.initially(elem(s.created_particles, i)); })
                      || vc_exists(s.annihilated_particles.size(), [&](uint64_t i) { return occupied(s, v, elem(s.annihilated_particles, i)) != v.initially(elem(s.annihilated_particles, i)); }),
                  "any other state differs from it in some occupation");
}
// Products apply the operations to their operators from right to left, until the state vanishes.
// Here apply_monomial is checked against any behaviour of create_particle and annihilate_particle
// (specialised for this dispersion type), which record how they are called; what they do is the
// subject of the contracts above.
struct Recorder {
    using Float = double;
    struct Event {
        bool creator;
        uint64_t k;
        bool up;
        double ef;
    };
    std::function<bool(uint64_t)> possible; // is the n-th operation possible?
    mutable std::vector<Event> log;
};
namespace ieompp { namespace models { namespace hubbard_momentum_space {
    template <>
    template <>
    bool ExcitedFermiSea<Mon>::create_particle<Mode, Recorder>(const Mode& m, const Recorder& r, const double& ef)
    {
        r.log.push_back(Recorder::Event{true, std::get<0>(m), std::get<1>(m), ef});
        vanishes = !r.possible(r.log.size());
        return !vanishes;
    }
    template <>
    template <>
    bool ExcitedFermiSea<Mon>::annihilate_particle<Mode, Recorder>(const Mode& m, const Recorder& r, const double& ef)
    {
        r.log.push_back(Recorder::Event{false, std::get<0>(m), std::get<1>(m), ef});
        vanishes = !r.possible(r.log.size());
        return !vanishes;
    }
}}}
VC_PROP(right_to_left)
{
    Recorder r{vc_fun<bool(uint64_t)>("possible"), {}};
    const Mon o = vc_any<Mon>("mon");
    const double ef = vc_real("ef");
    Sea s;
    s.apply_monomial(o, r, ef);
    const uint64_t n = r.log.size(), size = o.size();
    vc_assert(n <= size && (n == size || s.vanishes), "every operator is applied, unless the state vanishes before");
    vc_assert(vc_forall(n, [&](uint64_t i) {
                  return r.log[i].creator == o[size - 1 - i].creator && r.log[i].k == o[size - 1 - i].index1 && r.log[i].up == o[size - 1 - i].index2 && r.log[i].ef == ef;
              }),
              "the operators are applied from right to left");
    vc_assert(vc_forall(n, [&](uint64_t i) { return i + 1 == n || r.possible(i + 1); }), "no operator is applied to a vanished state");
    vc_assert(s.vanishes == (n != 0 && !r.possible(n)), "the state vanishes if one of the operators is forbidden");
}
VC_PROP(single)
{
    Recorder r{vc_fun<bool(uint64_t)>("possible"), {}};
    const Op o = vc_any<Op>("op");
    const double ef = vc_real("ef");
    Sea s;
    s.apply_operator(o, r, ef);
    vc_assert(r.log.size() == 1 && r.log[0].creator == o.creator && r.log[0].k == o.index1 && r.log[0].up == o.index2 && r.log[0].ef == ef, "the operator is applied once");
    vc_assert(s.vanishes == !r.possible(1), "the state vanishes if the operator is forbidden");
}
static uint64_t flips(const Mon& o, uint64_t first, const Mode& m)
{
    return vc_sum(o.size() - first, [&](uint64_t i) { return same_mode(algebra::get_indices(o[first + i]), m) ? uint64_t(1) : uint64_t(0); });
}
VC_PROP(apply_monomial)
{
    const Env v = env();
    const Sea s0 = state(v);
    const Mode x = mode("kx", "upx");
    const Mon o = vc_any<Mon>("mon");
    Sea s(s0);
    s.apply_monomial(o, v.e, v.ef);
    vc_assert(s.vanishes == vc_exists(o.size(), [&](uint64_t i) {
                  const Mode m = algebra::get_indices(o[i]);
                  return (occupied(s0, v, m) != (flips(o, i + 1, m) % 2 == 1)) == o[i].creator;
              }),
              "the state vanishes exactly if one of the operators, from right to left, is forbidden");
    if(s.vanishes) return;
    vc_assert(valid(s, v), "the lists stay valid");
    vc_assert(occupied(s, v, x) == (occupied(s0, v, x) != (flips(o, 0, x) % 2 == 1)), "every operator flips the occupation of its mode");
}
