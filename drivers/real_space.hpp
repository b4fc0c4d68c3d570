// Contracts of the lattice and of the three-operator basis for the matrix builders.
// The clauses assumed here are those that C09/C10 (lattices) and C15 (basis) prove about the
// real classes; the executable uses the real classes.
#ifndef REAL_SPACE_HPP_
#define REAL_SPACE_HPP_
#include <array>
#include <cstdint>

template <typename L>
bool adjacent(const L& l, uint64_t a, uint64_t b)
{
    for(auto i : l.neighbors(a)) {
        if(i == b) {
            return true;
        }
    }
    return false;
}
inline Chain any_chain(uint64_t small)
{
    const uint64_t n = vc_u64("n");
    vc_assume(3 <= n && n <= 1000000 && vc_small(n, small));
    return Chain(n);
}

#ifdef VC_SYMBOLIC
// any lattice with Z distinct neighbours of every site
template <uint64_t Z>
struct Lattice {
    using Float     = double;
    using SiteIndex = uint64_t;
    static constexpr uint64_t coordination_number = Z;
    uint64_t n;
    std::function<uint64_t(uint64_t, uint64_t)> next;
    uint64_t size() const { return n; }
    iterators::IntegerIterator<uint64_t, true> begin() const { return iterators::IntegerIterator<uint64_t, true>(0); }
    iterators::IntegerIterator<uint64_t, true> end() const { return iterators::IntegerIterator<uint64_t, true>(n); }
    std::array<uint64_t, Z> neighbors(uint64_t i) const
    {
        assert(i < n);
        std::array<uint64_t, Z> a;
        for(uint64_t k = 0; k < Z; ++k) {
            a[k] = next(i, k);
        }
        return a;
    }
};
template <uint64_t Z>
Lattice<Z> any_lattice(uint64_t)
{
    const uint64_t n = vc_u64("n");
    vc_assume(3 <= n && n <= 500000); // the number of elements fits into 64 bits
    const Lattice<Z> l{n, vc_fun<uint64_t(uint64_t, uint64_t)>("neighbour")};
    // in range, not the site itself, distinct (C09, C10)
    vc_assume(vc_forall(n, [&](uint64_t i) {
        bool ok = true;
        for(uint64_t k = 0; k < Z; ++k) {
            ok = ok && l.next(i, k) < n && l.next(i, k) != i;
            for(uint64_t j = 0; j < k; ++j) {
                ok = ok && l.next(i, k) != l.next(i, j);
            }
        }
        return ok;
    }));
    return l;
}
// the three-operator basis: row N + N^2 i1 + N i2 + i3 holds c+(i1) c+(i2) c(i3) (C15)
namespace ieompp
{
    namespace models
    {
        namespace hubbard_real_space
        {
            template <>
            struct Basis3Operator<Mon> {
                using Monomial   = Mon;
                using BasisIndex = uint64_t;
                const BasisIndex N;
                const BasisIndex N_squared;
                std::function<uint64_t(uint64_t)> i1, i2, i3;
                std::function<uint64_t(uint64_t, uint64_t, uint64_t)> index;

                template <typename L>
                Basis3Operator(const L& l)
                    : N(l.size()), N_squared(N * N), i1(vc_fun<uint64_t(uint64_t)>("i1")), i2(vc_fun<uint64_t(uint64_t)>("i2")),
                      i3(vc_fun<uint64_t(uint64_t)>("i3")), index(vc_fun<uint64_t(uint64_t, uint64_t, uint64_t)>("index"))
                {
                    vc_assume(vc_forall(N, [&](uint64_t a) {
                        return vc_forall(N, [&](uint64_t b) {
                            return vc_forall(N, [&](uint64_t c) {
                                const uint64_t i = index(a, b, c);
                                return N <= i && i < N + N * N_squared && i1(i) == a && i2(i) == b && i3(i) == c;
                            });
                        });
                    }));
                    vc_assume(vc_forall(size(), [&](uint64_t i) {
                        return i < N || (i1(i) < N && i2(i) < N && i3(i) < N && index(i1(i), i2(i), i3(i)) == i);
                    }));
                }
                BasisIndex size() const { return N + N * N_squared; }
                Mon operator[](BasisIndex i) const
                {
                    assert(i < size());
                    if(i < N) {
                        return Mon{{{true, i, true}}};
                    }
                    return Mon{{{true, i1(i), true}, {true, i2(i), false}, {false, i3(i), false}}};
                }
                BasisIndex get_3op_index(BasisIndex a, BasisIndex b, BasisIndex c) const
                {
                    assert(a < N && b < N && c < N);
                    return index(a, b, c);
                }
            };
        } // namespace hubbard_real_space
    }     // namespace models
} // namespace ieompp
#else
template <uint64_t Z>
struct RealLattice;
template <>
struct RealLattice<2> {
    static Chain get(uint64_t n) { return Chain(n); }
};
template <>
struct RealLattice<4> {
    static Square get(uint64_t n) { return Square(n, 3); }
};
template <uint64_t Z>
auto any_lattice(uint64_t small) -> decltype(RealLattice<Z>::get(0))
{
    const uint64_t n = vc_u64("n");
    vc_assume(3 <= n && vc_small(n, small));
    return RealLattice<Z>::get(n);
}
#endif
#endif
