// Included before every driver. For the verifier: definitions of algorithms of the C++ library by
// loops (as in the standard's description); calls of std::X for which vcg/std.py has no contract
// are verified with the body of vcalg::X.
#ifndef VC_STD_HPP
#define VC_STD_HPP
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#ifdef VC_SYMBOLIC
namespace vcalg
{
    template <class I, class F>
    F for_each(I a, I b, F f)
    {
        for(; a != b; ++a) f(*a);
        return f;
    }
    template <class I1, class I2>
    std::pair<I1, I2> mismatch(I1 a, I1 b, I2 c)
    {
        while(a != b && *a == *c) {
            ++a;
            ++c;
        }
        return std::pair<I1, I2>(a, c);
    }
    template <class I1, class I2, class P>
    std::pair<I1, I2> mismatch(I1 a, I1 b, I2 c, P p)
    {
        while(a != b && p(*a, *c)) {
            ++a;
            ++c;
        }
        return std::pair<I1, I2>(a, c);
    }
    template <class I1, class I2>
    bool lexicographical_compare(I1 a, I1 b, I2 c, I2 d)
    {
        for(; a != b && c != d; ++a, ++c) {
            if(*a < *c || *c < *a) return *a < *c;
        }
        return a == b && c != d;
    }
    template <class I1, class I2, class P>
    bool lexicographical_compare(I1 a, I1 b, I2 c, I2 d, P less)
    {
        for(; a != b && c != d; ++a, ++c) {
            if(less(*a, *c) || less(*c, *a)) return less(*a, *c);
        }
        return a == b && c != d;
    }
    template <class I>
    I min_element(I a, I b)
    {
        if(a == b) return b;
        I m = a;
        while(++a != b) {
            if(*a < *m) m = a;
        }
        return m;
    }
    template <class I, class P>
    I min_element(I a, I b, P less)
    {
        if(a == b) return b;
        I m = a;
        while(++a != b) {
            if(less(*a, *m)) m = a;
        }
        return m;
    }
    template <class I>
    I max_element(I a, I b)
    {
        if(a == b) return b;
        I m = a;
        while(++a != b) {
            if(*m < *a) m = a;
        }
        return m;
    }
    template <class I, class P>
    I max_element(I a, I b, P less)
    {
        if(a == b) return b;
        I m = a;
        while(++a != b) {
            if(less(*m, *a)) m = a;
        }
        return m;
    }
    template <class I>
    I adjacent_find(I a, I b)
    {
        if(a == b) return b;
        I n = a;
        for(++n; n != b; ++a, ++n) {
            if(*a == *n) return a;
        }
        return b;
    }
    template <class I, class P>
    I adjacent_find(I a, I b, P p)
    {
        if(a == b) return b;
        I n = a;
        for(++n; n != b; ++a, ++n) {
            if(p(*a, *n)) return a;
        }
        return b;
    }
    template <class I, class T>
    T accumulate(I a, I b, T init)
    {
        for(; a != b; ++a) init = init + *a;
        return init;
    }
    template <class I, class T, class F>
    T accumulate(I a, I b, T init, F f)
    {
        for(; a != b; ++a) init = f(init, *a);
        return init;
    }
    template <class I1, class I2, class T>
    T inner_product(I1 a, I1 b, I2 c, T init)
    {
        for(; a != b; ++a, ++c) init = init + *a * *c;
        return init;
    }
    template <class I1, class I2, class T, class F, class G>
    T inner_product(I1 a, I1 b, I2 c, T init, F f, G g)
    {
        for(; a != b; ++a, ++c) init = f(init, g(*a, *c));
        return init;
    }
    template <class I, class O, class F>
    O transform(I a, I b, O o, F f)
    {
        for(; a != b; ++a, ++o) *o = f(*a);
        return o;
    }
    template <class I1, class I2, class O, class F>
    O transform(I1 a, I1 b, I2 c, O o, F f)
    {
        for(; a != b; ++a, ++c, ++o) *o = f(*a, *c);
        return o;
    }
    template <class I, class F>
    void generate(I a, I b, F f)
    {
        for(; a != b; ++a) *a = f();
    }
    template <class O, class N, class F>
    O generate_n(O o, N n, F f)
    {
        for(N i = 0; i < n; ++i, ++o) *o = f();
        return o;
    }
    template <class I, class O, class P>
    O copy_if(I a, I b, O o, P p)
    {
        for(; a != b; ++a) {
            if(p(*a)) {
                *o = *a;
                ++o;
            }
        }
        return o;
    }
    template <class I, class O>
    O copy(I a, I b, O o)
    {
        for(; a != b; ++a, ++o) *o = *a;
        return o;
    }
    template <class I, class N, class O>
    O copy_n(I a, N n, O o)
    {
        for(N i = 0; i < n; ++i, ++a, ++o) *o = *a;
        return o;
    }
    template <class I, class T>
    void replace(I a, I b, const T& x, const T& y)
    {
        for(; a != b; ++a) {
            if(*a == x) *a = y;
        }
    }
    template <class I, class P, class T>
    void replace_if(I a, I b, P p, const T& y)
    {
        for(; a != b; ++a) {
            if(p(*a)) *a = y;
        }
    }
    template <class I1, class I2>
    I2 swap_ranges(I1 a, I1 b, I2 c)
    {
        for(; a != b; ++a, ++c) std::swap(*a, *c);
        return c;
    }
    template <class I>
    bool is_sorted(I a, I b)
    {
        if(a == b) return true;
        I n = a;
        for(++n; n != b; ++a, ++n) {
            if(*n < *a) return false;
        }
        return true;
    }
    template <class I, class P>
    bool is_sorted(I a, I b, P less)
    {
        if(a == b) return true;
        I n = a;
        for(++n; n != b; ++a, ++n) {
            if(less(*n, *a)) return false;
        }
        return true;
    }
    template <class I, class T>
    bool binary_search(I a, I b, const T& x)
    {
        a = std::lower_bound(a, b, x);
        return a != b && !(x < *a);
    }
    template <class I, class T, class P>
    bool binary_search(I a, I b, const T& x, P less)
    {
        a = std::lower_bound(a, b, x, less);
        return a != b && !less(x, *a);
    }
    template <class T>
    T exchange(T& x, T y)
    {
        T old = x;
        x = y;
        return old;
    }
} // namespace vcalg
#endif
#endif
