// C27: integer iterators obey the laws of random access iterators
#include "ieompp/iterators/integer_iterator.hpp"

#include "vc.hpp"

#include <cstdint>
#include <utility>

using namespace ieompp;
template <typename T, bool c>
using It = iterators::IntegerIterator<T, c>;

template <typename T> struct Draw;
template <> struct Draw<uint64_t> {
    static uint64_t make(const char* n) { return vc_u64(n); }
    static bool in_range(uint64_t, uint64_t) { return true; }
};
template <> struct Draw<int64_t> {
    static int64_t make(const char* n) { return vc_i64(n); }
    // no overflow
    static bool in_range(int64_t a, int64_t b) { const int64_t m = int64_t(1) << 61; return -m < a && a < m && -m < b && b < m; }
};
template <> struct Draw<uint32_t> {
    static uint32_t make(const char* n) { return vc_any<uint32_t>(n); }
    static bool in_range(uint32_t, uint32_t) { return true; }
};

#define ENV                                            \
    const T a = Draw<T>::make("a"), n = Draw<T>::make("n"); \
    vc_assume(Draw<T>::in_range(a, n));                \
    It<T, c> it(a);

template <typename T, bool c>
static void access()
{
    ENV
    vc_assert(*it == a, "dereferencing gives the current integer");
    vc_assert(it[n] == *(it + n), "it[n] is *(it + n)");
    vc_assert(it[n] == T(a + n), "it[n] is n further");
    vc_assert(*it == a, "access does not move the iterator");
}
template <typename T, bool c>
static void offset()
{
    ENV
    const It<T, c> x(it);
    vc_assert(*(x + n) == T(a + n), "it + n moves forward by n");
    vc_assert(*(x - n) == T(a - n), "it - n moves back by n");
    vc_assert((x + n) - n == x && (x - n) + n == x, "+ n and - n undo each other");
    vc_assert(*(n + x) == T(n + a), "n + it is it + n");
    vc_assert(x == it, "offsets do not move the iterator");
}
template <typename T, bool c>
static void in_place()
{
    ENV
    It<T, c> x(a), y(a);
    It<T, c>& rx = (x += n);
    vc_assert(x == it + n && &rx == &x, "+= moves forward by n");
    It<T, c>& ry = (y -= n);
    vc_assert(y == it - n && &ry == &y, "-= moves back by n");
    x -= n;
    y += n;
    vc_assert(x == it && y == it, "-= and += undo each other");
}
template <typename T, bool c>
static void steps()
{
    ENV
    const T r = ++it;
    vc_assert(r == T(a + 1) && *it == T(a + 1), "++it moves by one and gives the new position");
    It<T, c> old = it++;
    vc_assert(*old == T(a + 1) && *it == T(a + 2), "it++ moves by one and gives the old position");
    const T s = --it;
    vc_assert(s == T(a + 1) && *it == T(a + 1), "--it moves back by one and gives the new position");
    It<T, c> last = it--;
    vc_assert(*last == T(a + 1) && *it == a, "it-- moves back by one and gives the old position");
}
template <typename T, bool c>
static void comparisons()
{
    ENV
    const It<T, c> x(a), y(n);
    vc_assert((x == y) == (a == n), "== compares the integers");
    vc_assert((x != y) == (a != n), "!= compares the integers");
    vc_assert((x < y) == (a < n), "< compares the integers");
    vc_assert((x > y) == (a > n), "> compares the integers");
    vc_assert((x <= y) == (a <= n), "<= compares the integers");
    vc_assert((x >= y) == (a >= n), ">= compares the integers");
    vc_assert(y + (x - y) == x, "the difference is the number of steps between the positions");
    vc_assert((x + n) - x == n, "the difference of it + n and it is n");
}
template <typename T, bool c>
static void assigned()
{
    ENV
    It<T, c> x(a), y(n), z(x);
    vc_assert(z == x, "a copy is at the same position");
    x.swap(y);
    vc_assert(*x == n && *y == a, "swapping exchanges both positions");
    z = x;
    vc_assert(*z == n && *x == n, "assignment copies the position");
    ++z;
    vc_assert(*x == n, "copies are independent");
    It<T, c>& q = x;
    x.swap(q);
    vc_assert(*x == n, "swapping with itself changes nothing");
}
#define ALL(name)                                           \
    VC_PROP(name##_u64) { name<uint64_t, false>(); }        \
    VC_PROP(name##_u64_const) { name<uint64_t, true>(); }   \
    VC_PROP(name##_i64) { name<int64_t, false>(); }         \
    VC_PROP(name##_u32) { name<uint32_t, false>(); }
ALL(offset)
ALL(in_place)
ALL(comparisons)
// dereferencing a mutable iterator or one stored in a const object: the reference type
ALL(access)
ALL(steps)
ALL(assigned)
