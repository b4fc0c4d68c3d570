// A row-wise filled sparse matrix that checks the protocol of blaze::CompressedMatrix
// (rows are appended in order with increasing columns, each row is finalised once, the reserved
// capacity is not exceeded) and keeps the entry at one arbitrary position.
#ifndef RECORDER_HPP_
#define RECORDER_HPP_
#include <cstdint>

#include "ieompp/types/matrix.hpp"
#include "vc.hpp"

template <typename Scalar>
struct Recorder {
    uint64_t watched_row, watched_column; // the arbitrary position
    uint64_t n, m, capacity, used, row, last;
    double hits; // how often the position was written
    bool fresh;
    Scalar value;

    Recorder(uint64_t r, uint64_t c) : watched_row(r), watched_column(c), n(0), m(0), capacity(0), used(0), row(0), last(0), hits(0.), fresh(true), value(0.) {}

    void resize(uint64_t rows, uint64_t columns, bool = true)
    {
        n = rows;
        m = columns;
    }
    void reset()
    {
        used  = 0;
        row   = 0;
        hits  = 0.;
        fresh = true;
        value = Scalar(0.);
    }
    void reserve(uint64_t c) { capacity = c; }
    void append(uint64_t r, uint64_t c, const Scalar& v, bool = false)
    {
        vc_assert(r == row && r < n, "elements are appended to the row under construction");
        vc_assert(c < m, "columns are within the matrix");
        vc_assert(fresh || last < c, "columns increase within a row");
        vc_assert(used < capacity, "the announced capacity suffices");
        last  = c;
        fresh = false;
        ++used;
        if(r == watched_row && c == watched_column) {
            value += v;
            hits += 1.;
        }
    }
    void finalize(uint64_t r)
    {
        vc_assert(r == row && r < n, "rows are finalised once and in order");
        ++row;
        fresh = true;
    }
    uint64_t rows() const { return n; }
    uint64_t columns() const { return m; }
};
namespace ieompp
{
    namespace types
    {
        template <typename S>
        struct IsMatrix<Recorder<S>> {
            static constexpr bool value = true;
        };
        template <typename S>
        struct ScalarType<Recorder<S>> {
            using Type = S;
        };
        template <typename S>
        struct IndexType<Recorder<S>> {
            using Type = uint64_t;
        };
        template <typename S>
        struct MatrixDimensionInfo<Recorder<S>> {
            static uint64_t rows(const Recorder<S>& r) { return r.n; }
            static uint64_t columns(const Recorder<S>& r) { return r.m; }
        };
    } // namespace types
} // namespace ieompp
#endif
