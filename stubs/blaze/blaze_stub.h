// Stand-in for the few parts of the Blaze library (not installed here) that /repo's headers
// need in order to compile; it plays the role of Blaze's contract.
#ifndef VC_BLAZE_STUB_H_
#define VC_BLAZE_STUB_H_
#include <array>
#include <cassert>
#include <cstddef>
#include <vector>

#define BLAZE_MAJOR_VERSION 3
#define BLAZE_MINOR_VERSION 0

namespace blaze
{
    using size_t = ::std::size_t;

    constexpr bool columnVector = false;
    constexpr bool rowVector    = true;
    constexpr bool rowMajor     = false;
    constexpr bool columnMajor  = true;

    template <typename T, size_t N, bool TF = columnVector>
    class StaticVector
    {
        std::array<T, N> _v;

    public:
        using ElementType = T;
        StaticVector() : _v() {}
        StaticVector(const T& a, const T& b) : _v{{a, b}} {}
        T& operator[](size_t i) { return _v[i]; }
        const T& operator[](size_t i) const { return _v[i]; }
        size_t size() const { return N; }
    };

    template <typename T, size_t N>
    StaticVector<T, N, rowVector> trans(const StaticVector<T, N, columnVector>& v)
    {
        StaticVector<T, N, rowVector> r;
        for(size_t i = 0; i < N; ++i) r[i] = v[i];
        return r;
    }
    template <typename T, size_t N>
    T operator*(const StaticVector<T, N, rowVector>& a, const StaticVector<T, N, columnVector>& b)
    {
        T r = T(0);
        for(size_t i = 0; i < N; ++i) r += a[i] * b[i];
        return r;
    }
    template <typename T, size_t N, bool TF>
    StaticVector<T, N, TF> operator-(const StaticVector<T, N, TF>& a, const StaticVector<T, N, TF>& b)
    {
        StaticVector<T, N, TF> r;
        for(size_t i = 0; i < N; ++i) r[i] = a[i] - b[i];
        return r;
    }
    template <typename T, size_t N, bool TF>
    StaticVector<T, N, TF> operator+(const StaticVector<T, N, TF>& a, const StaticVector<T, N, TF>& b)
    {
        StaticVector<T, N, TF> r;
        for(size_t i = 0; i < N; ++i) r[i] = a[i] + b[i];
        return r;
    }

    template <typename T, bool TF = columnVector>
    class DynamicVector
    {
        std::vector<T> _v;

    public:
        using ElementType = T;
        DynamicVector() = default;
        explicit DynamicVector(size_t n) : _v(n) {}
        DynamicVector(size_t n, const T& init) : _v(n, init) {}
        T& operator[](size_t i) { return _v[i]; }
        const T& operator[](size_t i) const { return _v[i]; }
        T& operator()(size_t i) { return _v[i]; }
        const T& operator()(size_t i) const { return _v[i]; }
        size_t size() const { return _v.size(); }
        void resize(size_t n, bool = true) { _v.resize(n); }
        void reset()
        {
            for(size_t i = 0; i < _v.size(); ++i) _v[i] = T(0);
        }
        void swap(DynamicVector& o) { _v.swap(o._v); }
    };

    // Blaze refuses (throws) when the sizes of the operands differ
    template <typename T, bool TF>
    DynamicVector<T, TF> operator+(const DynamicVector<T, TF>& a, const DynamicVector<T, TF>& b)
    {
        assert(a.size() == b.size());
        DynamicVector<T, TF> r(a.size());
        for(size_t i = 0; i < a.size(); ++i) r[i] = a[i] + b[i];
        return r;
    }
    template <typename T, bool TF>
    DynamicVector<T, TF> operator-(const DynamicVector<T, TF>& a, const DynamicVector<T, TF>& b)
    {
        assert(a.size() == b.size());
        DynamicVector<T, TF> r(a.size());
        for(size_t i = 0; i < a.size(); ++i) r[i] = a[i] - b[i];
        return r;
    }
    template <typename T, bool TF>
    DynamicVector<T, TF> operator*(double s, const DynamicVector<T, TF>& a)
    {
        DynamicVector<T, TF> r(a.size());
        for(size_t i = 0; i < a.size(); ++i) r[i] = s * a[i];
        return r;
    }
    template <typename T, bool TF>
    DynamicVector<T, TF> operator*(const DynamicVector<T, TF>& a, double s)
    {
        return s * a;
    }
    template <typename T, bool TF>
    DynamicVector<T, TF>& operator+=(DynamicVector<T, TF>& a, const DynamicVector<T, TF>& b)
    {
        assert(a.size() == b.size());
        for(size_t i = 0; i < a.size(); ++i) a[i] += b[i];
        return a;
    }
    template <typename T, bool TF>
    DynamicVector<T, TF>& operator-=(DynamicVector<T, TF>& a, const DynamicVector<T, TF>& b)
    {
        assert(a.size() == b.size());
        for(size_t i = 0; i < a.size(); ++i) a[i] -= b[i];
        return a;
    }
    template <typename T, bool TF>
    DynamicVector<T, TF>& operator*=(DynamicVector<T, TF>& a, double s)
    {
        for(size_t i = 0; i < a.size(); ++i) a[i] *= s;
        return a;
    }
    template <typename T, bool TF>
    DynamicVector<T, TF>& operator/=(DynamicVector<T, TF>& a, double s)
    {
        for(size_t i = 0; i < a.size(); ++i) a[i] /= s;
        return a;
    }

    template <typename T, bool TF = columnVector>
    class CompressedVector;
    template <typename T, bool SO = rowMajor>
    class DynamicMatrix;
    template <typename T, bool SO = rowMajor>
    class CompressedMatrix;
} // namespace blaze
#endif
