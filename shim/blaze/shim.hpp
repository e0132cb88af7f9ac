// A small stand-in for the parts of Blaze that ieompp uses (Blaze itself is not installed here).
// Eager evaluation, dense storage for vectors and dense matrices, row-wise sparse storage for
// CompressedMatrix.  It checks the preconditions that Blaze documents for the operations (order of
// append, existing elements on insert, sizes of operands, capacity of reserve) and throws
// blaze::misuse when they are violated, because with the real library that is undefined behaviour.
#ifndef VERIF_BLAZE_SHIM_HPP_
#define VERIF_BLAZE_SHIM_HPP_

#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <istream>
#include <ostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#define BLAZE_MAJOR_VERSION 3
#define BLAZE_MINOR_VERSION 1

namespace blaze
{
    using std::size_t;
    constexpr bool columnVector = false;
    constexpr bool rowVector    = true;
    constexpr bool rowMajor     = false;
    constexpr bool columnMajor  = true;

    struct misuse : std::logic_error {
        using std::logic_error::logic_error;
    };
    inline void need(bool c, const char* what)
    {
        if(!c) {
            throw misuse(std::string("blaze precondition violated: ") + what);
        }
    }

    template <typename A, typename B>
    using Mul = decltype(std::declval<A>() * std::declval<B>());
    template <typename A, typename B>
    using Add = decltype(std::declval<A>() + std::declval<B>());
    template <typename T>
    struct is_scalar : std::is_arithmetic<T> {
    };
    template <typename T>
    struct is_scalar<std::complex<T>> : std::true_type {
    };

    // ------------------------------------------------------------------ StaticVector
    template <typename T, size_t N, bool TF = columnVector>
    class StaticVector
    {
        std::array<T, N> _v;

    public:
        using ElementType = T;
        StaticVector() { _v.fill(T()); }
        explicit StaticVector(const T& x) { _v.fill(x); }
        StaticVector(std::initializer_list<T> l)
        {
            need(l.size() <= N, "StaticVector: too many initializers");
            _v.fill(T());
            std::copy(l.begin(), l.end(), _v.begin());
        }
        T& operator[](size_t i)
        {
            need(i < N, "StaticVector: index");
            return _v[i];
        }
        const T& operator[](size_t i) const
        {
            need(i < N, "StaticVector: index");
            return _v[i];
        }
        static constexpr size_t size() { return N; }
        auto begin() { return _v.begin(); }
        auto end() { return _v.end(); }
        auto begin() const { return _v.begin(); }
        auto end() const { return _v.end(); }
        StaticVector& operator+=(const StaticVector& r)
        {
            for(size_t i = 0; i < N; ++i) {
                _v[i] += r._v[i];
            }
            return *this;
        }
        StaticVector& operator-=(const StaticVector& r)
        {
            for(size_t i = 0; i < N; ++i) {
                _v[i] -= r._v[i];
            }
            return *this;
        }
        template <typename S>
        typename std::enable_if<is_scalar<S>::value, StaticVector&>::type operator*=(const S& s)
        {
            for(auto& x : _v) {
                x *= s;
            }
            return *this;
        }
        template <typename S>
        typename std::enable_if<is_scalar<S>::value, StaticVector&>::type operator/=(const S& s)
        {
            for(auto& x : _v) {
                x /= s;
            }
            return *this;
        }
        friend StaticVector operator+(StaticVector a, const StaticVector& b) { return a += b; }
        friend StaticVector operator-(StaticVector a, const StaticVector& b) { return a -= b; }
        friend StaticVector operator-(StaticVector a)
        {
            for(auto& x : a._v) {
                x = -x;
            }
            return a;
        }
        template <typename S>
        friend typename std::enable_if<is_scalar<S>::value, StaticVector>::type
        operator*(const S& s, StaticVector a)
        {
            return a *= s;
        }
        template <typename S>
        friend typename std::enable_if<is_scalar<S>::value, StaticVector>::type
        operator*(StaticVector a, const S& s)
        {
            return a *= s;
        }
        template <typename S>
        friend typename std::enable_if<is_scalar<S>::value, StaticVector>::type
        operator/(StaticVector a, const S& s)
        {
            return a /= s;
        }
        friend bool operator==(const StaticVector& a, const StaticVector& b) { return a._v == b._v; }
        friend bool operator!=(const StaticVector& a, const StaticVector& b) { return a._v != b._v; }
    };

    template <typename T, size_t N, bool TF>
    StaticVector<T, N, !TF> trans(const StaticVector<T, N, TF>& v)
    {
        StaticVector<T, N, !TF> r;
        std::copy(v.begin(), v.end(), r.begin());
        return r;
    }
    template <typename T, size_t N>
    T operator*(const StaticVector<T, N, rowVector>& a, const StaticVector<T, N, columnVector>& b)
    {
        T s{};
        for(size_t i = 0; i < N; ++i) {
            s += a[i] * b[i];
        }
        return s;
    }

    // ------------------------------------------------------------------ DynamicVector
    template <typename T, bool TF = columnVector>
    class DynamicVector
    {
        std::vector<T> _v;

    public:
        using ElementType = T;
        DynamicVector() = default;
        explicit DynamicVector(size_t n) : _v(n) {}
        DynamicVector(size_t n, const T& x) : _v(n, x) {}
        DynamicVector(std::initializer_list<T> l) : _v(l) {}
        size_t size() const { return _v.size(); }
        T& operator[](size_t i)
        {
            need(i < _v.size(), "DynamicVector: index out of range");
            return _v[i];
        }
        const T& operator[](size_t i) const
        {
            need(i < _v.size(), "DynamicVector: index out of range");
            return _v[i];
        }
        T& at(size_t i)
        {
            if(i >= _v.size()) {
                throw std::out_of_range("Invalid vector access index");
            }
            return _v[i];
        }
        const T& at(size_t i) const { return const_cast<DynamicVector*>(this)->at(i); }
        T* data() { return _v.data(); }
        const T* data() const { return _v.data(); }
        size_t capacity() const { return _v.capacity(); }
        void reserve(size_t n) { _v.reserve(n); }
        void extend(size_t n, bool = true) { _v.resize(_v.size() + n); }
        size_t nonZeros() const
        {
            return std::count_if(_v.begin(), _v.end(), [](const T& x) { return !(x == T()); });
        }
        DynamicVector& operator=(const T& x)
        {
            std::fill(_v.begin(), _v.end(), x);
            return *this;
        }
        auto cbegin() const { return _v.cbegin(); }
        auto cend() const { return _v.cend(); }
        void resize(size_t n, bool = true) { _v.resize(n); }
        void reset() { std::fill(_v.begin(), _v.end(), T()); }
        void clear() { _v.clear(); }
        void swap(DynamicVector& o) { _v.swap(o._v); }
        auto begin() { return _v.begin(); }
        auto end() { return _v.end(); }
        auto begin() const { return _v.begin(); }
        auto end() const { return _v.end(); }
        DynamicVector& operator+=(const DynamicVector& r)
        {
            need(size() == r.size(), "vector sizes do not match");
            for(size_t i = 0; i < size(); ++i) {
                _v[i] += r._v[i];
            }
            return *this;
        }
        DynamicVector& operator-=(const DynamicVector& r)
        {
            need(size() == r.size(), "vector sizes do not match");
            for(size_t i = 0; i < size(); ++i) {
                _v[i] -= r._v[i];
            }
            return *this;
        }
        template <typename S>
        typename std::enable_if<is_scalar<S>::value, DynamicVector&>::type operator*=(const S& s)
        {
            for(auto& x : _v) {
                x *= s;
            }
            return *this;
        }
        template <typename S>
        typename std::enable_if<is_scalar<S>::value, DynamicVector&>::type operator/=(const S& s)
        {
            for(auto& x : _v) {
                x /= s;
            }
            return *this;
        }
        template <typename S>
        friend typename std::enable_if<is_scalar<S>::value, DynamicVector>::type
        operator/(DynamicVector a, const S& s)
        {
            return a /= s;
        }
        friend DynamicVector operator-(DynamicVector a)
        {
            for(auto& x : a._v) {
                x = -x;
            }
            return a;
        }
        friend DynamicVector operator+(DynamicVector a, const DynamicVector& b) { return a += b; }
        friend DynamicVector operator-(DynamicVector a, const DynamicVector& b) { return a -= b; }
        template <typename S>
        friend typename std::enable_if<is_scalar<S>::value, DynamicVector>::type
        operator*(const S& s, DynamicVector a)
        {
            return a *= s;
        }
        template <typename S>
        friend typename std::enable_if<is_scalar<S>::value, DynamicVector>::type
        operator*(DynamicVector a, const S& s)
        {
            return a *= s;
        }
        friend bool operator==(const DynamicVector& a, const DynamicVector& b) { return a._v == b._v; }
        friend bool operator!=(const DynamicVector& a, const DynamicVector& b) { return a._v != b._v; }
    };
    template <typename T, bool TF>
    DynamicVector<T, !TF> trans(const DynamicVector<T, TF>& v)
    {
        DynamicVector<T, !TF> r(v.size());
        std::copy(v.begin(), v.end(), r.begin());
        return r;
    }
    template <typename T>
    T operator*(const DynamicVector<T, rowVector>& a, const DynamicVector<T, columnVector>& b)
    {
        need(a.size() == b.size(), "vector sizes do not match");
        T s{};
        for(size_t i = 0; i < a.size(); ++i) {
            s += a[i] * b[i];
        }
        return s;
    }
    template <typename T, bool TF>
    T dot(const DynamicVector<T, TF>& a, const DynamicVector<T, TF>& b)
    {
        need(a.size() == b.size(), "vector sizes do not match");
        T s{};
        for(size_t i = 0; i < a.size(); ++i) {
            s += a[i] * b[i];
        }
        return s;
    }
    template <typename T, bool TF>
    T inner(const DynamicVector<T, TF>& a, const DynamicVector<T, TF>& b)
    {
        return dot(a, b);
    }
    template <typename T, bool TF>
    T sum(const DynamicVector<T, TF>& a)
    {
        T s{};
        for(const auto& x : a) {
            s += x;
        }
        return s;
    }
    template <typename T, bool TF>
    DynamicVector<std::complex<T>, TF> conj(DynamicVector<std::complex<T>, TF> a)
    {
        for(auto& x : a) {
            x = std::conj(x);
        }
        return a;
    }
    template <typename T, bool TF>
    DynamicVector<std::complex<T>, !TF> ctrans(const DynamicVector<std::complex<T>, TF>& a)
    {
        return trans(conj(a));
    }
    template <typename T, bool TF>
    DynamicVector<T, TF> real(const DynamicVector<std::complex<T>, TF>& a)
    {
        DynamicVector<T, TF> r(a.size());
        std::transform(a.begin(), a.end(), r.begin(), [](const std::complex<T>& x) { return x.real(); });
        return r;
    }
    template <typename T, bool TF>
    DynamicVector<T, TF> imag(const DynamicVector<std::complex<T>, TF>& a)
    {
        DynamicVector<T, TF> r(a.size());
        std::transform(a.begin(), a.end(), r.begin(), [](const std::complex<T>& x) { return x.imag(); });
        return r;
    }
    template <typename T, bool TF>
    auto sqrLength(const DynamicVector<T, TF>& a)
    {
        decltype(std::norm(T())) s{};
        for(const auto& x : a) {
            s += std::norm(x);
        }
        return s;
    }
    template <typename T, bool TF>
    auto length(const DynamicVector<T, TF>& a)
    {
        return std::sqrt(sqrLength(a));
    }
    template <typename T, bool TF>
    auto norm(const DynamicVector<T, TF>& a)
    {
        return std::sqrt(sqrLength(a));
    }
    template <typename T, bool TF = columnVector>
    class CompressedVector : public DynamicVector<T, TF>
    {
    public:
        using DynamicVector<T, TF>::DynamicVector;
    };

    // ------------------------------------------------------------------ DynamicMatrix
    template <typename T, bool SO = rowMajor>
    class DynamicMatrix
    {
        size_t _m = 0, _n = 0;
        std::vector<T> _v;

    public:
        using ElementType = T;
        DynamicMatrix() = default;
        DynamicMatrix(size_t m, size_t n) : _m(m), _n(n), _v(m * n) {}
        DynamicMatrix(size_t m, size_t n, const T& x) : _m(m), _n(n), _v(m * n, x) {}
        DynamicMatrix(std::initializer_list<std::initializer_list<T>> l) : _m(l.size())
        {
            for(const auto& r : l) {
                _n = std::max(_n, r.size());
            }
            _v.resize(_m * _n);
            size_t i = 0;
            for(const auto& r : l) {
                size_t j = 0;
                for(const auto& x : r) {
                    _v[i * _n + j++] = x;
                }
                ++i;
            }
        }
        size_t rows() const { return _m; }
        size_t columns() const { return _n; }
        T& operator()(size_t i, size_t j)
        {
            need(i < _m && j < _n, "DynamicMatrix: index out of range");
            return _v[i * _n + j];
        }
        const T& operator()(size_t i, size_t j) const
        {
            need(i < _m && j < _n, "DynamicMatrix: index out of range");
            return _v[i * _n + j];
        }
        T* data() { return _v.data(); }
        const T* data() const { return _v.data(); }
        size_t spacing() const { return SO ? _m : _n; }
        T& at(size_t i, size_t j)
        {
            if(i >= _m || j >= _n) {
                throw std::out_of_range("Invalid matrix access index");
            }
            return (*this)(i, j);
        }
        const T& at(size_t i, size_t j) const { return const_cast<DynamicMatrix*>(this)->at(i, j); }
        DynamicMatrix& operator=(const T& x)
        {
            std::fill(_v.begin(), _v.end(), x);
            return *this;
        }
        void resize(size_t m, size_t n, bool = true)
        {
            std::vector<T> v(m * n);
            for(size_t i = 0; i < std::min(m, _m); ++i) {
                for(size_t j = 0; j < std::min(n, _n); ++j) {
                    v[i * n + j] = _v[i * _n + j];
                }
            }
            _m = m;
            _n = n;
            _v.swap(v);
        }
        void reset() { std::fill(_v.begin(), _v.end(), T()); }
        template <typename S>
        typename std::enable_if<is_scalar<S>::value, DynamicMatrix&>::type operator*=(const S& s)
        {
            for(auto& x : _v) {
                x *= s;
            }
            return *this;
        }
    };
    template <typename T, bool SO>
    DynamicVector<T> operator*(const DynamicMatrix<T, SO>& m, const DynamicVector<T>& v)
    {
        need(m.columns() == v.size(), "matrix and vector sizes do not match");
        DynamicVector<T> r(m.rows());
        for(size_t i = 0; i < m.rows(); ++i) {
            for(size_t j = 0; j < m.columns(); ++j) {
                r[i] += m(i, j) * v[j];
            }
        }
        return r;
    }
    template <typename S, typename T, bool SO>
    typename std::enable_if<is_scalar<S>::value, DynamicMatrix<T, SO>>::type
    operator*(const S& s, DynamicMatrix<T, SO> m)
    {
        return m *= s;
    }

    // ------------------------------------------------------------------ CompressedMatrix
    template <typename T, bool SO = rowMajor>
    class CompressedMatrix
    {
    public:
        using ElementType = T;
        struct Element {
            size_t i;
            T v;
            size_t index() const { return i; }
            const T& value() const { return v; }
            T& value() { return v; }
        };

    private:
        size_t _m = 0, _n = 0, _cap = 0, _next = 0, _nnz = 0;
        std::vector<std::vector<Element>> _r;

        template <typename Self>
        static auto find_in(Self& self, size_t i, size_t j)
        {
            need(i < self._m && j < self._n, "find: index out of range");
            const size_t line = SO ? j : i, idx = SO ? i : j;
            auto it = self._r[line].begin();
            while(it != self._r[line].end() && it->i != idx) {
                ++it;
            }
            return it;
        }

    public:
        CompressedMatrix() = default;
        CompressedMatrix(size_t m, size_t n) : _m(m), _n(n), _r(SO ? n : m) {}
        CompressedMatrix(size_t m, size_t n, size_t) : CompressedMatrix(m, n) {}
        size_t rows() const { return _m; }
        size_t columns() const { return _n; }
        size_t capacity() const { return _cap; }
        size_t nonZeros() const { return _nnz; }
        size_t nonZeros(size_t i) const { return _r[i].size(); }
        size_t capacity(size_t i) const { return std::max(_cap / std::max<size_t>(_r.size(), 1), _r[i].size()); }
        void swap(CompressedMatrix& o) { std::swap(*this, o); }
        auto find(size_t i, size_t j) { return find_in(*this, i, j); }
        auto find(size_t i, size_t j) const { return find_in(*this, i, j); }
        void erase(size_t i, size_t j)
        {
            const size_t line = SO ? j : i, idx = SO ? i : j;
            auto& r = _r[line];
            for(auto it = r.begin(); it != r.end(); ++it) {
                if(it->i == idx) {
                    r.erase(it);
                    --_nnz;
                    return;
                }
            }
        }
        void resize(size_t m, size_t n, bool preserve = true)
        {
            // Blaze keeps the elements of a matrix that already has the requested size
            if(m == _m && n == _n) {
                return;
            }
            if(!preserve) {
                reset();
            }
            _m = m;
            _n = n;
            _r.resize(SO ? n : m);
            _nnz = 0;
            for(auto& r : _r) {
                while(!r.empty() && r.back().i >= (SO ? m : n)) {
                    r.pop_back();
                }
                _nnz += r.size();
            }
            _next = 0;
        }
        void reset()
        {
            for(auto& r : _r) {
                r.clear();
            }
            _nnz  = 0;
            _next = 0;
        }
        void clear()
        {
            reset();
            _m = _n = 0;
            _r.clear();
        }
        void reserve(size_t n) { _cap = std::max(_cap, n); }
        void reserve(size_t, size_t) {}
        // elements must be appended row by row, in strictly increasing column order, within the
        // reserved capacity; every row must be finalized in order
        void append(size_t i, size_t j, const T& v, bool = false)
        {
            need(i < _m && j < _n, "append: index out of range");
            const size_t line = SO ? j : i, idx = SO ? i : j;
            need(line == _next, "append: rows must be appended and finalized in order");
            need(_r[line].empty() || _r[line].back().i < idx,
                 "append: column indices must be strictly increasing");
            need(nonZeros() < _cap, "append: capacity exceeded");
            _r[line].push_back({idx, v});
            ++_nnz;
        }
        void finalize(size_t i)
        {
            need(i == _next, "finalize: rows must be finalized in order");
            ++_next;
        }
        size_t finalized() const { return _next; }
        void insert(size_t i, size_t j, const T& v)
        {
            need(i < _m && j < _n, "insert: index out of range");
            const size_t line = SO ? j : i, idx = SO ? i : j;
            auto& r = _r[line];
            auto it = std::lower_bound(r.begin(), r.end(), idx,
                                       [](const Element& e, size_t k) { return e.i < k; });
            if(it != r.end() && it->i == idx) {
                throw std::invalid_argument("Bad access index");
            }
            r.insert(it, {idx, v});
            ++_nnz;
        }
        void set(size_t i, size_t j, const T& v)
        {
            need(i < _m && j < _n, "set: index out of range");
            const size_t line = SO ? j : i, idx = SO ? i : j;
            for(auto& e : _r[line]) {
                if(e.i == idx) {
                    e.v = v;
                    return;
                }
            }
            insert(i, j, v);
        }
        T operator()(size_t i, size_t j) const
        {
            need(i < _m && j < _n, "CompressedMatrix: index out of range");
            const size_t line = SO ? j : i, idx = SO ? i : j;
            T s{};
            for(const auto& e : _r[line]) {
                if(e.i == idx) {
                    s += e.v;
                }
            }
            return s;
        }
        T at(size_t i, size_t j) const
        {
            if(i >= _m || j >= _n) {
                throw std::out_of_range("Invalid matrix access index");
            }
            return (*this)(i, j);
        }
        auto begin(size_t i) const { return _r[i].begin(); }
        auto end(size_t i) const { return _r[i].end(); }
        auto begin(size_t i) { return _r[i].begin(); }
        auto end(size_t i) { return _r[i].end(); }
        auto cbegin(size_t i) const { return _r[i].begin(); }
        auto cend(size_t i) const { return _r[i].end(); }
        template <typename S>
        typename std::enable_if<is_scalar<S>::value, CompressedMatrix&>::type operator*=(const S& s)
        {
            for(auto& r : _r) {
                for(auto& e : r) {
                    e.v *= s;
                }
            }
            return *this;
        }
    };
    template <typename S, typename T, bool SO>
    typename std::enable_if<is_scalar<S>::value, CompressedMatrix<T, SO>>::type
    operator*(const S& s, CompressedMatrix<T, SO> m)
    {
        return m *= s;
    }
    template <typename S, typename T, bool SO>
    typename std::enable_if<is_scalar<S>::value, CompressedMatrix<T, SO>>::type
    operator*(CompressedMatrix<T, SO> m, const S& s)
    {
        return m *= s;
    }
    template <typename T, bool SO>
    size_t nonZeros(const CompressedMatrix<T, SO>& m)
    {
        return m.nonZeros();
    }
    template <typename M>
    size_t rows(const M& m)
    {
        return m.rows();
    }
    template <typename M>
    size_t columns(const M& m)
    {
        return m.columns();
    }
    template <typename V>
    auto size(const V& v) -> decltype(v.size())
    {
        return v.size();
    }
    template <typename T, bool SO>
    DynamicVector<T> operator*(const CompressedMatrix<T, SO>& m, const DynamicVector<T>& v)
    {
        need(m.columns() == v.size(), "matrix and vector sizes do not match");
        DynamicVector<T> r(m.rows());
        for(size_t l = 0; l < (SO ? m.columns() : m.rows()); ++l) {
            for(auto it = m.begin(l); it != m.end(l); ++it) {
                if(SO) {
                    r[it->index()] += it->value() * v[l];
                } else {
                    r[l] += it->value() * v[it->index()];
                }
            }
        }
        return r;
    }

    template <typename M>
    void reset(M& m)
    {
        m.reset();
    }

    // ------------------------------------------------------------------ serialization
    template <typename Stream>
    class Archive
    {
        Stream& _s;

        template <typename T>
        void put(const T& t)
        {
            _s.write(reinterpret_cast<const char*>(&t), sizeof t);
        }
        template <typename T>
        void get(T& t)
        {
            if(!_s.read(reinterpret_cast<char*>(&t), sizeof t)) {
                throw std::runtime_error("Faulty archive detected");
            }
        }

    public:
        explicit Archive(Stream& s) : _s(s) {}
        template <typename T, bool TF>
        Archive& operator<<(const DynamicVector<T, TF>& v)
        {
            put(std::uint64_t(0x5645431));
            put(std::uint64_t(v.size()));
            for(const auto& x : v) {
                put(x);
            }
            return *this;
        }
        template <typename T, bool TF>
        Archive& operator>>(DynamicVector<T, TF>& v)
        {
            std::uint64_t magic, n;
            get(magic);
            get(n);
            if(magic != 0x5645431) {
                throw std::runtime_error("Corrupt archive detected");
            }
            v.resize(n);
            for(auto& x : v) {
                get(x);
            }
            return *this;
        }
        template <typename T, bool SO>
        Archive& operator<<(const CompressedMatrix<T, SO>& m)
        {
            put(std::uint64_t(0x4d4154));
            put(std::uint64_t(m.rows()));
            put(std::uint64_t(m.columns()));
            put(std::uint64_t(m.nonZeros()));
            for(size_t l = 0; l < (SO ? m.columns() : m.rows()); ++l) {
                for(auto it = m.begin(l); it != m.end(l); ++it) {
                    put(std::uint64_t(l));
                    put(std::uint64_t(it->index()));
                    put(it->value());
                }
            }
            return *this;
        }
        template <typename T, bool SO>
        Archive& operator>>(CompressedMatrix<T, SO>& m)
        {
            std::uint64_t magic, r, c, n;
            get(magic);
            get(r);
            get(c);
            get(n);
            if(magic != 0x4d4154) {
                throw std::runtime_error("Corrupt archive detected");
            }
            m = CompressedMatrix<T, SO>(r, c);
            for(std::uint64_t k = 0; k < n; ++k) {
                std::uint64_t l, i;
                T v;
                get(l);
                get(i);
                get(v);
                m.insert(SO ? i : l, SO ? l : i, v);
            }
            return *this;
        }
    };
} // namespace blaze
#endif
