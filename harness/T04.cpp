// T04: matrix-vector products and scalar products of both back ends.
#include "pbt_main.hpp"
#include <omp.h>
#include <blaze/Math.h>
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include "ieompp/types/dot_product.hpp"
#include "ieompp/types/eigen/dot_product.hpp"
#include "ieompp/types/blaze.hpp"
#include "ieompp/types/multiply_assign.hpp"
#include "ieompp/types/eigen/multiply_assign.hpp"
#include "ieompp/types/matrix_check.hpp"

using pbt::Src;
namespace types = ieompp::types;
using cplx      = std::complex<double>;

template <typename T>
struct Real {
    using type = T;
};
template <typename T>
struct Real<std::complex<T>> {
    using type = T;
};
template <typename T>
struct Value { // quarters, so that all sums are exact
    static T draw(Src& s) { return static_cast<T>(s.dyadic(2, 4)); }
    static T from(std::uint64_t x) { return static_cast<T>(static_cast<int>(x % 17) - 8) / 4; }
};
template <typename F>
struct Value<std::complex<F>> {
    using T = std::complex<F>;
    static T draw(Src& s)
    {
        const F re = static_cast<F>(s.dyadic(1, 4));
        return {re, static_cast<F>(s.dyadic(1, 4))};
    }
    static T from(std::uint64_t x) { return {static_cast<F>(static_cast<int>(x % 9) - 4) / 4, static_cast<F>(static_cast<int>(x / 9 % 9) - 4) / 4}; }
};
template <typename T>
std::vector<T> values(Src& s, std::size_t n)
{
    std::vector<T> v(n);
    if(n > 81) {
        std::uint64_t seed = s.upto(1u << 30);
        const auto skip    = s.upto(3);
        for(auto& x : v) {
            x = pbt::splitmix(seed) % 4 < skip ? T(0) : Value<T>::from(pbt::splitmix(seed));
        }
    } else {
        for(auto& x : v) {
            x = Value<T>::draw(s);
        }
    }
    if(s.chance(1, 6)) { // sums of products of any magnitude stay exact
        const double size = std::ldexp(1., static_cast<int>(s.range(-50, 50)));
        for(auto& x : v) {
            x *= size;
        }
    }
    return v;
}
std::size_t dimension(Src& s, int least) { return s.chance(1, 25) ? s.range(10, 70) : s.sized(least, 9); }

// v := M v in place, for all representations of M; the sizes change from call to call
template <typename T, typename I = std::size_t, bool Order = blaze::rowMajor, int Options = Eigen::ColMajor>
void multiply(Src& s)
{
    const auto k = s.range(1, 4);
    std::set<std::size_t> sizes;
    for(int t = 0; t < k; ++t) {
        const std::size_t n = dimension(s, 0);
        const std::size_t r = s.chance(1, 4) ? dimension(s, 1) : n; // rectangular only without function matrix
        sizes.insert(n);
        omp_set_num_threads(s.team());
        const auto m = values<T>(s, r * n), v = values<T>(s, n);
        s.note(r, "x", n);
        if(s.chance(1, 4)) { // an overflow leaves no trace in later products
            const std::size_t l = dimension(s, 1);
            s.note("after an overflow in ", l, " dimensions");
            const T inf = std::numeric_limits<typename Real<T>::type>::infinity();
            const types::FunctionMatrix<T, I> f(static_cast<I>(l), static_cast<I>(l), [&](I, I) { return T(1); });
            blaze::DynamicVector<T, blaze::columnVector> b(l, inf);
            Eigen::Matrix<T, Eigen::Dynamic, 1> e(l);
            e.fill(inf);
            for(int twice = 0; twice < 2; ++twice) {
                types::multiply_assign(f, b);
                types::multiply_assign(f, e);
            }
        }
        std::vector<T> ref(r);
        for(std::size_t i = 0; i < r; ++i) {
            for(std::size_t j = 0; j < n; ++j) {
                ref[i] += m[i * n + j] * v[j];
            }
        }
        auto check = [&](const auto& got, const char* what) {
            pbt::equal(std::size_t(got.size()), r, what, ": size");
            for(std::size_t i = 0; i < r; ++i) {
                pbt::equal(got[i], ref[i], what, ": element ", i);
            }
        };
        {
            blaze::DynamicVector<T, blaze::columnVector> b(n);
            std::copy(v.begin(), v.end(), b.begin());
            Eigen::Matrix<T, Eigen::Dynamic, 1> e(n);
            for(std::size_t i = 0; i < n; ++i) {
                e[i] = v[i];
            }
            blaze::DynamicMatrix<T, Order> bd(r, n);
            blaze::CompressedMatrix<T, blaze::rowMajor> bs(r, n);
            Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic, Options> ed(r, n);
            Eigen::SparseMatrix<T, Options> es(r, n);
            for(std::size_t i = 0; i < r; ++i) {
                for(std::size_t j = 0; j < n; ++j) {
                    bd(i, j) = ed(i, j) = m[i * n + j];
                    if(m[i * n + j] != T(0)) {
                        bs.insert(i, j, m[i * n + j]);
                        es.insert(i, j) = m[i * n + j];
                    }
                }
            }
            auto b1 = b, b2 = b;
            auto e1 = e, e2 = e;
            types::multiply_assign(bd, b1);
            check(b1, "dense Blaze matrix");
            types::multiply_assign(bs, b2);
            check(b2, "sparse Blaze matrix");
            types::multiply_assign(ed, e1);
            check(e1, "dense Eigen matrix");
            types::multiply_assign(es, e2);
            check(e2, "sparse Eigen matrix");
            if(r == n) {
                const types::FunctionMatrix<T, I> f(static_cast<I>(n), static_cast<I>(n), [&](I i, I j) { return m[i * n + j]; });
                auto b3 = b;
                auto e3 = e;
                types::multiply_assign(f, b3);
                check(b3, "function matrix and Blaze vector");
                types::multiply_assign(f, e3);
                check(e3, "function matrix and Eigen vector");
            }
        }
    }
    s.nontrivial(sizes.size() >= 2);
}
RELATION("multiply_assign, real", 3, "vectors of at least two sizes") { multiply<double>(s); }
RELATION("multiply_assign, complex", 3, "vectors of at least two sizes") { multiply<cplx>(s); }
RELATION("multiply_assign, single precision", 1, "vectors of at least two sizes") { multiply<float, int>(s); }
RELATION("multiply_assign, complex single precision", 1, "vectors of at least two sizes") { multiply<std::complex<float>, unsigned short>(s); }
RELATION("multiply_assign, other storage orders", 1, "vectors of at least two sizes") { multiply<cplx, long, blaze::columnMajor, Eigen::RowMajor>(s); }

template <typename F>
void dot(Src& s)
{
    const std::size_t n = s.chance(1, 25) ? s.range(10, 200) : s.sized(0, 9);
    const auto a = values<F>(s, n), b = values<F>(s, n);
    F ref = 0;
    for(std::size_t i = 0; i < n; ++i) {
        ref += a[i] * b[i];
    }
    blaze::DynamicVector<F, blaze::columnVector> x(n), y(n);
    Eigen::Matrix<F, Eigen::Dynamic, 1> p(n), q(n);
    for(std::size_t i = 0; i < n; ++i) {
        x[i] = p[i] = a[i];
        y[i] = q[i] = b[i];
    }
    pbt::equal(types::dot_product(x, y), ref, "Blaze vectors");
    if(n > 0) {
        pbt::equal(types::dot_product(p, q), ref, "Eigen vectors");
    }
    const F u = Value<F>::draw(s), v = Value<F>::draw(s);
    pbt::equal(types::dot_product(u, v), u * v, "numbers");
    const blaze::StaticVector<F, 2, blaze::columnVector> g{u, v}, h{v, u + F(1)};
    pbt::equal(types::dot_product(g, h), u * v + v * (u + F(1)), "static vectors");
    s.nontrivial(n >= 2);
}
RELATION("dot_product", 4, "at least two dimensions") { dot<double>(s); }
RELATION("dot_product, single precision", 1, "at least two dimensions") { dot<float>(s); }

// inserting elements one by one, in any order
RELATION("insertion", 1, "at least two elements")
{
    const std::size_t m = s.chance(1, 10) ? s.range(13, 60) : s.range(1, 12), n = s.chance(1, 10) ? s.range(13, 60) : s.range(1, 12);
    blaze::CompressedMatrix<cplx, blaze::rowMajor> a(m, n);
    std::map<std::pair<std::size_t, std::size_t>, cplx> ref;
    const auto k = s.chance(1, 10) ? s.range(13, 100) : s.sized(0, 12);
    for(int t = 0; t < k; ++t) {
        const std::size_t i = s.upto(m - 1), j = s.upto(n - 1);
        if(!ref.count({i, j})) {
            const cplx x = Value<cplx>::draw(s);
            types::matrix_insert(a, i, j, x);
            ref[{i, j}] = x;
            s.note(i, j, x);
        }
    }
    for(std::size_t i = 0; i < m; ++i) {
        for(std::size_t j = 0; j < n; ++j) {
            const auto it = ref.find({i, j});
            pbt::equal(cplx(static_cast<const decltype(a)&>(a)(i, j)), it == ref.end() ? cplx() : it->second, "element ", i, ",", j);
        }
    }
    pbt::equal(a.nonZeros(), ref.size(), "number of elements");
    s.nontrivial(ref.size() >= 2);
}

// dimensions as the integrator and the predicates see them
RELATION("dimensions", 1, "more than one row and column")
{
    const std::size_t m = s.sized(0, s.chance(1, 10) ? 400 : 20), n = s.sized(0, s.chance(1, 10) ? 400 : 20);
    using D = blaze::DynamicMatrix<double, blaze::rowMajor>;
    using S = blaze::CompressedMatrix<cplx, blaze::rowMajor>;
    using V = blaze::DynamicVector<double, blaze::columnVector>;
    using F = types::FunctionMatrix<double>;
    const D d(m, n);
    const S c(m, n);
    const V v(m);
    const F f(m, n, [](std::size_t, std::size_t) { return 0.; });
    pbt::require(types::MatrixDimensionInfo<D>::rows(d) == m && types::MatrixDimensionInfo<D>::columns(d) == n, "dense matrix");
    pbt::require(types::MatrixDimensionInfo<S>::rows(c) == m && types::MatrixDimensionInfo<S>::columns(c) == n, "sparse matrix");
    pbt::require(types::MatrixDimensionInfo<V>::rows(v) == m && types::MatrixDimensionInfo<V>::columns(v) == 1, "vector");
    pbt::require(types::MatrixDimensionInfo<F>::rows(f) == m && types::MatrixDimensionInfo<F>::columns(f) == n, "function matrix");
    s.nontrivial(m >= 2 && n >= 2);
}
