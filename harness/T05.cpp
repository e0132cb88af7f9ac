// T05: filling Eigen matrices from functions.
#include "pbt_main.hpp"
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include "ieompp/types/eigen/init.hpp"

using pbt::Src;
namespace types = ieompp::types;
using cplx      = std::complex<double>;

template <typename F>
void put(F& t, double re, double)
{
    t = static_cast<F>(re);
}
template <typename F>
void put(std::complex<F>& t, double re, double im)
{
    t = {static_cast<F>(re), static_cast<F>(im)};
}

template <typename T>
struct Scales { // keep multiples of a quarter above the tolerance
    static constexpr int smallest = -48, largest = 900;
};
template <>
struct Scales<float> {
    static constexpr int smallest = -19, largest = 100;
};
template <>
struct Scales<std::complex<float>> : Scales<float> {
};

template <typename M>
M used(Src& s) // a matrix that held something before
{
    using T             = typename M::Scalar;
    const std::size_t a = s.sized(0, 5), b = s.sized(0, 5);
    M m(a, b);
    if(s.boolean()) {
        types::init(m, a, b, std::function<T(typename types::IndexType<M>::Type, typename types::IndexType<M>::Type)>([](int, int) { return T(7.); }));
    }
    return m;
}
template <typename T, int O, typename I>
std::size_t stored(const Eigen::SparseMatrix<T, O, I>& m)
{
    return m.nonZeros();
}
template <typename T, int O>
std::size_t stored(const Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic, O>&)
{
    return std::size_t(-1);
}
template <typename M>
void fill(Src& s, bool symmetric)
{
    using T             = typename M::Scalar;
    using I             = typename types::IndexType<M>::Type;
    const auto dimension = [&s]() -> std::size_t { return s.chance(1, 25) ? s.range(11, 60) : s.sized(0, 10); };
    const std::size_t m = dimension(), n = symmetric ? m : dimension();
    const bool large    = m > 10 || n > 10;
    std::uint64_t seed  = large ? s.upto(1u << 30) : 0;
    std::vector<T> v(m * n);
    std::size_t zeros = 0;
    const bool scaled = s.chance(1, 3);
    for(auto& x : v) {
        if(large) {
            const auto z = pbt::splitmix(seed);
            put(x, static_cast<int>(z % 9) / 4. - 1., static_cast<int>(z / 9 % 9) / 4. - 1.);
        } else {
            const double re = s.dyadic(1, 4), im = s.dyadic(1, 4);
            put(x, re, im);
        }
        if(scaled) {
            const std::uint64_t k = large ? pbt::splitmix(seed) : s.upto(1u << 20);
            x *= std::ldexp(1., Scales<T>::smallest + static_cast<int>(k % (k % 2 == 0 ? 1 - Scales<T>::smallest : Scales<T>::largest)));
        }
        if(large ? pbt::splitmix(seed) % 2 == 0 : s.boolean()) {
            x = T(0);
            ++zeros;
        }
    }
    M mat = used<M>(s);
    s.note(m, "x", n);
    const std::function<T(I, I)> f = [&](I i, I j) {
        pbt::require(i >= 0 && j >= 0 && std::size_t(i) < m && std::size_t(j) < n, "f(", i, ",", j, ")");
        return v[i * n + j];
    };
    if(symmetric) {
        types::init_symmetric(mat, m, f);
    } else {
        types::init(mat, m, n, f);
    }
    pbt::require(std::size_t(mat.rows()) == m && std::size_t(mat.cols()) == n, "dimensions ", mat.rows(), "x", mat.cols());
    std::size_t nonzero = 0;
    for(std::size_t i = 0; i < m; ++i) {
        for(std::size_t j = 0; j < n; ++j) {
            nonzero += (symmetric && j > i ? v[j * n + i] : v[i * n + j]) != T(0);
        }
    }
    if(stored(mat) != std::size_t(-1)) {
        pbt::equal(stored(mat), nonzero, "number of stored elements");
    }
    for(std::size_t i = 0; i < m; ++i) {
        for(std::size_t j = 0; j < n; ++j) {
            const T ref = symmetric && j > i ? v[j * n + i] : v[i * n + j]; // the lower triangle decides
            pbt::equal(mat.coeff(i, j), ref, "element ", i, ",", j);
        }
    }
    s.label(large ? "more than 10 rows or columns" : "up to 10 rows and columns");
    s.nontrivial(m >= 2 && n >= 2 && zeros > 0 && zeros < v.size());
}
#define RULE "at least two rows and columns, some elements vanish and some do not"
RELATION("dense", 2, RULE) { fill<Eigen::MatrixXd>(s, s.boolean()); }
RELATION("dense complex", 2, RULE) { fill<Eigen::MatrixXcd>(s, s.boolean()); }
RELATION("sparse", 2, RULE) { fill<Eigen::SparseMatrix<double>>(s, s.boolean()); }
RELATION("sparse complex, row major", 2, RULE) { fill<Eigen::SparseMatrix<cplx, Eigen::RowMajor>>(s, s.boolean()); }
RELATION("dense, single precision, row major", 1, RULE) { fill<Eigen::Matrix<float, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>>(s, s.boolean()); }
RELATION("sparse, single precision, long index", 1, RULE) { fill<Eigen::SparseMatrix<float, Eigen::ColMajor, long>>(s, s.boolean()); }
RELATION("sparse, complex single precision", 1, RULE) { fill<Eigen::SparseMatrix<std::complex<float>>>(s, s.boolean()); }
