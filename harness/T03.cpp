// T03: function matrices and predicates on matrices.
#include "pbt_main.hpp"
#include <blaze/Math.h>
#include "ieompp/types/blaze.hpp"
#include "ieompp/types/function_matrix.hpp"
#include "ieompp/types/matrix_check.hpp"

using pbt::Src;
namespace types = ieompp::types;
using cplx      = std::complex<double>;

template <typename T>
struct Value {
    static T draw(Src& s) { return static_cast<T>(s.dyadic(2, 4)); }
    static T from(std::uint64_t x) { return static_cast<T>(static_cast<int>(x % 17) - 8) / 4; }
    // differs from the value in the last bits only, but by more than a machine epsilon
    static T beside(T x) { return x + 16 * std::numeric_limits<T>::epsilon(); }
    // differs by less than a machine epsilon, even from its negative
    static T within(T x) { return std::abs(x) <= T(0.25) ? x + std::numeric_limits<T>::epsilon() / 4 : x; }
    static bool same(T a, T b) { return std::abs(a - b) < 2 * std::numeric_limits<T>::epsilon(); }
};
template <typename F>
struct Value<std::complex<F>> {
    using T = std::complex<F>;
    static T draw(Src& s)
    {
        const F re = static_cast<F>(s.dyadic(1, 4));
        return {re, static_cast<F>(s.dyadic(1, 4))};
    }
    static T from(std::uint64_t x) { return {static_cast<F>(static_cast<int>(x % 9) - 4) / 4, static_cast<F>(static_cast<int>(x / 9 % 9) - 4) / 4}; }
    static T beside(T x) { return {x.real(), x.imag() - 16 * std::numeric_limits<F>::epsilon()}; }
    static T within(T x) { return {Value<F>::within(x.real()), Value<F>::within(x.imag())}; }
    static bool same(T a, T b) { return Value<F>::same(a.real(), b.real()) && Value<F>::same(a.imag(), b.imag()); }
};
template <typename F>
F conj_(F x)
{
    return x;
}
template <typename F>
std::complex<F> conj_(std::complex<F> x)
{
    return std::conj(x);
}
std::size_t dimension(Src& s) { return s.chance(1, 25) ? s.range(9, s.chance(1, 6) ? 200 : 60) : s.sized(0, 8); }
template <typename T>
void perturb(Src& s, std::vector<T>& v)
{
    auto& x = v[s.upto(v.size() - 1)];
    switch(s.weighted({4, 2, 2})) {
        case 0: x = Value<T>::draw(s); break;
        case 1: x = Value<T>::beside(x); break;
        default: x = Value<T>::within(x); s.label("perturbed by less than the tolerance");
    }
}

// a rectangular matrix that is often nearly symmetric / hermitian / zero
template <typename T>
struct Plain {
    std::size_t m, n;
    std::vector<T> v;
    const T& at(std::size_t i, std::size_t j) const { return v[i * n + j]; }
    bool symmetric() const
    {
        bool r = m == n;
        for(std::size_t i = 0; r && i < m; ++i) {
            for(std::size_t j = 0; j < n; ++j) {
                r = r && Value<T>::same(at(i, j), at(j, i));
            }
        }
        return r;
    }
    bool hermitian() const
    {
        bool r = m == n;
        for(std::size_t i = 0; r && i < m; ++i) {
            for(std::size_t j = 0; j < n; ++j) {
                r = r && Value<T>::same(at(i, j), conj_(at(j, i)));
            }
        }
        return r;
    }
    bool zero() const
    {
        return std::all_of(v.begin(), v.end(), [](const T& x) { return Value<T>::same(x, T(0)); });
    }
};
template <typename T>
Plain<T> plain(Src& s)
{
    const std::size_t m = dimension(s), n = s.chance(1, 8) ? dimension(s) : m;
    const bool large = m > 8 || n > 8;
    std::uint64_t seed = large ? s.upto(1u << 30) : 0;
    Plain<T> p{m, n, std::vector<T>(m * n)};
    const auto kind = s.upto(3); // 0 zero, 1 symmetric, 2 hermitian, 3 general
    if(kind > 0) {
        for(std::size_t i = 0; i < m; ++i) {
            for(std::size_t j = 0; j < n; ++j) {
                if(kind < 3 && m == n && j < i) {
                    p.v[i * n + j] = kind == 1 ? p.at(j, i) : conj_(p.at(j, i));
                } else {
                    p.v[i * n + j] = large ? Value<T>::from(pbt::splitmix(seed)) : Value<T>::draw(s);
                    if(kind == 2 && i == j) {
                        p.v[i * n + j] = T(std::real(p.v[i * n + j]));
                    }
                }
            }
        }
    }
    if(!p.v.empty() && s.boolean()) { // perturb one element
        perturb(s, p.v);
    }
    s.label(large ? "more than 8 rows or columns" : "up to 8 rows and columns");
    s.describe([&](std::ostream& o) {
        o << m << "x" << n << ":";
        for(const auto& x : p.v) {
            o << ' ' << x;
        }
    });
    s.nontrivial(m >= 2 && m == n && !p.zero());
    return p;
}
template <typename T, typename I = std::size_t>
types::FunctionMatrix<T, I> function(const Plain<T>& p)
{
    return types::FunctionMatrix<T, I>(static_cast<I>(p.m), static_cast<I>(p.n), [p](I i, I j) {
        pbt::require(std::size_t(i) < p.m && std::size_t(j) < p.n, "element ", i, ",", j, " is outside the matrix");
        return p.at(i, j);
    });
}

template <typename T, typename I = std::size_t, bool Order = blaze::rowMajor>
void predicates(Src& s)
{
    const auto p = plain<T>(s);
    const auto f = function<T, I>(p);
    blaze::DynamicMatrix<T, Order> d(p.m, p.n);
    blaze::CompressedMatrix<T, blaze::rowMajor> c(p.m, p.n);
    const bool drop = s.boolean();
    for(std::size_t i = 0; i < p.m; ++i) {
        for(std::size_t j = 0; j < p.n; ++j) {
            d(i, j) = p.at(i, j);
            if(!drop || p.at(i, j) != T(0)) {
                types::matrix_insert(c, i, j, p.at(i, j));
            }
        }
    }
    const bool q = p.m == p.n;
    pbt::equal(types::is_quadratic(f), q, "is_quadratic of a function matrix");
    pbt::equal(types::is_quadratic(d), q, "is_quadratic of a dense matrix");
    pbt::equal(types::is_quadratic(c), q, "is_quadratic of a sparse matrix");
    pbt::equal(types::is_symmetric(f), p.symmetric(), "is_symmetric of a function matrix");
    pbt::equal(types::is_symmetric(d), p.symmetric(), "is_symmetric of a dense matrix");
    pbt::equal(types::is_symmetric(c), p.symmetric(), "is_symmetric of a sparse matrix");
    pbt::equal(types::is_hermitian(f), p.hermitian(), "is_hermitian of a function matrix");
    pbt::equal(types::is_hermitian(d), p.hermitian(), "is_hermitian of a dense matrix");
    pbt::equal(types::is_hermitian(c), p.hermitian(), "is_hermitian of a sparse matrix");
    pbt::equal(types::IsZero(d), p.zero(), "IsZero of a dense matrix");
    pbt::equal(types::IsZero(c), p.zero(), "IsZero of a sparse matrix");
}
#define RULE "a square matrix with at least two rows that does not vanish"
RELATION("predicates, real", 2, RULE) { predicates<double>(s); }
RELATION("predicates, complex", 3, RULE) { predicates<cplx>(s); }
RELATION("predicates, single precision", 1, RULE) { predicates<float, int>(s); }
RELATION("predicates, complex single precision", 1, RULE) { predicates<std::complex<float>, unsigned short>(s); }
RELATION("predicates, column major", 1, RULE) { predicates<cplx, long, blaze::columnMajor>(s); }

template <typename T, typename I = std::size_t>
void comparison(Src& s)
{
    const auto p = plain<T>(s);
    auto q       = p;
    if(!q.v.empty() && s.boolean()) {
        perturb(s, q.v);
    } else if(s.chance(1, 3)) { // other shape, same number of elements or not
        s.boolean() ? std::swap(q.m, q.n) : (void)(q = plain<T>(s));
    }
    const bool same = p.m == q.m && p.n == q.n && std::equal(p.v.begin(), p.v.end(), q.v.begin(), Value<T>::same);
    const auto f = function<T, I>(p), g = function<T, I>(q);
    pbt::require(std::size_t(f.rows()) == p.m && std::size_t(f.cols()) == p.n, "dimensions");
    for(std::size_t i = 0; i < p.m; ++i) {
        for(std::size_t j = 0; j < p.n; ++j) {
            pbt::equal(f(i, j), p.at(i, j), "element ", i, ",", j);
        }
    }
    pbt::equal(f == g, same, "==");
    pbt::equal(f != g, !same, "!=");
    pbt::equal(g == f, same, "==");
    pbt::equal(g != f, !same, "!=");
    // the rows are printed one per line
    std::ostringstream o;
    o << f;
    std::istringstream in(o.str());
    std::string line;
    std::size_t lines = 0;
    while(std::getline(in, line)) {
        std::istringstream w(line);
        std::string word;
        std::size_t words = 0;
        while(w >> word) {
            std::ostringstream x;
            x << std::fixed << std::setprecision(1) << std::showpos << p.at(lines, words);
            pbt::equal(word, x.str(), "printed element");
            ++words;
        }
        pbt::equal(words, p.n, "number of printed elements");
        ++lines;
    }
    pbt::equal(lines, p.m, "number of printed lines");
    s.label(same ? "equal" : "different");
}
RELATION("comparison, real", 2, RULE) { comparison<double>(s); }
RELATION("comparison, complex", 2, RULE) { comparison<cplx>(s); }
RELATION("comparison, single precision", 1, RULE) { comparison<float, int>(s); }
RELATION("comparison, complex single precision", 1, RULE) { comparison<std::complex<float>, unsigned short>(s); }
