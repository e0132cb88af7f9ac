// comparison of sparse matrices with reference rows
#ifndef VERIF_SPARSE_CHECK_HPP_
#define VERIF_SPARSE_CHECK_HPP_
#include "pbt.hpp"
namespace sparse_check
{
    template <typename Matrix>
    void shape(const Matrix& m, std::size_t n)
    {
        pbt::require(m.rows() == n && m.columns() == n, "the matrix is ", m.rows(), "x", m.columns(), ", expected ", n, "x", n);
    }
    // the type of the parameters that belong to a matrix
    template <typename T>
    struct Real {
        using Type = T;
    };
    template <typename T>
    struct Real<std::complex<T>> {
        using Type = T;
    };
    // a parameter that the type can represent
    template <typename Scalar>
    typename Real<Scalar>::Type parameter(pbt::Src& s)
    {
        return static_cast<typename Real<Scalar>::Type>(s.coeff());
    }
    // parameters far from one: not where elements below the machine epsilon may be left out
    template <typename Scalar>
    double factor(pbt::Src& s)
    {
        const int most = sizeof(typename Real<Scalar>::Type) == 4 ? 40 : 200;
        return std::ldexp(1., s.chance(1, 4) ? static_cast<int>(s.range(-most, most)) : 0);
    }
    // rounding errors in units of the largest element
    template <typename Matrix>
    double tolerance(const Matrix& m)
    {
        using Float = typename std::decay<decltype(std::real(m.begin(0)->value()))>::type;
        return 5000. * std::numeric_limits<Float>::epsilon();
    }
    template <typename Matrix, typename... Ts>
    void within(const Matrix& m, std::size_t r, const std::map<std::size_t, double>& ref, double factor, double tolerance, const Ts&... what)
    {
        std::map<std::size_t, std::complex<double>> got;
        for(auto it = m.begin(r); it != m.end(r); ++it) {
            got[it->index()] += it->value();
        }
        for(const auto& kv : ref) {
            const std::complex<double> g = got.count(kv.first) ? got[kv.first] : 0.;
            pbt::require(std::abs(g - kv.second * factor) <= tolerance, "row ", what..., ", column ", kv.first, ": ", g, ", expected ", kv.second * factor);
        }
        for(const auto& kv : got) {
            pbt::require(ref.count(kv.first) || std::abs(kv.second) <= tolerance, "row ", what..., ", column ", kv.first, ": ", kv.second, ", expected 0");
        }
    }
    // elements below the machine epsilon may be left out
    template <typename Matrix, typename... Ts>
    void row(const Matrix& m, std::size_t r, const std::map<std::size_t, double>& ref, double scale, const Ts&... what)
    {
        within(m, r, ref, 1., tolerance(m) * (scale + 1e-3), what...);
    }
    // the rows of a matrix that is linear in its parameters, which have all been multiplied by the factor
    template <typename Matrix, typename... Ts>
    void scaled_row(const Matrix& m, std::size_t r, const std::map<std::size_t, double>& ref, double factor, double scale, const Ts&... what)
    {
        within(m, r, ref, factor, tolerance(m) * scale * factor, what...);
    }
} // namespace sparse_check
#endif
