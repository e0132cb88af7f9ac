// amplitudes and Green functions for the real-space observables
#ifndef VERIF_REAL_GEN_HPP_
#define VERIF_REAL_GEN_HPP_
#include <functional>
#include "pbt.hpp"
namespace gen
{
    // multiples of 1/8: sums of products of a few of them are exact in double
    inline double eighth(pbt::Src& s, int m = 2) { return s.dyadic(m, 8); }

    struct Green {
        std::size_t n;
        std::vector<double> up, down;
        double operator()(std::size_t a, std::size_t b, bool spin) const { return (spin ? up : down)[a * n + b]; }
    };

    // the expectation value of a product of two operators in the order in which they are given
    template <typename F, typename Op>
    std::function<F(const Op&, const Op&)> product_expectation(const Green& g)
    {
        return [&g](const Op& a, const Op& b) {
            if(a.index2 != b.index2 || a.creator == b.creator) {
                return F(0);
            }
            return a.creator ? static_cast<F>(g(a.index1, b.index1, a.index2))
                             : static_cast<F>((a.index1 == b.index1 ? 1. : 0.) - g(b.index1, a.index1, a.index2));
        };
    }

    inline Green green(pbt::Src& s, std::size_t n, bool symmetric, bool polarised)
    {
        Green g;
        g.n  = n;
        auto fill = [&](std::vector<double>& v) {
            v.assign(n * n, 0.);
            for(std::size_t i = 0; i < n; ++i) {
                for(std::size_t j = 0; j < n; ++j) {
                    if(symmetric && j < i) {
                        v[i * n + j] = v[j * n + i];
                    } else {
                        v[i * n + j] = eighth(s, 1);
                    }
                }
            }
        };
        // correlations between different sites may be much smaller than the occupation of a site
        const int kind = s.weighted({4, 1, 1});
        if(kind) {
            s.label(kind == 1 ? "weak correlations" : "generic correlations");
        }
        auto modify = [&](std::vector<double>& v) {
            if(kind == 1) {
                const double size = std::ldexp(1., -static_cast<int>(s.range(10, 60)));
                for(std::size_t i = 0; i < n; ++i) {
                    for(std::size_t j = 0; j < n; ++j) {
                        v[i * n + j] = i == j ? .5 : v[i * n + j] * size;
                    }
                }
            } else if(kind == 2) {
                const double size = s.real(0.1, 1.);
                for(double& x : v) {
                    x *= size;
                }
            }
        };
        fill(g.up);
        modify(g.up);
        g.down = g.up;
        if(polarised) {
            fill(g.down);
            modify(g.down);
        }
        return g;
    }
    template <typename F = double>
    std::vector<std::complex<F>> amplitudes(pbt::Src& s, std::size_t n)
    {
        std::vector<std::complex<F>> h(n);
        const auto kind = s.weighted({3, 2, 2, 3});
        if(kind == 0) { // all entries, from one seed: the vector has up to n^3 + n entries
            std::uint64_t x = s.upto(~0ull);
            const bool real = s.boolean();
            for(auto& v : h) {
                const std::uint64_t a = pbt::splitmix(x);
                v = {static_cast<F>(static_cast<int>(a % 33) - 16) / F(8), real ? F(0) : static_cast<F>(static_cast<int>((a >> 32) % 33) - 16) / F(8)};
            }
        } else if(kind == 1) { // a few entries
            const auto k = s.range(1, 6);
            for(int i = 0; i < k; ++i) {
                h[s.upto(n - 1)] = {static_cast<F>(eighth(s)), static_cast<F>(eighth(s))};
            }
        } else if(kind == 3) { // all entries, with rounding errors in every operation
            std::uint64_t x = s.upto(~0ull);
            const F size    = static_cast<F>(std::pow(10., s.range(-4, 4)));
            for(auto& v : h) {
                const std::uint64_t a = pbt::splitmix(x);
                v = {size * (static_cast<F>(a % 1000003) / F(500000) - F(1)), size * (static_cast<F>((a >> 32) % 1000003) / F(500000) - F(1))};
            }
        } else { // the start of a time evolution
            h[s.upto(n - 1)] = F(1);
        }
        if(s.chance(1, 4)) { // the observables are homogeneous: very small and very large amplitudes
            const int most = std::is_same<F, float>::value ? 30 : 120;
            const F size   = std::ldexp(F(1), static_cast<int>(s.range(-most, most)));
            for(auto& v : h) {
                v *= size;
            }
        }
        return h;
    }
    template <typename F>
    std::vector<std::complex<double>> in_double(const std::vector<std::complex<F>>& h)
    {
        return {h.begin(), h.end()};
    }
    // rounding errors of a type in units of those of double
    template <typename F>
    double precision()
    {
        return double(std::numeric_limits<F>::epsilon()) / std::numeric_limits<double>::epsilon();
    }
    // the squared norm, the size of sums of products of two amplitudes
    template <typename H>
    double squared_norm(const H& h)
    {
        double r = 0.;
        for(const auto& v : h) {
            r += std::norm(v);
        }
        return r;
    }
} // namespace gen
#endif
