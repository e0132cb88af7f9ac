// expectation values of products of fermionic operators in a Gaussian state (Wick's theorem)
#ifndef VERIF_WICK_HPP_
#define VERIF_WICK_HPP_
#include <functional>
#include <utility>
#include <vector>
namespace wick
{
    struct Op {
        bool creator;
        std::size_t site;
        bool spin;
    };
    using Product = std::vector<Op>;
    using Green   = std::function<double(std::size_t, std::size_t, bool)>; // <c_a^dag c_b> per spin

    inline double pair(const Op& a, const Op& b, const Green& g)
    {
        if(a.spin != b.spin || a.creator == b.creator) {
            return 0.;
        }
        if(a.creator) {
            return g(a.site, b.site, a.spin);
        }
        return (a.site == b.site ? 1. : 0.) - g(b.site, a.site, a.spin);
    }
    inline double expect(const Product& p, const Green& g)
    {
        if(p.empty()) {
            return 1.;
        }
        if(p.size() % 2) {
            return 0.;
        }
        double r = 0.;
        for(std::size_t k = 1; k < p.size(); ++k) {
            const double c = pair(p[0], p[k], g);
            if(c == 0.) {
                continue;
            }
            Product rest;
            for(std::size_t i = 1; i < p.size(); ++i) {
                if(i != k) {
                    rest.push_back(p[i]);
                }
            }
            r += (k % 2 ? 1. : -1.) * c * expect(rest, g);
        }
        return r;
    }
    // sum of products with coefficients
    using Sum = std::vector<std::pair<double, Product>>;
    inline Sum adjoint(const Sum& s)
    {
        Sum r;
        for(const auto& t : s) {
            Product p(t.second.rbegin(), t.second.rend());
            for(auto& o : p) {
                o.creator = !o.creator;
            }
            r.emplace_back(t.first, p);
        }
        return r;
    }
    inline double expect(const Sum& a, const Sum& b, const Green& g) // <a b>
    {
        double r = 0.;
        for(const auto& x : a) {
            for(const auto& y : b) {
                Product p = x.second;
                p.insert(p.end(), y.second.begin(), y.second.end());
                r += x.first * y.first * expect(p, g);
            }
        }
        return r;
    }
} // namespace wick
#endif
