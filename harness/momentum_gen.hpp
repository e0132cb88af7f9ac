// Fermi seas with arbitrary single-particle energies and a bit-set reference
#ifndef VERIF_MOMENTUM_GEN_HPP_
#define VERIF_MOMENTUM_GEN_HPP_
#include "pbt.hpp"
#include <cmath>
#include <limits>
namespace gen
{
    struct Energies {
        using Float = double;
        std::vector<double> e;
        const double& operator()(std::size_t i) const { return e[i]; }
    };
    // energies from a few levels, so that some coincide with the Fermi energy
    inline Energies energies(pbt::Src& s, std::size_t n, double& fermi)
    {
        Energies r;
        if(s.chance(1, 3)) {
            for(std::size_t i = 0; i < n; ++i) {
                r.e.push_back(s.real(-2., 2.));
            }
            fermi = s.boolean() ? 0. : s.real(-2.5, 2.5);
        } else {
            for(std::size_t i = 0; i < n; ++i) {
                r.e.push_back(s.range(-4, 4) / 2.);
            }
            fermi = s.boolean() ? 0. : s.range(-5, 5) / 2.;
            if(s.chance(1, 3)) {
                // energies just above and just below the levels
                static const std::vector<double> gaps{0., 4e-323, 1e-30, 1e-16, 1e-14, 1e-11, 1e-8, 1e-5};
                for(auto& x : r.e) {
                    const double d = s.pick(gaps), sign = s.boolean() ? 1. : -1.;
                    x = (x == 0. || d > 1e-17) ? x + sign * d * (x == 0. ? 1. : std::abs(x)) : std::nextafter(x, sign * 9.);
                }
                s.label("close to the Fermi energy");
            }
        }
        if(s.chance(1, 8)) {
            const double scale = std::ldexp(1., static_cast<int>(s.range(-200, 200)));
            for(auto& x : r.e) {
                x *= scale;
            }
            fermi *= scale;
        } else if(s.chance(1, 16)) {
            fermi = s.boolean() ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
        }
        return r;
    }
    // product state: two spins per momentum; no fermionic signs (see fock.hpp for those)
    struct Occupation {
        std::vector<char> n;
        bool vanishes = false;
        Occupation() = default;
        Occupation(const Energies& e, double fermi)
        {
            for(double x : e.e) {
                n.push_back(x < fermi);
                n.push_back(x < fermi);
            }
        }
        void apply(bool creator, std::size_t k, bool spin)
        {
            if(vanishes) {
                return;
            }
            char& c = n[2 * k + spin];
            if(c == char(creator)) {
                vanishes = true;
            } else {
                c = creator;
            }
        }
    };
} // namespace gen
#endif
