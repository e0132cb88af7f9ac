// M09: expectation values in the Fermi sea that do not vanish.
#include "lattice_gen.hpp"
#include "momentum_gen.hpp"
#include "pbt_main.hpp"
#include <cassert>
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/models/hubbard/dispersion.hpp"
#include "ieompp/models/hubbard_momentum_space/basis.hpp"
#include "ieompp/models/hubbard_momentum_space/non_vanishing_expectation_values.hpp"
#include "fermi_sea_reference.hpp"

using pbt::Src;
namespace alg = ieompp::algebra;
namespace hms = ieompp::models::hubbard_momentum_space;
using Mono    = alg::Monomial<alg::Operator<std::uint64_t, bool>>;
using Basis   = hms::Basis3Operator<Mono>;
using Values  = hms::NonVanishingExpectationValues<std::uint64_t, double>;

template <typename Space, typename Disp>
void check(Src& s, const Space& space, std::uint64_t q, const Disp& disp, const gen::Energies& e, double fermi)
{
    const Basis basis(q, space);
    const Basis conj = basis.get_conjugate();
    const bool dflt  = fermi == 0. && s.boolean();
    Values v         = dflt ? Values(basis, conj, disp) : Values(basis, conj, disp, fermi);
    const bool sort  = s.boolean();
    if(sort) {
        v.sort();
        for(std::size_t i = 1; i < v.size(); ++i) {
            pbt::require(std::make_pair(v[i - 1].left_index, v[i - 1].right_index) < std::make_pair(v[i].left_index, v[i].right_index), "sort");
        }
    }
    std::map<std::pair<std::uint64_t, std::uint64_t>, double> got;
    for(const auto& c : v) {
        pbt::require(c.left_index < basis.size() && c.right_index < basis.size(), "index of a contribution");
        pbt::require(got.emplace(std::make_pair(c.left_index, c.right_index), c.value).second, "the pair ", c.left_index, ",", c.right_index, " contributes twice");
    }
    const auto states = sea::reference(basis, e, fermi);
    std::size_t found = 0;
    bool delta        = false;
    for(std::size_t i = 0; i < basis.size(); ++i) {
        for(std::size_t j = 0; j < basis.size(); ++j) {
            const double ref = sea::overlap(states[i], states[j]);
            const auto it    = got.find(std::make_pair(i, j));
            if(ref == 0.) {
                pbt::require(it == got.end() || it->second == 0., "the pair ", i, ",", j, " contributes although its expectation value vanishes");
            } else {
                pbt::require(it != got.end(), "the pair ", i, ",", j, " is missing, expected ", ref);
                pbt::equal(it->second, ref, "contribution of the pair ", i, ",", j);
                ++found;
                delta = delta || (i && j);
            }
        }
    }
    s.label(found ? "contributions" : "none");
    s.nontrivial(found >= 3 && delta);
}

#define RULE "at least three non-vanishing expectation values, one of two three-operator monomials"
RELATION("levels", 3, RULE)
{
    const auto N = s.chance(1, 40) ? s.range(8, 18) : s.range(1, 6);
    double fermi;
    const auto e = gen::energies(s, N, fermi);
    const auto q = gen::site(s, N);
    s.describe([&](std::ostream& o) {
        o << "N " << N << " q " << q << " fermi " << fermi << " energies";
        for(double x : e.e) {
            o << ' ' << x;
        }
    });
    check(s, ieompp::lattices::PeriodicChain<double, std::uint64_t>(N), q, e, e, fermi);
}
template <typename Space>
void physical(Src& s, const Space& k, const Space& l, std::uint64_t q)
{
    const double J = s.boolean() ? 1. : s.real(0.1, 3.), fermi = s.boolean() ? 0. : s.real(-3., 3.);
    const auto d = ieompp::models::hubbard::make_dispersion(k, l, J);
    gen::Energies e;
    for(auto i : k) {
        e.e.push_back(d(i));
    }
    s.note("q", q, "J", J, "fermi", fermi);
    check(s, k, q, d, e, fermi);
}
RELATION("chain", 2, RULE)
{
    const auto N = s.chance(1, 40) ? s.range(8, 17) : s.range(1, 7);
    s.note("chain", N);
    physical(s, ieompp::lattices::PeriodicChain<double, std::uint64_t>(N), ieompp::lattices::PeriodicChain<double, std::uint64_t>(N, 1.), gen::site(s, N));
}
RELATION("square", 1, RULE)
{
    using L      = ieompp::lattices::PeriodicSquareLattice<double, std::uint64_t>;
    const bool large = s.chance(1, 40);
    const auto x = large ? s.range(2, 6) : s.range(1, 3), y = large ? s.range(2, 18 / x) : s.range(1, x > 2 ? 2 : 3);
    s.note(x, "x", y);
    physical(s, L(x, y), L(x, y, 1., 1.), gen::site(s, x * y));
}
