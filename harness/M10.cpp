// M10: particle number of a momentum from the amplitudes of the momentum-space basis.
#include "lattice_gen.hpp"
#include "pbt_main.hpp"
#include "fermi_sea_reference.hpp"
#include "real_gen.hpp"
#include <cassert>
#include <complex>
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/models/hubbard/dispersion.hpp"
#include "ieompp/models/hubbard_momentum_space/basis.hpp"
#include "ieompp/models/hubbard_momentum_space/particle_number.hpp"

using pbt::Src;
namespace alg = ieompp::algebra;
namespace hms = ieompp::models::hubbard_momentum_space;
using Mono    = alg::Monomial<alg::Operator<std::uint64_t, bool>>;
using Basis   = hms::Basis3Operator<Mono>;

template <typename Space, typename Disp>
void check(Src& s, const Space& space, std::uint64_t q, const Disp& disp, const gen::Energies& e, typename Disp::Float fermi)
{
    using F = typename Disp::Float;
    const Basis basis(q, space);
    const Basis conj  = basis.get_conjugate();
    const bool dflt   = fermi == 0. && s.boolean();
    const auto n      = dflt ? hms::make_particle_number(basis, conj, disp) : hms::make_particle_number(basis, conj, disp, fermi);
    const auto states = sea::reference(basis, e, fermi);
    const auto rounds = s.range(1, 3);
    for(int t = 0; t < rounds; ++t) {
        const auto h = gen::amplitudes<F>(s, basis.size());
        // || sum_j conj(h_j) A_j^dag |FS> ||^2
        std::map<std::vector<char>, std::complex<double>> sum;
        for(std::size_t j = 0; j < basis.size(); ++j) {
            for(const auto& x : states[j]) {
                sum[x.first] += std::conj(std::complex<double>(h[j])) * x.second;
            }
        }
        double ref = 0.;
        for(const auto& x : sum) {
            ref += std::norm(x.second);
        }
        const double size = double(basis.size()) * gen::squared_norm(h);
        pbt::near(n(h), ref, size, 1e-12 * gen::precision<F>(), "particle number");
        pbt::require(n(h) >= -1e-12 * gen::precision<F>() * size, "the particle number is negative");
        s.nontrivial(space.size() >= 2 && ref > 0.);
    }
    // at the start of the time evolution: 1 inside the Fermi sea, 0 outside
    std::vector<std::complex<F>> start(basis.size());
    start[0] = 1.;
    pbt::equal(n(start), e.e[q] < fermi ? F(1) : F(0), "initial particle number of momentum ", q);
}

#define RULE "at least two momenta, the particle number does not vanish"
RELATION("levels", 5, RULE)
{
    const auto N = s.chance(1, 40) ? s.range(8, 18) : s.range(1, 6);
    double fermi;
    const auto e = gen::energies(s, N, fermi);
    const auto q = gen::site(s, N);
    s.describe([&](std::ostream& o) {
        o << "N " << N << " q " << q << " fermi " << fermi << " energies";
        for(double x : e.e) {
            o << ' ' << x;
        }
    });
    check(s, ieompp::lattices::PeriodicChain<double, std::uint64_t>(N), q, e, e, fermi);
}
template <typename Space>
void physical(Src& s, const Space& k, const Space& l, std::uint64_t q)
{
    using F   = typename Space::Float;
    const F J = static_cast<F>(s.boolean() ? 1. : s.real(0.1, 3.)), fermi = static_cast<F>(s.boolean() ? 0. : s.real(-3., 3.));
    const auto d = ieompp::models::hubbard::make_dispersion(k, l, J);
    gen::Energies e;
    for(auto i : k) {
        e.e.push_back(d(i));
    }
    s.note("q", q, "J", J, "fermi", fermi);
    check(s, k, q, d, e, fermi);
}
template <typename F>
void chain(Src& s)
{
    const auto N = s.chance(1, 40) ? s.range(8, 17) : s.range(1, 7);
    s.note("chain", N);
    physical(s, ieompp::lattices::PeriodicChain<F, std::uint64_t>(N), ieompp::lattices::PeriodicChain<F, std::uint64_t>(N, F(1)), gen::site(s, N));
}
RELATION("chain", 3, RULE) { chain<double>(s); }
RELATION("chain, float", 1, RULE) { chain<float>(s); }
RELATION("square", 2, RULE)
{
    using L      = ieompp::lattices::PeriodicSquareLattice<double, std::uint64_t>;
    const bool large = s.chance(1, 40);
    const auto x = large ? s.range(2, 6) : s.range(1, 3), y = large ? s.range(2, 18 / x) : s.range(1, x > 2 ? 2 : 3);
    s.note(x, "x", y);
    physical(s, L(x, y), L(x, y, 1., 1.), gen::site(s, x * y));
}
