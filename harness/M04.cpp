// M04: site occupation in the one- and three-operator bases.
#include "lattice_gen.hpp"
#include "pbt_main.hpp"
#include "real_gen.hpp"
#include "wick.hpp"
#include <omp.h>
#include <cassert>
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/models/hubbard_real_space/basis.hpp"
#include "ieompp/models/hubbard_real_space/site_occupation.hpp"

using pbt::Src;
template <typename F>
double tolerance()
{
    return 5000. * std::numeric_limits<F>::epsilon();
}
namespace alg = ieompp::algebra;
namespace hrs = ieompp::models::hubbard_real_space;
using Op      = alg::Operator<std::uint64_t, bool>;
using Mono    = alg::Monomial<Op>;

// N[c^dag] = sqrt(2) c^dag, N[c^dag c^dag c] = 2 sqrt(2) (c^dag c^dag c - delta/2 c^dag)
wick::Sum normal(const Mono& m)
{
    wick::Product p;
    for(const auto& o : m) {
        p.push_back({o.creator, std::size_t(o.index1), o.index2});
    }
    if(p.size() == 1) {
        return {{std::sqrt(2.), p}};
    }
    wick::Sum r{{2. * std::sqrt(2.), p}};
    if(p[1].site == p[2].site) {
        r.push_back({-std::sqrt(2.), {p[0]}});
    }
    return r;
}

template <typename F, typename Lattice>
void one_case(Src& s, const Lattice& lattice)
{
    using Basis  = hrs::Basis1Operator<Mono>;
    const auto N = lattice.size();
    const Basis basis(lattice);
    const Basis conj = basis.get_conjugate();
    const gen::Green g = gen::green(s, N, true, false);
    const hrs::SiteOccupation<F, Basis> n{gen::product_expectation<F, Op>(g), std::cref(basis), std::cref(conj)};
    for(std::size_t i = 0; i < N && i < 8; ++i) {
        for(std::size_t j = 0; j < N && j < 8; ++j) {
            pbt::near(n.expectation_value(basis[i], conj[j]), 2. * g(i, j, true), 1., tolerance<F>(), "expectation value of ", i, ",", j);
        }
    }
    const auto h = gen::amplitudes<F>(s, N);
    std::complex<double> ref = 0.;
    for(std::size_t i = 0; i < N; ++i) {
        for(std::size_t j = 0; j < N; ++j) {
            ref += std::complex<double>(h[i]) * std::conj(std::complex<double>(h[j])) * g(i, j, true);
        }
    }
    omp_set_num_threads(s.team());
    pbt::near(n(h), ref.real(), (double(N) + 1.) * gen::squared_norm(h), tolerance<F>(), "site occupation");
    s.nontrivial(N >= 3);
}

template <typename F, typename Lattice>
void three_case(Src& s, const Lattice& lattice)
{
    using Basis  = hrs::Basis3Operator<Mono>;
    const auto N = lattice.size();
    const Basis basis(lattice);
    const Basis conj    = basis.get_conjugate();
    const bool full     = s.chance(1, 2) && N <= 6;
    const bool symmetric = full || s.boolean();
    const gen::Green g  = gen::green(s, N, symmetric, s.boolean());
    const wick::Green wg = [&](std::size_t a, std::size_t b, bool spin) { return g(a, b, spin); };
    hrs::SiteOccupation<F, Basis> n{gen::product_expectation<F, Op>(g), std::cref(basis), std::cref(conj)};
    auto value = [&](std::size_t i, std::size_t j) { return wick::expect(normal(basis[i]), wick::adjoint(normal(basis[j])), wg); };
    auto pick  = [&]() -> std::size_t { return s.chance(1, 4) ? s.upto(N - 1) : basis.get_3op_index(gen::site(s, N), gen::site(s, N), gen::site(s, N)); };
    for(int t = 0; t < 10; ++t) {
        const auto i = pick(), j = pick();
        s.note("(", i, j, ")");
        const double ref = value(i, j);
        pbt::near(n.expectation_value(basis[i], conj[j]), ref, 1., tolerance<F>(), "expectation value of the basis operators ", i, " and ", j);
        const F direct = basis[i].size() == 1 ? (basis[j].size() == 1 ? n.expectation_value_1_1(basis[i], conj[j]) : n.expectation_value_1_3(basis[i], conj[j]))
                                                   : (basis[j].size() == 1 ? n.expectation_value_3_1(basis[i], conj[j]) : n.expectation_value_3_3(basis[i], conj[j]));
        pbt::near(direct, ref, 1., tolerance<F>(), "specialised expectation value of the basis operators ", i, " and ", j);
    }
    if(full) {
        pbt::require(n.exploit_inversion_symmetry, "the inversion symmetry is not exploited by default");
        const auto h = gen::amplitudes<F>(s, basis.size());
        double ref = 0., scale = gen::squared_norm(h);
        for(std::size_t i = 0; i < basis.size(); ++i) {
            if(h[i] == F(0)) {
                continue;
            }
            for(std::size_t j = 0; j < basis.size(); ++j) {
                if(h[j] != F(0)) {
                    const double v = value(i, j) * (std::complex<double>(h[i]) * std::conj(std::complex<double>(h[j]))).real() / 2.;
                    ref += v;
                    scale += std::abs(v);
                }
            }
        }
        omp_set_num_threads(s.team());
        const F a = n(h);
        n.exploit_inversion_symmetry = false;
        const F b = n(h);
        pbt::near(a, ref, scale, tolerance<F>(), "site occupation (inversion symmetry)");
        pbt::near(b, ref, scale, tolerance<F>(), "site occupation (all pairs)");
        s.label("occupation");
    }
    s.nontrivial(N >= 2);
}

template <typename F>
ieompp::lattices::PeriodicChain<F, std::uint64_t> chain(Src& s, std::int64_t max, bool large = false)
{
    const auto N = large && s.chance(1, 40) ? s.chance(2, 3) ? s.range(max + 1, 6) : s.range(7, 30) : s.range(1, max);
    s.note("chain", N);
    return {static_cast<std::uint64_t>(N), F(1)};
}
template <typename F>
ieompp::lattices::PeriodicSquareLattice<F, std::uint64_t> square(Src& s, std::int64_t max, bool large = false)
{
    const bool more = large && s.chance(1, 40);
    const auto x = s.range(1, more ? 5 : max), y = s.range(1, more ? 5 : max);
    s.note(x, "x", y);
    return {static_cast<std::uint64_t>(x), static_cast<std::uint64_t>(y), F(1), F(1)};
}

RELATION("one_chain", 6, "at least three sites") { one_case<double>(s, chain<double>(s, 24)); }
RELATION("one_chain_float", 2, "at least three sites") { one_case<float>(s, chain<float>(s, 24)); }
RELATION("one_square", 2, "at least three sites") { one_case<double>(s, square<double>(s, 4)); }
RELATION("three_chain", 8, "at least two sites") { three_case<double>(s, chain<double>(s, 4, true)); }
RELATION("three_chain_float", 2, "at least two sites") { three_case<float>(s, chain<float>(s, 4, true)); }
RELATION("three_square", 2, "at least two sites") { three_case<double>(s, square<double>(s, 2, true)); }
