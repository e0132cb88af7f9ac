// M05: Fermi jump on the chain (one- and three-operator bases), normal-ordered variant included.
#include "lattice_gen.hpp"
#include "pbt_main.hpp"
#include "real_gen.hpp"
#include <omp.h>
#include <cassert>
#include <memory>
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/models/hubbard_real_space/basis.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump/1d.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump_no.hpp"

using pbt::Src;
namespace alg = ieompp::algebra;
namespace hrs = ieompp::models::hubbard_real_space;
using Op      = alg::Operator<std::uint64_t, bool>;
using Mono    = alg::Monomial<Op>;
template <typename F>
using Lattice = ieompp::lattices::PeriodicChain<F, std::uint64_t>;
using C       = std::complex<double>;
using Basis1  = hrs::Basis1Operator<Mono>;
using Basis3  = hrs::Basis3Operator<Mono>;

C fourier(double k, double r) { return C(std::cos(k * r), std::sin(k * r)); }

std::vector<C> reduce(const std::vector<C>& h, const gen::Green& g, std::size_t N)
{
    std::vector<C> r(N);
    for(std::size_t i = 0; i < N; ++i) {
        r[i] = h[i];
        for(std::size_t j = 0; j < N; ++j) {
            for(std::size_t k = 0; k < N; ++k) {
                r[i] += (2. * g(j, k, true) - (j == k ? 1. : 0.)) * h[N + N * N * i + N * j + k];
            }
        }
    }
    return r;
}
template <typename L>
double jump(const std::vector<C>& h, std::size_t N, double kf, const L& l, double& scale)
{
    C sum = 0.;
    double a = 0.;
    for(std::size_t i = 0; i < N; ++i) {
        sum += fourier(kf, l[i]) * h[i];
        a += std::abs(h[i]);
    }
    scale = a * a * (2. + std::abs(kf) * N * l.dx());
    return std::norm(sum);
}
template <typename F>
F fermi_momentum(Src& s)
{
    const double pi = std::acos(-1.);
    return static_cast<F>(s.boolean() ? s.range(0, 8) * pi / 8. : s.real(-pi, pi));
}
void same(C a, C b, double precision, const char* what) { pbt::require(std::abs(a - b) <= 1e-11 * precision, what, ": got ", a, ", expected ", b); }

// several observables live at the same time and are evaluated in any order
template <typename F>
void one_operator(Src& s)
{
    struct Obs {
        Lattice<F> l;
        Basis1 b;
        gen::Green g;
        F kf;
        std::unique_ptr<hrs::FermiJump1D<F, Basis1>> j;
    };
    std::vector<std::unique_ptr<Obs>> all;
    std::int64_t most = 0;
    const auto steps = s.range(1, 4);
    for(int t = 0; t < steps; ++t) {
        if(all.empty() || s.boolean()) {
            const auto N = s.sized(1, 200);
            most         = std::max(most, N);
            const Lattice<F> l(N, gen::spacing<F>(s));
            std::unique_ptr<Obs> o(new Obs{l, Basis1(l), {}, fermi_momentum<F>(s), nullptr});
            o->g = gen::green(s, std::min<std::size_t>(N, 4), false, false);
            omp_set_num_threads(s.team());
            const gen::Green& g = o->g;
            o->j.reset(new hrs::FermiJump1D<F, Basis1>(l, [&g](const Op& a, const Op& b) { return static_cast<F>(g(a.index1, b.index1, a.index2)); }, o->kf));
            s.note("new N", N, "dx", l.dx(), "k_F", o->kf);
            all.push_back(std::move(o));
        }
        Obs& o       = *all[s.upto(all.size() - 1)];
        const auto N = o.l.size();
        const auto h = gen::amplitudes<F>(s, N);
        double scale;
        const double ref = jump(gen::in_double(h), N, o.kf, o.l, scale);
        omp_set_num_threads(s.team());
        s.note("evaluate N", N);
        pbt::near((*o.j)(o.b, h), ref, scale, 1e-12 * gen::precision<F>(), "jump");
        const hrs::FermiJump1D<F, Basis1> copy(*o.j);
        pbt::near(copy(o.b, h), ref, scale, 1e-12 * gen::precision<F>(), "jump of a copy");
        const auto i = gen::site(s, N);
        const double tol = 1e-13 * gen::precision<F>() * (1. + N * o.l.dx() * 4);
        const C e = fourier(o.kf, o.l[std::uint64_t(i)]), f(o.j->fourier_coefficient(i));
        pbt::require(std::abs(e - f) <= tol, "Fourier coefficient ", i, ": got ", f, ", expected ", e);
        const std::uint64_t a = s.upto(o.g.n - 1), b = s.upto(o.g.n - 1);
        pbt::equal(o.j->expectation_value(Op{true, a, true}, Op{false, b, true}), static_cast<F>(o.g(a, b, true)), "expectation value");
    }
    s.nontrivial(most >= 3);
}

template <typename F>
void three_operators(Src& s)
{
    struct Obs {
        Lattice<F> l;
        Basis3 b;
        gen::Green g;
        F kf;
        std::unique_ptr<hrs::FermiJump1D<F, Basis3>> j;
    };
    std::vector<std::unique_ptr<Obs>> all;
    std::int64_t most = 0;
    const auto steps = s.range(1, 5);
    for(int t = 0; t < steps; ++t) {
        if(all.empty() || s.boolean()) {
            const auto N = s.chance(1, 25) ? s.chance(1, 8) ? s.range(41, 43) : s.range(8, 20) : s.range(1, 7);
            most         = std::max(most, N);
            const Lattice<F> l(N, gen::spacing<F>(s));
            std::unique_ptr<Obs> o(new Obs{l, Basis3(l), gen::green(s, N, s.boolean(), false), fermi_momentum<F>(s), nullptr});
            omp_set_num_threads(s.team());
            const gen::Green& g = o->g;
            o->j.reset(new hrs::FermiJump1D<F, Basis3>(o->b, l, [&g](const Op& a, const Op& b) { return static_cast<F>(g(a.index1, b.index1, a.index2)); }, o->kf));
            s.note("new N", N, "dx", l.dx(), "k_F", o->kf);
            all.push_back(std::move(o));
        }
        Obs& o       = *all[s.upto(all.size() - 1)];
        const auto N = o.l.size();
        const auto h = gen::amplitudes<F>(s, N + N * N * N);
        double scale;
        const double ref = jump(reduce(gen::in_double(h), o.g, N), N, o.kf, o.l, scale);
        omp_set_num_threads(s.team());
        s.note("evaluate N", N);
        const auto before = h;
        double total = 0.; // contributions may cancel
        for(const auto& v : h) {
            total += std::abs(v);
        }
        pbt::near((*o.j)(h), ref, scale + 1e-4 * total * total, 1e-11 * gen::precision<F>(), "jump");
        pbt::require(h == before, "the jump changes the amplitudes");
        pbt::require(o.j->fourier_coefficients().size() == N, "number of Fourier coefficients");
        for(std::uint64_t i = 0; i < N; ++i) {
            same(C(o.j->fourier_coefficients()[i]), fourier(o.kf, o.l[i]), gen::precision<F>(), "Fourier coefficient");
        }
    }
    s.nontrivial(most >= 2 && steps >= 2);
}

template <typename F, typename Basis>
void normal_ordered(Src& s, std::int64_t most)
{
    const F kf    = static_cast<F>(std::acos(-1.) / 2);
    const auto N    = s.sized(1, most);
    const Lattice<F> l(N, gen::spacing<F>(s));
    const gen::Green g = gen::green(s, std::min<std::size_t>(N, 4), false, false);
    s.note("normal-ordered N", N, "dx", l.dx());
    omp_set_num_threads(s.team());
    hrs::FermiJump1D_NO<F, Basis> j(l, [&g](const Op& a, const Op& b) { return static_cast<F>(g(a.index1, b.index1, a.index2)); });
    const auto h = gen::amplitudes<F>(s, Basis(l).size());
    double scale;
    const double ref = jump(gen::in_double(h), N, kf, l, scale);
    omp_set_num_threads(s.team());
    pbt::near(j(h), ref, scale, 1e-12 * gen::precision<F>(), "normal-ordered jump");
    const hrs::FermiJump1D_NO<F, Basis> copy(j);
    pbt::near(copy(h), ref, scale, 1e-12 * gen::precision<F>(), "normal-ordered jump of a copy");
    const auto i = gen::site(s, N);
    const C e = fourier(kf, l[std::uint64_t(i)]), f(j.fourier_coefficient(i));
    pbt::require(std::abs(e - f) <= 1e-13 * gen::precision<F>() * (1. + N * l.dx() * 4), "Fourier coefficient ", i, ": got ", f, ", expected ", e);
    const std::uint64_t a = s.upto(g.n - 1), b = s.upto(g.n - 1);
    pbt::equal(j.expectation_value(Op{true, a, true}, Op{false, b, true}), static_cast<F>(g(a, b, true)), "expectation value");
    s.nontrivial(N >= 3);
}
RELATION("one_operator", 6, "at least three sites") { one_operator<double>(s); }
RELATION("one_operator, float", 1, "at least three sites") { one_operator<float>(s); }
RELATION("three_operators", 8, "at least two evaluations, at least two sites") { three_operators<double>(s); }
RELATION("three_operators, float", 1, "at least two evaluations, at least two sites") { three_operators<float>(s); }
RELATION("normal_ordered_one", 2, "at least three sites") { normal_ordered<double, Basis1>(s, 200); }
RELATION("normal_ordered_one, float", 1, "at least three sites") { normal_ordered<float, Basis1>(s, 200); }
RELATION("normal_ordered_three", 2, "at least three sites") { normal_ordered<double, Basis3>(s, 8); }
