// M06: Fermi jump on the square lattice.
#include "lattice_gen.hpp"
#include "pbt_main.hpp"
#include "real_gen.hpp"
#include <omp.h>
#include <cassert>
#include <memory>
#include <numeric>
#include "ieompp/types/blaze/dot_product.hpp"
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/models/hubbard_real_space/basis.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump/2d.hpp"

using pbt::Src;
namespace alg = ieompp::algebra;
namespace hrs = ieompp::models::hubbard_real_space;
using Op      = alg::Operator<std::uint64_t, bool>;
using Mono    = alg::Monomial<Op>;
template <typename F>
using Lattice = ieompp::lattices::PeriodicSquareLattice<F, std::uint64_t>;
using C       = std::complex<double>;
using Basis   = hrs::Basis3Operator<Mono>;
template <typename F>
using Jump = hrs::FermiJump2D<F, Basis>;

template <typename F>
void jump(Src& s)
{
    struct Obs {
        Lattice<F> l;
        Basis b;
        gen::Green g;
        F kx, ky;
        std::unique_ptr<Jump<F>> j;
    };
    const double pi = std::acos(-1.);
    auto momentum   = [&]() { return static_cast<F>(s.boolean() ? s.range(-8, 8) * pi / 8. : s.real(-pi, pi)); };
    std::vector<std::unique_ptr<Obs>> all;
    bool wide        = false;
    const auto steps = s.range(1, 5);
    for(int t = 0; t < steps; ++t) {
        if(all.empty() || s.boolean()) {
            const bool large = s.chance(1, 25);
            const bool huge = large && s.chance(1, 8); // more than 2^16 elements
            const auto nx = huge ? s.range(6, 7) : s.range(1, large ? 6 : 4), ny = huge ? 13 - nx : s.range(1, large ? 5 : nx > 2 ? 2 : 4);
            wide = wide || (nx >= 2 && ny >= 2);
            const F dx = gen::spacing<F>(s), dy = gen::spacing<F>(s);
            const Lattice<F> l(nx, ny, dx, dy);
            std::unique_ptr<Obs> o(new Obs{l, Basis(l), gen::green(s, nx * ny, s.boolean(), false), momentum(), momentum(), nullptr});
            omp_set_num_threads(s.team());
            const gen::Green& g = o->g;
            o->j.reset(new Jump<F>(o->b, l, [&g](const Op& a, const Op& b) { return static_cast<F>(g(a.index1, b.index1, a.index2)); }, typename Lattice<F>::Vector{o->kx, o->ky}));
            s.note("new", nx, "x", ny, "k_F", o->kx, o->ky);
            all.push_back(std::move(o));
        }
        Obs& o              = *all[s.upto(all.size() - 1)];
        const std::size_t N = o.l.size();
        const auto h        = gen::amplitudes<F>(s, N + N * N * N);
        s.note("evaluate", o.l.size_x(), "x", o.l.size_y());
        C sum       = 0.;
        double size = 0.;
        pbt::require(o.j->fourier_coefficients().size() == N, "number of Fourier coefficients");
        for(std::size_t i = 0; i < N; ++i) {
            C r(h[i]);
            for(std::size_t j = 0; j < N; ++j) {
                for(std::size_t k = 0; k < N; ++k) {
                    r += (2. * o.g(j, k, true) - (j == k ? 1. : 0.)) * C(h[N + N * N * i + N * j + k]);
                }
            }
            const double x = double(i / o.l.size_y()) * o.l.dx(), y = double(i % o.l.size_y()) * o.l.dy();
            const double arg = double(o.kx) * x + double(o.ky) * y;
            const C f(std::cos(arg), std::sin(arg));
            sum += f * r;
            size += std::abs(r);
            const C c(o.j->fourier_coefficients()[i]);
            pbt::require(std::abs(c - f) <= 1e-11 * gen::precision<F>(), "Fourier coefficient ", i, ": got ", c, ", expected ", f);
        }
        omp_set_num_threads(s.team());
        const auto before = h;
        double total = 0.; // contributions may cancel
        for(const auto& v : h) {
            total += std::abs(v);
        }
        pbt::near((*o.j)(h), std::norm(sum), size * size + 1e-4 * total * total, 1e-11 * gen::precision<F>(), "jump");
        pbt::require(h == before, "the jump changes the amplitudes");
    }
    s.nontrivial(wide || all.size() >= 2);
}
RELATION("jump", 5, "both sides have at least two sites, or several observables") { jump<double>(s); }
RELATION("jump, float", 1, "both sides have at least two sites, or several observables") { jump<float>(s); }
