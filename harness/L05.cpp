// L05: tight-binding dispersion on chains and square lattices, Fermi momentum.
#include "lattice_gen.hpp"
#include "pbt_main.hpp"
#include <omp.h>
#include "ieompp/types/blaze/dot_product.hpp"
#include "ieompp/models/hubbard/dispersion.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"

using pbt::Src;
namespace hub = ieompp::models::hubbard;

template <typename F>
F hopping(Src& s)
{
    return static_cast<F>(s.chance(1, 4) ? 1. : s.coeff());
}
template <typename F>
void compare(const F& got, long double ref, double J, double phase, const char* what, std::int64_t i)
{
    const double tol = 8. * std::numeric_limits<F>::epsilon() * (4. + phase);
    pbt::require(std::abs(static_cast<double>(static_cast<long double>(got) - ref)) <= tol * 2. * std::abs(J) + 1e-300, what, " at site ", i, ": got ", double(got), ", expected ", double(ref));
}

template <typename F, typename I>
void chain_case(Src& s)
{
    using Chain          = ieompp::lattices::PeriodicChain<F, I>;
    const std::int64_t N = s.chance(1, 40) ? s.range(2001, 70000) : gen::lattice_size(s, 1, 2000);
    const std::int64_t M = s.chance(1, 5) ? gen::lattice_size(s, 1, 200) : N; // the lattice fixes the spacing only
    const F dx           = gen::spacing<F>(s);
    const bool default_j = s.chance(1, 5), make = s.boolean();
    const F J            = default_j ? F(1) : hopping<F>(s);
    const int threads    = s.team();
    s.note("N", N, "lattice", M, "dx", dx, "J", J, "threads", threads);
    const Chain k(static_cast<I>(N)), l(static_cast<I>(M), dx);
    omp_set_num_threads(threads);
    using D   = hub::Dispersion<F>;
    const D d = make ? (default_j ? hub::make_dispersion(k, l) : hub::make_dispersion(k, l, J)) : (default_j ? D(k, l) : D(k, l, J));
    omp_set_num_threads(1);
    const D one = hub::make_dispersion(k, l, J);
    const long double pi = std::acos(-1.0L);
    for(std::int64_t i = 0; i < N; ++i) {
        const long double q = -pi + 2 * pi * i / N;
        compare(d(i), -2.0L * J * std::cos(q * static_cast<long double>(dx)), J, double(pi * dx), "dispersion", i);
        pbt::require(d(i) == one(i), "the dispersion depends on the number of threads");
    }
    if(dx == F(1)) { // inversion and particle-hole symmetry
        for(std::int64_t i = 1; i < N; ++i) {
            compare(d(N - i), d(i), J, 4., "dispersion of the inverted momentum", i);
            if(N % 2 == 0) {
                compare(d((i + N / 2) % N), -static_cast<long double>(d(i)), J, 4., "dispersion of the momentum shifted by pi", i);
            }
        }
    }
    s.nontrivial(N >= 3 && J != F(0) && J != F(1));
}

template <typename F, typename I>
void square_case(Src& s)
{
    using Lattice         = ieompp::lattices::PeriodicSquareLattice<F, I>;
    const std::int64_t nx = gen::lattice_size(s, 1, 40), ny = s.chance(1, 3) ? nx : gen::lattice_size(s, 1, 40);
    const F dx = gen::spacing<F>(s), dy = s.boolean() ? dx : gen::spacing<F>(s);
    const bool default_j = s.chance(1, 5), make = s.boolean();
    const F J         = default_j ? F(1) : hopping<F>(s);
    const int threads = s.team();
    s.note(nx, "x", ny, "dx", dx, "dy", dy, "J", J, "threads", threads);
    const Lattice k(static_cast<I>(nx), static_cast<I>(ny)), l(static_cast<I>(nx), static_cast<I>(ny), dx, dy);
    omp_set_num_threads(threads);
    using D   = hub::Dispersion<F>;
    const D d = make ? (default_j ? hub::make_dispersion(k, l) : hub::make_dispersion(k, l, J)) : (default_j ? D(k, l) : D(k, l, J));
    omp_set_num_threads(1);
    const D one = hub::make_dispersion(k, l, J);
    const long double pi = std::acos(-1.0L);
    for(std::int64_t x = 0; x < nx; ++x) {
        for(std::int64_t y = 0; y < ny; ++y) {
            const std::int64_t i = k.index(static_cast<I>(x), static_cast<I>(y));
            const long double qx = -pi + 2 * pi * x / nx, qy = -pi + 2 * pi * y / ny;
            compare(d(i), -2.0L * J * (std::cos(qx * static_cast<long double>(dx)) + std::cos(qy * static_cast<long double>(dy))), J, double(pi * (dx + dy)), "dispersion", i);
            pbt::require(d(i) == one(i), "the dispersion depends on the number of threads");
        }
    }
    s.nontrivial(nx >= 2 && ny >= 2 && nx != ny && J != F(0) && J != F(1));
}

#define RULE1 "at least three sites and a hopping other than 0 and 1"
#define RULE2 "sides of different length and a hopping other than 0 and 1"
RELATION("chain_double", 4, RULE1) { chain_case<double, std::uint64_t>(s); }
RELATION("chain_float", 2, RULE1) { chain_case<float, int>(s); }
RELATION("chain_long_double", 1, RULE1) { chain_case<long double, unsigned>(s); }
RELATION("square_double", 4, RULE2) { square_case<double, std::uint64_t>(s); }
RELATION("square_float", 1, RULE2) { square_case<float, int>(s); }
RELATION("fermi_momentum", 1, "partial filling")
{
    const double f = s.chance(1, 4) ? std::ldexp(s.unit(), -static_cast<int>(s.range(1, 80))) : s.boolean() ? s.unit() : s.range(0, 12) / 12.;
    s.note("filling", f);
    pbt::near(hub::calculate_fermi_momentum_1d(f), f * std::acos(-1.), 0., 1e-15, "Fermi momentum");
    pbt::near(hub::calculate_fermi_momentum_1d(float(f)), double(float(f)) * std::acos(-1.), 0., 3e-7, "Fermi momentum (float)");
    s.nontrivial(f > 0 && f < 1);
}
