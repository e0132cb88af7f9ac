// M03: half-filled expectation values.
#include "lattice_gen.hpp"
#include "pbt_main.hpp"
#include <omp.h>
#include <cassert>
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/models/hubbard_real_space/expectation_value.hpp"

using pbt::Src;
namespace hrs = ieompp::models::hubbard_real_space;
const double pi = std::acos(-1.);

std::int64_t ring(std::int64_t a, std::int64_t b, std::int64_t n)
{
    const std::int64_t d = ((a - b) % n + n) % n;
    return std::min(d, n - d);
}

template <typename F, typename I>
void chain_case(Src& s)
{
    using Lattice        = ieompp::lattices::PeriodicChain<F, I>;
    const std::int64_t N = gen::lattice_size(s, 1, 1500);
    const F dx           = gen::spacing<F>(s);
    const F filling      = static_cast<F>(s.weighted({2, 3}) ? s.unit() : s.range(0, 8) / 8.);
    const F kf           = s.boolean() ? static_cast<F>(filling * pi) : static_cast<F>(s.real(0., pi));
    s.note("N", N, "dx", dx, "filling", filling, "k_F", kf);
    const Lattice l(static_cast<I>(N), dx);
    const int threads = s.team();
    omp_set_num_threads(threads);
    const hrs::ExpectationValue1DHalfFilled<F, Lattice> ev(l, filling, kf);
    omp_set_num_threads(1);
    const double eps = std::numeric_limits<F>::epsilon();
    for(int t = 0; t < 12; ++t) {
        const std::int64_t a = gen::site(s, N), b = s.chance(1, 3) ? (a + s.range(0, 3)) % N : gen::site(s, N);
        const std::int64_t d = ring(a, b, N);
        const I ia = static_cast<I>(a), ib = static_cast<I>(b);
        s.note("(", a, b, ")");
        const double x   = double(kf) * d * double(dx);
        const double ref = d == 0 ? double(filling) : std::sin(x) / (pi * d * double(dx));
        pbt::require(std::abs(double(ev(ia, ib)) - ref) <= 8 * eps * (1. + x) / (d == 0 ? 1. : pi * d * double(dx)) + eps * std::abs(ref), "<c_", a, "^dag c_", b, "> = ", double(ev(ia, ib)), ", expected ", ref);
        pbt::require(std::abs(double(ev(ia, ib)) - double(ev(ib, ia))) <= 8 * eps * (1. + x) / double(dx < F(1) ? dx : F(1)), "<c_a^dag c_b> is not symmetric");
        const std::int64_t sh = s.range(0, N - 1);
        pbt::require(std::abs(double(ev(ia, ib)) - double(ev(static_cast<I>((a + sh) % N), static_cast<I>((b + sh) % N)))) <= 8 * eps * (1. + x) / double(dx < F(1) ? dx : F(1)), "<c_a^dag c_b> is not translation invariant");
        pbt::equal(std::int64_t(ev.lattice_distance(ia, ib)), d, "lattice_distance");
    }
    s.nontrivial(N >= 3 && filling > 0);
}

template <typename F, typename I>
void square_case(Src& s)
{
    using Lattice         = ieompp::lattices::PeriodicSquareLattice<F, I>;
    const std::int64_t nx = gen::lattice_size(s, 1, 80), ny = s.chance(1, 3) ? nx : gen::lattice_size(s, 1, 80);
    s.note(nx, "x", ny);
    const Lattice l(static_cast<I>(nx), static_cast<I>(ny), F(1), F(1));
    omp_set_num_threads(s.team());
    const hrs::ExpectationValue2DHalfFilled<F, Lattice> ev(l);
    omp_set_num_threads(1);
    const double eps = std::numeric_limits<F>::epsilon();
    // 1/(2 pi)^2 integral over |kx| + |ky| < pi of exp(i k r), as a product of two one-dimensional ones
    auto sinc = [](double x) { return std::abs(x) < 1e-9 ? 1. : std::sin(x) / x; };
    for(int t = 0; t < 16; ++t) {
        const std::int64_t x = gen::site(s, nx), y = gen::site(s, ny);
        const bool close = s.boolean();
        const std::int64_t u = close ? (x + s.range(0, 3)) % nx : gen::site(s, nx), v = close ? (y + s.range(0, 3)) % ny : gen::site(s, ny);
        const std::int64_t dx = ring(x, u, nx), dy = ring(y, v, ny);
        const I a = l.index(static_cast<I>(x), static_cast<I>(y)), b = l.index(static_cast<I>(u), static_cast<I>(v));
        s.note("(", x, y, ")-(", u, v, ")");
        const double ref = 0.5 * sinc(0.5 * pi * (dx + dy)) * sinc(0.5 * pi * (dx - dy));
        pbt::require(std::abs(double(ev(a, b)) - ref) <= 16 * eps, "<c_(", x, ",", y, ")^dag c_(", u, ",", v, ")> = ", double(ev(a, b)), ", expected ", ref);
        pbt::require(std::abs(double(ev(a, b)) - double(ev(b, a))) <= 16 * eps, "<c_a^dag c_b> is not symmetric");
        const std::int64_t sx = s.range(0, nx - 1), sy = s.range(0, ny - 1);
        pbt::require(std::abs(double(ev(a, b)) - double(ev(l.index(static_cast<I>((x + sx) % nx), static_cast<I>((y + sy) % ny)), l.index(static_cast<I>((u + sx) % nx), static_cast<I>((v + sy) % ny))))) <= 16 * eps, "<c_a^dag c_b> is not translation invariant");
    }
    s.nontrivial(nx >= 3 && ny >= 3 && nx != ny);
}
#define RULE1 "at least three sites and a filling above zero"
#define RULE2 "at least three sites in both directions, sides differ"
RELATION("chain_double", 4, RULE1) { chain_case<double, std::uint64_t>(s); }
RELATION("chain_float", 1, RULE1) { chain_case<float, unsigned>(s); }
RELATION("square_double", 4, RULE2) { square_case<double, std::uint64_t>(s); }
RELATION("square_float", 1, RULE2) { square_case<float, std::uint64_t>(s); }
