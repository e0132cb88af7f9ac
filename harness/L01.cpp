// L01: sites, positions and position lookup of the periodic chain.
#include "lattice_gen.hpp"
#include "pbt_main.hpp"
#include "ieompp/lattices/periodic_chain.hpp"

using pbt::Src;
template <typename F, typename I>
using Chain = ieompp::lattices::PeriodicChain<F, I>;

template <typename F, typename I>
void chain_case(Src& s)
{
    const std::int64_t N = gen::lattice_size(s, 1, 3000);
    const bool real      = s.boolean();
    const F dx           = gen::spacing<F>(s);
    const F pi           = static_cast<F>(std::acos(-1.0L));
    Chain<F, I> c        = real ? Chain<F, I>(static_cast<I>(N), dx) : Chain<F, I>(static_cast<I>(N));
    const Chain<F, I>& cc = c;
    s.note(real ? "real" : "momentum", "N", N, "dx", c.dx());
    const F eps = std::numeric_limits<F>::epsilon();
    const F L = real ? F(N) * dx : 2 * pi, x0 = real ? F(0) : -pi, d = L / F(N);
    auto near = [&](F a, F b, F sc) { return std::abs(a - b) <= 16 * eps * (std::abs(sc) + std::abs(x0)); };

    pbt::require(c.size() == static_cast<I>(N) && c.first() == I(0) && c.last() == static_cast<I>(N - 1), "size(), first() or last()");
    pbt::require(near(c.x_length(), L, L) && near(c.x_min(), x0, L) && near(c.dx(), d, L), "length, origin or spacing");
    pbt::require(near(c.x_max(), real ? F(N - 1) * d : pi, L), "x_max");
    pbt::require(c.lattice_vectors().size() == 1 && near(c.lattice_vectors()[0], d, L), "lattice vector");

    // iteration visits every site once, in order
    std::int64_t k = 0;
    for(auto i : cc) {
        pbt::require(i == static_cast<I>(k), "iteration skips or repeats a site");
        ++k;
        pbt::require(k <= N, "iteration visits too many sites");
    }
    pbt::equal(k, N, "number of sites visited");
    k = 0;
    for(auto i : c) {
        pbt::require(i == static_cast<I>(k), "mutable iteration skips or repeats a site");
        ++k;
        pbt::require(k <= N, "mutable iteration visits too many sites");
    }
    pbt::equal(k, N, "number of sites visited by mutable iteration");
    pbt::equal(std::int64_t(c.end() - c.begin()), N, "end() - begin()");
    pbt::equal(std::int64_t(c.cend() - c.cbegin()), N, "cend() - cbegin()");

    const int tries = 6;
    for(int t = 0; t < tries; ++t) {
        const std::int64_t i = gen::site(s, N);
        const F x            = c[static_cast<I>(i)];
        pbt::require(near(x, x0 + F(i) * d, L), "position of site ", i);
        pbt::equal(std::int64_t(c(x)), i, "lookup of the position of a site");
        // a point near the site or one of its periodic images
        const std::int64_t image = s.chance(1, 8) ? s.range(-100, 100) : s.range(-3, 3);
        const F off              = F(s.weighted({2, 1}) ? s.real(-0.4, 0.4) : s.real(-1e-3, 1e-3)) * d;
        const F y                = x + F(image) * L + (s.chance(1, 4) ? F(0) : off);
        if(4 * eps * L * F(8 + 2 * std::abs(image)) < F(0.05) * d) {
            s.note("y", double(y));
            pbt::equal(std::int64_t(c(y)), i, "lookup of a point near image ", image, " of site ", i);
            pbt::equal(std::int64_t(c.closest(y)), i, "closest site of a point near image ", image);
        }
    }
    // sums and differences of positions are positions again (mod L)
    for(int t = 0; t < tries; ++t) {
        const std::int64_t a = gen::site(s, N), b = gen::site(s, N), e = gen::site(s, N);
        const F sum  = c[static_cast<I>(a)] + c[static_cast<I>(b)] - c[static_cast<I>(e)];
        const auto w = ((a + b - e) % N + N) % N;
        s.note(a, "+", b, "-", e);
        pbt::equal(std::int64_t(c(sum)), w, "lookup of the sum of positions");
    }
    // an arbitrary point: no site is nearer than the one returned
    {
        const F y      = x0 + F(s.real(-2.5, 3.5)) * L;
        const auto m   = c.closest(y);
        const auto l   = c(y);
        pbt::require(m < static_cast<I>(N) && l < static_cast<I>(N), "a lookup returned no site");
        auto dist = [&](std::int64_t i) {
            F q = std::fmod(std::abs(y - (x0 + F(i) * d)), L);
            return std::min(q, L - q);
        };
        F best = L;
        for(std::int64_t i = 0; i < N; ++i) {
            best = std::min(best, dist(i));
        }
        s.note("arbitrary", double(y));
        pbt::require(dist(std::int64_t(m)) <= best + 64 * eps * L, "closest() returned a site that is not the nearest");
        pbt::require(dist(std::int64_t(l)) <= best + 64 * eps * L, "lookup returned a site that is not the nearest");
    }
    s.label(real ? "real space" : "momentum space");
    s.nontrivial(N >= 3);
}
#define RULE "at least three sites"
RELATION("double_u64", 6, RULE) { chain_case<double, std::uint64_t>(s); }
RELATION("double_int", 2, RULE) { chain_case<double, int>(s); }
RELATION("float_u64", 2, RULE) { chain_case<float, std::uint64_t>(s); }
RELATION("long_double_unsigned", 2, RULE) { chain_case<long double, unsigned>(s); }
// chains too long to visit: positions and lookup only
RELATION("large", 6, "more than 65536 sites")
{
    const std::int64_t N = s.boolean() ? (std::int64_t(1) << s.range(10, 36)) + s.range(-2, 2) : s.sized(3000, 100000000);
    const bool real      = s.boolean();
    const double dx      = gen::spacing<double>(s);
    const auto c         = real ? Chain<double, std::uint64_t>(N, dx) : Chain<double, std::uint64_t>(N);
    s.note(real ? "real" : "momentum", "N", N, "dx", c.dx());
    for(int t = 0; t < 6; ++t) {
        const std::int64_t a = gen::site(s, N), b = gen::site(s, N), e = gen::site(s, N);
        const double x = c[std::uint64_t(a)];
        pbt::require(std::abs(x - (c.x_min() + double(a) * c.dx())) <= 1e-12 * c.x_length(), "position of site ", a);
        pbt::equal(std::int64_t(c(x)), a, "lookup of the position of a site");
        pbt::equal(std::int64_t(c(x + 0.3 * c.dx())), a, "lookup of a point near a site");
        pbt::equal(std::int64_t(c(x + c[std::uint64_t(b)] - c[std::uint64_t(e)])), (((a + b - e) % N) + N) % N, "lookup of ", a, "+", b, "-", e);
    }
    s.nontrivial(N > 65536);
}
